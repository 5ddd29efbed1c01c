// Allocation faults: the global allocation functions of a harness fail at a chosen call.
#pragma once
#include "vt.hpp"
#include <cstdlib>
#include <new>

namespace fi
{
    inline thread_local bool armed = false;
    inline thread_local bool lasting = false;    // every later call fails, too
    inline thread_local uint64_t fail_at = 0;    // 1: the first; 0: none
    inline thread_local uint64_t seen = 0, fired = 0;
    inline size_t too_big = ~size_t(0);          // larger requests are refused, as by a machine without that much memory
    // calls made while armed, except those of the monitors
    inline bool fails()
    {
        if (!armed || vt::g_ledger_off) return false;
        ++seen;
        if (fail_at == 0 || (seen != fail_at && !(lasting && seen > fail_at))) return false;
        ++fired;
        return true;
    }
    struct Window
    {
        Window(uint64_t at, bool more) { fail_at = at; lasting = more; seen = fired = 0; armed = true; }
        ~Window() { armed = false; }
    };
    inline void* get(size_t n, size_t al)
    {
        if (n > too_big || fails()) return nullptr;
        if (n == 0) n = 1;
        return al ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n);
    }
}
#ifdef FI_DEFS
static void* fi_throwing(size_t n, size_t al) { void* p = fi::get(n, al); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return fi_throwing(n, 0); }
void* operator new[](size_t n) { return fi_throwing(n, 0); }
void* operator new(size_t n, std::align_val_t a) { return fi_throwing(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return fi_throwing(n, size_t(a)); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return fi::get(n, 0); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return fi::get(n, 0); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
void operator delete(void* p, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { free(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { free(p); }
#endif

namespace fi
{
    // One scenario, set up afresh for every attempt.
    struct Attempt
    {
        virtual ~Attempt() = default;
        virtual void op() = 0;                  // the operation under faults
        virtual void after(bool completed) = 0; // what must hold then
    };
    // run the scenario with a failure at every allocation it makes (a sample of them beyond `most`)
    template <class Make> void sweep(vt::Case& cs, const std::string& name, Make&& make)
    {
        const auto seed = cs.rng;
        const bool more = cs.rng.chance(1, 4);
        const size_t most = cs.thorough ? 200 : 40;
        int64_t lost = 0;
        auto attempt = [&](uint64_t at) -> uint64_t
        {
            uint64_t calls = 0;
            const int64_t live = vt::g_live;
            {
                auto r = seed;
                vt::label(name + "|set up");
                auto a = make(r);
                bool done = false;
                vt::label(name);
                try { Window w(at, more); a->op(); done = true; }
                catch (const std::bad_alloc&) {}
                catch (const std::exception& e) { vt::violation(std::string("another-exception:") + typeid(e).name(), vt::fmt("%s at allocation %llu", e.what(), (unsigned long long) at)); }
                catch (...) { vt::violation("another-exception", vt::fmt("at allocation %llu", (unsigned long long) at)); }
                calls = seen;
                if (at == 0 && !done) vt::violation("fails-without-fault");
                if (at && fired) { vt::cover(done ? "failures survived" : "failures reported"); vt::cover("allocation failures injected"); }
                if (at && done && fired == 0) vt::cover("attempts without failure");
                vt::label(name + "|" + (done ? "afterwards" : "after the failure"));
                a->after(done);
                vt::label(name + "|" + (done ? "end" : "end after the failure"));
            }
            lost = vt::g_live - live;
            return calls;
        };
        auto one = [&](uint64_t at) -> uint64_t
        {
            const uint64_t bad = vt::ctx().violations;
            const uint64_t calls = attempt(at);
            // what is created once stays: only a leak that recurs is a leak
            for (int again = 0; at && lost != 0 && vt::ctx().violations == bad; ++again)
            {
                if (again == 2) { vt::violation("leak", vt::fmt("%lld blocks with a failure at allocation %llu", (long long) lost, (unsigned long long) at)); break; }
                attempt(at);
            }
            return calls;
        };
        const uint64_t n = one(0);   // also creates what is created once
        vt::cover("scenarios");
        vt::cover("scenario:" + name.substr(0, name.find('|')));
        std::vector<uint64_t> at;
        {
            vt::LedgerPause p;
            for (uint64_t i = 1; i <= n; ++i) at.push_back(i);
            while (at.size() > most) at.erase(at.begin() + long(cs.rng.below(at.size())));
        }
        for (uint64_t i : at) one(i);
        vt::distinct(vt::fnv(name + vt::fmt("/%llu/%llu", (unsigned long long) n, (unsigned long long) cs.index)));
        vt::LedgerPause p;
        std::vector<uint64_t>().swap(at);
    }
}
