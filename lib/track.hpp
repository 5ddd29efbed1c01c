// Monitors for containers: an object type that registers every construction / destruction / use, and an arena that
// registers every allocation / release.
#pragma once
#include "vt.hpp"
#include <ranges>
#include <new>
#include <compare>
#include <memory_resource>

namespace tk
{
    struct Registry
    {
        std::unordered_set<const void*> live;
        int64_t budget = -1;    // throw at construction number `budget` (fault injection), -1 never
        uint64_t events = 0;
        void bad(const char* what) { vt::violation(what); }
    };
    inline Registry& reg() { static Registry* r = new Registry; return *r; }
    struct Injected : std::exception { const char* what() const noexcept override { return "injected"; } };

    // value type with observable lifetime. v == -1: moved from, -2: never legitimately readable
    struct Obj
    {
        int v;
        static void step() { ++reg().events; if (reg().budget >= 0 && reg().budget-- == 0) throw Injected{}; }
        void born() { vt::LedgerPause p; if (!reg().live.insert(this).second) reg().bad("object constructed over a live object"); }
        void alive(const char* w) const { vt::LedgerPause p; if (!reg().live.count(this)) reg().bad(w); }
        Obj() : v(0) { step(); born(); }
        Obj(int x) : v(x) { step(); born(); }
        Obj(const Obj& o) : v(o.v) { o.alive("copy from an object that is not alive"); step(); born(); }
        Obj(Obj&& o) noexcept : v(o.v) { o.alive("move from an object that is not alive"); ++reg().events; o.v = -1; born(); }
        Obj& operator=(const Obj& o) { alive("assignment to an object that is not alive"); o.alive("copy from an object that is not alive"); step(); v = o.v; return *this; }
        Obj& operator=(Obj&& o) noexcept { alive("assignment to an object that is not alive"); o.alive("move from an object that is not alive"); ++reg().events; if (this != &o) { v = o.v; o.v = -1; } return *this; }
        ~Obj() { vt::LedgerPause p; ++reg().events; if (!reg().live.erase(this)) reg().bad("destruction of an object that is not alive"); v = -2; }
        friend bool operator==(const Obj& a, const Obj& b) { a.alive("read of an object that is not alive"); b.alive("read of an object that is not alive"); return a.v == b.v; }
    };

    struct Arena
    {
        std::map<const void*, size_t> live;
        uint64_t allocs = 0, deallocs = 0;
        int64_t fail_in = -1;
        void* allocate(size_t n)
        {
            vt::LedgerPause p;
            if (fail_in >= 0 && fail_in-- == 0) throw std::bad_alloc{};
            ++allocs;
            void* q = ::operator new(n);
            live[q] = n;
            return q;
        }
        void deallocate(void* q, size_t n)
        {
            vt::LedgerPause p;
            if (q == nullptr) { vt::violation("released a null pointer"); return; }
            ++deallocs;
            auto it = live.find(q);
            if (it == live.end()) { vt::violation("released memory this allocator did not hand out"); return; }
            if (it->second != n) vt::violation("released with a different size", vt::fmt("%zu vs %zu", n, it->second));
            live.erase(it);
            ::operator delete(q);
        }
    };
    // stateful allocator; equal exactly when both refer to the same arena
    template <class T> struct Alloc
    {
        using value_type = T;
        Arena* a;
        int copies = 0;
        explicit Alloc(Arena& x) : a(&x) {}
        Alloc(const Alloc&) = default;
        template <class U> Alloc(const Alloc<U>& o) : a(o.a) {}
        T* allocate(size_t n) { return static_cast<T*>(a->allocate(n * sizeof(T))); }
        void deallocate(T* p, size_t n) { a->deallocate(p, n * sizeof(T)); }
        bool operator==(const Alloc& o) const { return a == o.a; }
    };
    struct Resource : std::pmr::memory_resource
    {
        Arena* a;
        explicit Resource(Arena& x) : a(&x) {}
        void* do_allocate(size_t n, size_t) override { return a->allocate(n); }
        void do_deallocate(void* p, size_t n, size_t) override { a->deallocate(p, n); }
        bool do_is_equal(const std::pmr::memory_resource& o) const noexcept override { auto* r = dynamic_cast<const Resource*>(&o); return r && r->a == a; }
    };
    // single-pass input iterator: copies share the position
    template <class T> struct SinglePass
    {
        using value_type = T; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; using pointer = const T*; using reference = T;
        const std::vector<T>* v = nullptr; size_t* at = nullptr;
        T operator*() const { if (!v || *at >= v->size()) { vt::violation("an input iterator was read past its end"); return T(); } return (*v)[*at]; }
        SinglePass& operator++() { if (!v || *at >= v->size()) vt::violation("an input iterator was advanced past its end"); else ++*at; return *this; }
        void operator++(int) { ++*this; }
        bool done() const { return !v || *at >= v->size(); }
        friend bool operator==(const SinglePass& a, const SinglePass& b) { return a.done() == b.done(); }
        friend bool operator==(const SinglePass& a, std::default_sentinel_t) { return a.done(); }
    };
    // a range that can be read once (the way std::ranges::istream_view can), its end being a sentinel
    template <class T> struct Once
    {
        std::vector<T> v; size_t at = 0;
        template <class R> explicit Once(R&& r) { for (auto&& x : r) v.push_back(T(x)); }
        auto range() { return std::ranges::subrange<SinglePass<T>, std::default_sentinel_t>(SinglePass<T>{&v, &at}, std::default_sentinel); }
    };
}
