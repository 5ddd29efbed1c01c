// Workload driver, monitors' reporting channel, coverage accounting.
// Protocol (stdout): "V\t<key>\t<case>\t<detail>" violation observed by a monitor,
//                    "COVER\t<json>" coverage so far (last one wins), stderr carries sanitizer reports.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <atomic>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#if defined(__SANITIZE_ADDRESS__)
#define VT_ASAN 1
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define VT_ASAN 1
#endif
#endif
#ifdef VT_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace vt
{
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9e3779b97f4a7c15ULL;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
        return z ^ (z >> 31);
    }

    struct Rng
    {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(mix(seed)) {}
        uint64_t next() { s += 0x9e3779b97f4a7c15ULL; return mix(s); }
        uint64_t below(uint64_t n) { return n == 0 ? 0 : next() % n; }
        int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo + 1))); }
        bool chance(unsigned num, unsigned den) { return below(den) < num; }
        template <class C> auto& pick(C& c) { return c[below(c.size())]; }
        template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    };

    inline uint64_t fnv(std::string_view s, uint64_t h = 1469598103934665603ULL)
    {
        for (unsigned char c : s) { h ^= c; h *= 1099511628211ULL; }
        return h;
    }

    // ---------------------------------------------------------------- allocation ledger
    // Live-block accounting, independent of LeakSanitizer: every malloc/free of this thread while a case runs.
    inline thread_local int g_ledger_off = 1;
    inline thread_local int64_t g_live = 0;
    inline thread_local int64_t g_live_bytes = 0;
    inline std::atomic<uint64_t> g_allocs{0};
    struct LedgerPause { LedgerPause() { ++g_ledger_off; } ~LedgerPause() { --g_ledger_off; } };
#ifdef VT_ASAN
    inline void malloc_hook(const volatile void*, size_t sz)
    {
        if (g_ledger_off) return;
        ++g_live; g_live_bytes += int64_t(sz); g_allocs.fetch_add(1, std::memory_order_relaxed);
    }
    inline void free_hook(const volatile void* p)
    {
        if (g_ledger_off || p == nullptr) return;
        --g_live;
    }
#endif

    struct Shared { volatile uint64_t cur; volatile uint64_t done; char label[240]; };

    struct Ctx
    {
        uint64_t seed = 1, ncases = 1, shard = 0, nshards = 1, start = 0, only = ~0ull;
        std::string tier = "quick", mode, hashes;
        Shared* sh = nullptr;
        Shared local{};
        uint64_t evaluated = 0, violations = 0, current = 0;
        std::map<std::string, uint64_t> cover;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::map<std::string, int> printed;
        bool replay = false;
        std::string label = "-";
    };
    inline Ctx& ctx() { static Ctx* c = new Ctx; return *c; }

    inline void label(std::string_view l)
    {
        LedgerPause p;
        Ctx& c = ctx();
        c.label.assign(l);
        size_t n = std::min(l.size(), sizeof(Shared::label) - 1);
        memcpy(c.sh->label, l.data(), n);
        c.sh->label[n] = 0;
    }
    inline void cover(const std::string& k, uint64_t n = 1) { LedgerPause p; ctx().cover[k] += n; }
    inline void distinct(uint64_t h) { LedgerPause p; ctx().distinct.insert(h); }
    inline void sample(const std::string& s)
    {
        LedgerPause p;
        Ctx& c = ctx();
        if (c.samples.size() < 3) c.samples.push_back(s.substr(0, 400));
    }
    inline std::string fmt(const char* f, ...)
    {
        va_list ap; va_start(ap, f);
        char buf[4096];
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        return buf;
    }
    inline std::string clean(std::string s)
    {
        for (char& ch : s) if ((unsigned char)ch < 32 || (unsigned char)ch > 126) ch = '.';
        return s;
    }
    inline void violation(const std::string& what, const std::string& detail = "")
    {
        LedgerPause p;
        Ctx& c = ctx();
        ++c.violations;
        std::string key = c.label + "|" + what;
        if (c.printed[key]++ < 3 || c.replay)
        {
            printf("V\t%s\t%llu\t%s\n", clean(key).c_str(), (unsigned long long) c.current, clean(detail).substr(0, 1500).c_str());
            fflush(stdout);
        }
    }
    inline bool check(bool ok, const std::string& what, const std::string& detail = "")
    {
        if (!ok) violation(what, detail);
        return ok;
    }
    inline std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char ch : s)
        {
            if (ch == '"' || ch == '\\') { o += '\\'; o += char(ch); }
            else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
            else o += char(ch);
        }
        return o;
    }
    inline void flush_cover()
    {
        LedgerPause p;
        Ctx& c = ctx();
        std::string o = "{\"evaluated\":" + std::to_string(c.evaluated) + ",\"allocs\":" + std::to_string(g_allocs.load()) + ",\"counters\":{";
        bool first = true;
        for (auto& [k, v] : c.cover) { if (!first) o += ","; first = false; o += "\"" + jesc(k) + "\":" + std::to_string(v); }
        o += "},\"samples\":[";
        first = true;
        for (auto& s : c.samples) { if (!first) o += ","; first = false; o += "\"" + jesc(s) + "\""; }
        o += "]}";
        printf("COVER\t%s\n", o.c_str());
        fflush(stdout);
        if (!c.hashes.empty())
        {
            if (FILE* f = fopen(c.hashes.c_str(), "ab"))
            {
                for (uint64_t h : c.distinct) fwrite(&h, 8, 1, f);
                fclose(f);
            }
            c.distinct.clear();
        }
    }
    inline void on_death() { static bool once = false; if (!once) { once = true; ++g_ledger_off; flush_cover(); } }

    struct Case
    {
        uint64_t index;
        Rng rng;
        bool thorough;
        const std::string& mode;
    };

    struct Options { bool ledger = true; };

    inline void fail_exception(const char* type, const char* what)
    {
        violation(std::string("unexpected-exception:") + type, what);
    }
    inline bool g_leak_retry = false;

    inline void run_guarded(const std::function<void(Case&)>& fn, uint64_t i)
    {
        Ctx& c = ctx();
        ++g_ledger_off;
        Case cs{i, Rng(mix(c.seed * 0x100000001b3ULL + 77) ^ mix(i + 0x1234567)), c.tier == "thorough", c.mode};
        --g_ledger_off;
        try { fn(cs); }
        catch (const std::exception& e) { LedgerPause p; fail_exception(typeid(e).name(), e.what()); }
        catch (...) { LedgerPause p; fail_exception("unknown", ""); }
    }

    inline int run(int argc, char** argv, const std::function<void(Case&)>& fn, Options opt = {})
    {
        Ctx& c = ctx();
        c.sh = &c.local;
        std::string progress;
        for (int i = 1; i + 1 < argc; i += 2)
        {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--seed") c.seed = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--cases") c.ncases = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--shard") c.shard = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--nshards") c.nshards = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--start") c.start = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--only") { c.only = strtoull(v.c_str(), nullptr, 10); c.replay = true; }
            else if (k == "--tier") c.tier = v;
            else if (k == "--mode") c.mode = v;
            else if (k == "--progress") progress = v;
            else if (k == "--hashes") c.hashes = v;
            else { fprintf(stderr, "bad option %s\n", k.c_str()); return 2; }
        }
        if (!progress.empty())
        {
            int fd = open(progress.c_str(), O_RDWR | O_CREAT, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Shared)) != 0) { perror("progress"); return 2; }
            void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p == MAP_FAILED) { perror("mmap"); return 2; }
            c.sh = static_cast<Shared*>(p);
            close(fd);
        }
        c.sh->done = 0;
#ifdef VT_ASAN
        if (opt.ledger) __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook);
        __sanitizer_set_death_callback(on_death);
#endif
        for (uint64_t i = 0; i < c.ncases; ++i)
        {
            if (c.only != ~0ull) { if (i != c.only) continue; }
            else if (i % c.nshards != c.shard || i < c.start) continue;
            c.sh->cur = i;
            c.current = i;
            label("-");
            const int64_t before = g_live;
            const uint64_t viol_before = c.violations;
            --g_ledger_off;
            run_guarded(fn, i);
            ++g_ledger_off;
            if (opt.ledger && g_live != before && c.violations == viol_before)
            {
                // lazily created statics allocate once: only a leak that recurs is a leak
                std::map<std::string, uint64_t> keep = c.cover;
                bool leak = true;
                for (int k = 0; k < 2 && leak; ++k)
                {
                    const int64_t b2 = g_live;
                    --g_ledger_off;
                    run_guarded(fn, i);
                    ++g_ledger_off;
                    if (g_live == b2) leak = false;
                    else if (k == 1)
                        violation("leak", fmt("%lld blocks allocated in this case were never freed", (long long) (g_live - b2)));
                }
                c.cover = keep;
            }
            ++c.evaluated;
        }
        flush_cover();
        c.sh->done = 1;
        return 0;
    }
}

extern "C" [[noreturn]] inline void vt_contract_failed_impl(const char* expr, const char* file, int line, const char* func)
{
    ++vt::g_ledger_off;
    const char* base = strrchr(file, '/');
    fprintf(stderr, "CONTRACT-FAILURE: %s at %s:%d in %s\n", expr, base ? base + 1 : file, line, func);
#ifdef VT_ASAN
    __sanitizer_print_stack_trace();
#endif
    vt::on_death();
    fflush(stdout);
    _exit(98);
}
#define VT_MAIN_DEFS \
    extern "C" [[noreturn]] void vt_contract_failed(const char* e, const char* f, int l, const char* fn) { vt_contract_failed_impl(e, f, l, fn); }
