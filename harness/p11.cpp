// P11: buffer behaves like std::vector under any operation history (reference execution on std::vector, object lifetime
// registry, allocation registry).
#include "track.hpp"
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/buffer/buffer_view.hpp"
#include <vector>
#include <list>
namespace sp = sparrow;
using vt::Rng;
using tk::Obj;

template <class T> T mk(Rng& r);
template <> inline int mk<int>(Rng& r) { return int(r.below(1000)); }
template <> inline uint8_t mk<uint8_t>(Rng& r) { return uint8_t(r.below(256)); }
template <> inline double mk<double>(Rng& r) { return double(r.below(1000)) / 4; }
template <> inline std::string mk<std::string>(Rng& r) { return std::string(r.pick({0, 3, 20, 40}), char('a' + r.below(26))); }
template <> inline Obj mk<Obj>(Rng& r) { return Obj(int(r.below(1000))); }

enum class AK { DEF, STDA, PMR, CUSTOM };
template <class T> struct World
{
    Rng& r;
    tk::Arena ar[2];
    tk::Resource res[2] = {tk::Resource(ar[0]), tk::Resource(ar[1])};
    explicit World(Rng& r) : r(r) {}
    // f(allocator...) with a randomly chosen allocator
    template <class F> auto with_alloc(F&& f)
    {
        switch (r.below(6))
        {
            case 0: return f(std::allocator<T>());
            case 1: return f(std::pmr::polymorphic_allocator<T>(&res[r.below(2)]));
            case 2: case 3: return f(tk::Alloc<T>(ar[r.below(2)]));
            default: return f();
        }
    }
};

template <class T> void same(const sp::buffer<T>& b, const std::vector<T>& m, const char* op)
{
    const std::string k = op;
    if (!vt::check(b.size() == m.size(), "size after " + k, vt::fmt("%zu want %zu", b.size(), m.size()))) return;
    vt::check(b.empty() == m.empty(), "empty after " + k);
    vt::check(b.capacity() >= b.size(), "capacity after " + k);
    vt::check(size_t(b.end() - b.begin()) == m.size(), "end-begin after " + k);
    for (size_t i = 0; i < m.size(); ++i)
        if (!(b[i] == m[i])) { vt::violation("contents after " + k, vt::fmt("index %zu of %zu", i, m.size())); return; }
    if (!m.empty())
    {
        vt::check(b.front() == m.front() && b.back() == m.back(), "front/back after " + k);
        vt::check(b.data() == &b[0], "data after " + k);
    }
    vt::cover("checks");
}
template <class T> void walk(sp::buffer<T>& b, const std::vector<T>& m)
{
    size_t i = 0;
    for (auto& x : b) { vt::check(x == m[i], "iteration"); ++i; }
    vt::check(i == m.size(), "iteration length");
    for (auto it = b.rbegin(); it != b.rend(); ++it) { --i; vt::check(*it == m[i], "reverse iteration"); }
    vt::check(i == 0, "reverse iteration length");
    for (auto it = b.crbegin(); it != b.crend(); ++it) ++i;
    vt::check(i == m.size(), "const reverse iteration length");
    sp::buffer_view<const T> v(std::as_const(b));
    vt::check(v.size() == m.size(), "view size");
    for (i = 0; i < m.size(); ++i) vt::check(v[i] == m[i], "view contents");
    if constexpr (requires { static_cast<sp::buffer<T>>(v); })
    {
        const auto c = static_cast<sp::buffer<T>>(v);
        vt::check(c.size() == m.size() && std::equal(m.begin(), m.end(), c.begin()), "buffer copied from a view");
        const sp::buffer_view<const T> cv(c);
        vt::check(cv == v && v == cv, "views of equal contents differ");
        if (!m.empty()) vt::check(!(sp::buffer_view<const T>(v.data(), v.size() - 1) == v), "a shorter view is equal");
        vt::cover("buffers copied from a view");
    }
}

template <class T> void scenario(vt::Case& cs, const char* tn)
{
    Rng& r = cs.rng;
    World<T> w(r);
    std::string hist = tn;
    {
        std::vector<sp::buffer<T>> bs;
        std::vector<std::vector<T>> ms;
        bs.reserve(4);
        auto values = [&](size_t n) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(mk<T>(r)); return v; };
        auto nsz = [&] { return size_t(r.pick({0, 0, 1, 2, 3, 4, 7, 8, 16, 33})); };
        auto construct = [&]
        {
            std::vector<T> m = values(nsz());
            hist += "C";
            switch (r.below(8))
            {
                case 0: m.clear(); bs.push_back(w.with_alloc([&](auto... a) { if constexpr (sizeof...(a) == 0) return sp::buffer<T>(); else return sp::buffer<T>(a...); })); break;
                case 1: { size_t n = m.size(); m.assign(n, T()); bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(n, a...); })); break; }
                case 2: { T v = mk<T>(r); size_t n = m.size(); m.assign(n, v); bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(n, v, a...); })); break; }
                case 3: bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(m.begin(), m.end(), a...); })); break;
                case 4: bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(m, a...); })); break;
                case 5: { T a1 = mk<T>(r), b1 = mk<T>(r); m = {a1, b1, a1}; bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>({a1, b1, a1}, a...); })); break; }
                case 6:
                {
                    // adopt storage
                    size_t n = m.size();
                    bs.push_back(w.with_alloc([&](auto... a)
                    {
                        auto fill = [&](auto al) { T* p = al.allocate(n); for (size_t i = 0; i < n; ++i) ::new (p + i) T(m[i]);
                            sp::buffer<T> b(p, n, a...); vt::check(b.data() == p, "adopted storage copied"); return b; };
                        if constexpr (sizeof...(a) == 0) return fill(std::allocator<T>()); else return fill(a...);
                    }));
                    break;
                }
                default: { std::list<T> l(m.begin(), m.end()); bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(l.begin(), l.end(), a...); })); break; }
            }
            ms.push_back(std::move(m));
            same(bs.back(), ms.back(), "construction");
        };
        construct();
        const size_t steps = 4 + r.below(30);
        for (size_t s = 0; s < steps; ++s)
        {
            const size_t k = r.below(bs.size());
            auto& b = bs[k];
            auto& m = ms[k];
            const unsigned op = unsigned(r.below(25));
            hist += char('a' + op);
            hist += char('0' + m.size() % 10);
            const size_t pos = r.below(m.size() + 1);
            auto at = [&](auto it) { vt::check(it - b.begin() == std::ptrdiff_t(pos), "returned position", vt::fmt("op %u", op)); };
            const char* name = "?";
            switch (op)
            {
                case 0: name = "push_back"; { T v = mk<T>(r); b.push_back(v); m.push_back(v); } break;
                case 1: name = "push_back(move)"; { T v = mk<T>(r); m.push_back(v); b.push_back(std::move(v)); } break;
                case 2: name = "push_back(own element)"; if (!m.empty()) { size_t q = r.below(m.size()); b.push_back(b[q]); m.push_back(T(m[q])); } break;
                case 3: name = "pop_back"; if (!m.empty()) { b.pop_back(); m.pop_back(); } break;
                case 4: name = "insert"; { T v = mk<T>(r); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), v)); m.insert(m.begin() + std::ptrdiff_t(pos), v); } break;
                case 5: name = "insert(move)"; { T v = mk<T>(r); m.insert(m.begin() + std::ptrdiff_t(pos), v); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), std::move(v))); } break;
                case 6: name = "insert(own element)"; if (!m.empty()) { size_t q = r.below(m.size()); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), std::as_const(b)[q])); T c = m[q]; m.insert(m.begin() + std::ptrdiff_t(pos), c); } break;
                case 7: name = "insert(n)"; { T v = mk<T>(r); size_t n = nsz(); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), n, v)); m.insert(m.begin() + std::ptrdiff_t(pos), n, v); } break;
                case 8: name = "insert(n, own element)"; if (!m.empty()) { size_t q = r.below(m.size()), n = r.below(5); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), n, std::as_const(b)[q])); T c = m[q]; m.insert(m.begin() + std::ptrdiff_t(pos), n, c); } break;
                case 9: name = "insert(range)"; { auto v = values(nsz()); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), v.begin(), v.end())); m.insert(m.begin() + std::ptrdiff_t(pos), v.begin(), v.end()); } break;
                case 10: name = "insert(move range)"; { auto v = values(nsz()); auto v2 = v; at(b.insert(b.cbegin() + std::ptrdiff_t(pos), std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()))); m.insert(m.begin() + std::ptrdiff_t(pos), v2.begin(), v2.end()); } break;
                case 11: name = "insert(list range)"; { auto v = values(nsz()); std::list<T> l(v.begin(), v.end()); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), l)); m.insert(m.begin() + std::ptrdiff_t(pos), v.begin(), v.end()); } break;
                case 12: name = "insert(ilist)"; { T x = mk<T>(r), y = mk<T>(r); at(b.insert(b.cbegin() + std::ptrdiff_t(pos), {x, y, x})); m.insert(m.begin() + std::ptrdiff_t(pos), {x, y, x}); } break;
                case 13: name = "emplace"; { T v = mk<T>(r); at(b.emplace(b.cbegin() + std::ptrdiff_t(pos), v)); m.insert(m.begin() + std::ptrdiff_t(pos), v); } break;
                case 14: name = "erase"; if (pos < m.size()) { at(b.erase(b.cbegin() + std::ptrdiff_t(pos))); m.erase(m.begin() + std::ptrdiff_t(pos)); } break;
                case 15: name = "erase(range)"; { size_t e = pos + r.below(m.size() - pos + 1); at(b.erase(b.cbegin() + std::ptrdiff_t(pos), b.cbegin() + std::ptrdiff_t(e))); m.erase(m.begin() + std::ptrdiff_t(pos), m.begin() + std::ptrdiff_t(e)); if (e == pos) name = "erase(empty range)"; } break;
                case 16: name = "resize"; { size_t n = nsz(); b.resize(n); m.resize(n); } break;
                case 17: name = "resize(value)"; { size_t n = nsz(); T v = mk<T>(r); b.resize(n, v); m.resize(n, v); } break;
                case 18: name = "resize(own element)"; if (!m.empty()) { size_t q = r.below(m.size()), n = m.size() + nsz(); T c = m[q]; b.resize(n, b[q]); m.resize(n, c); } break;
                case 19: name = "reserve/shrink";
                    if (r.chance(1, 2)) { size_t n = nsz() * 2; b.reserve(n); vt::check(b.capacity() >= n, "capacity after reserve"); const T* d = b.data(); while (b.size() < n) { T v = mk<T>(r); b.push_back(v); m.push_back(v); } if (n) vt::check(d == b.data(), "reserved storage was reallocated"); }
                    else { b.shrink_to_fit(); vt::check(b.capacity() == b.size(), "capacity after shrink_to_fit"); }
                    break;
                case 20: name = "clear"; b.clear(); m.clear(); break;
                case 21:
                {
                    name = "copy/move construction";
                    hist += "*";
                    if (bs.size() < 4)
                    {
                        switch (r.below(4))
                        {
                            case 0: bs.emplace_back(b); ms.push_back(m); break;
                            case 1: { sp::buffer<T> t(std::move(b)); same(t, m, "move construction"); b = std::move(t); break; }
                            case 2: bs.push_back(w.with_alloc([&](auto... a) { return sp::buffer<T>(std::as_const(b), a...); })); ms.push_back(m); break;
                            default:
                            {
                                sp::buffer<T> t = w.with_alloc([&](auto... a) { return sp::buffer<T>(std::move(b), a...); });
                                same(t, m, "allocator-extended move construction");
                                b.clear();
                                b = t;
                            }
                        }
                    }
                    break;
                }
                case 22:
                {
                    name = "assignment";
                    const size_t o = r.below(bs.size());
                    switch (r.below(4))
                    {
                        case 0: b = std::as_const(bs[o]); ms[k] = std::vector<T>(ms[o]); break;
                        case 1: { sp::buffer<T> t(bs[o]); ms[k] = std::vector<T>(ms[o]); bs[k] = std::move(t); break; }
                        case 2: { T x = mk<T>(r), y = mk<T>(r); b = {x, y}; m = {x, y}; break; }
                        default: { auto t = w.with_alloc([&](auto... a) { return sp::buffer<T>(ms[o], a...); }); b = std::move(t); ms[k] = std::vector<T>(ms[o]); }
                    }
                    break;
                }
                case 23: name = "insert(single pass)"; { auto v = values(nsz()); size_t q = 0; at(b.insert(b.cbegin() + std::ptrdiff_t(pos), tk::SinglePass<T>{&v, &q}, tk::SinglePass<T>{})); m.insert(m.begin() + std::ptrdiff_t(pos), v.begin(), v.end()); } break;
                default:
                {
                    name = "swap";
                    sp::buffer<T> t(b);   // equal allocator: swap is only defined between those
                    t.clear();
                    std::vector<T> tm;
                    T v = mk<T>(r);
                    t.push_back(v); tm.push_back(v);
                    b.swap(t);
                    std::swap(m, tm);
                    same(t, tm, "swap (other)");
                }
            }
            same(bs[k], ms[k], name);
            for (size_t j = 0; j < bs.size(); ++j) if (j != k) same(bs[j], ms[j], "operation on another buffer");
            for (size_t j = 0; j < bs.size(); ++j) vt::check((bs[j] == bs[k]) == (ms[j] == ms[k]), "equality");
            vt::cover(name);
        }
        for (size_t j = 0; j < bs.size(); ++j) walk(bs[j], ms[j]);
        { auto bad = [&] { try { bs[0].reserve(bs[0].max_size() + 1); } catch (const std::length_error&) { return true; } return false; }; vt::check(bad(), "reserve beyond max_size"); same(bs[0], ms[0], "refused reserve"); }
    }
    for (auto& a : w.ar) { vt::check(a.live.empty(), "allocations never returned", vt::fmt("%zu", a.live.size())); a.live.clear(); vt::cover("tracked allocations", a.allocs); }
    vt::check(tk::reg().live.empty(), "objects never destroyed", vt::fmt("%zu", tk::reg().live.size()));
    tk::reg().live.clear();
    vt::distinct(vt::fnv(hist));
    vt::sample(hist);
    vt::cover("lifetime events", tk::reg().events); tk::reg().events = 0;
}

// one translation unit per element type
void run_int(vt::Case&); void run_u8(vt::Case&); void run_double(vt::Case&); void run_string(vt::Case&); void run_obj(vt::Case&);
#if VT_PART == 1
void run_int(vt::Case& c) { scenario<int>(c, "int"); }
#elif VT_PART == 2
void run_u8(vt::Case& c) { scenario<uint8_t>(c, "u8"); }
#elif VT_PART == 3
void run_double(vt::Case& c) { scenario<double>(c, "double"); }
#elif VT_PART == 4
void run_string(vt::Case& c) { scenario<std::string>(c, "string"); }
#elif VT_PART == 5
void run_obj(vt::Case& c) { scenario<Obj>(c, "obj"); }
#else
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        switch (cs.rng.below(7))
        {
            case 0: vt::label("int"); return run_int(cs);
            case 1: vt::label("uint8"); return run_u8(cs);
            case 2: vt::label("double"); return run_double(cs);
            case 3: case 4: vt::label("string"); return run_string(cs);
            default: vt::label("object"); return run_obj(cs);
        }
    });
}
#endif
