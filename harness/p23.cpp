// P23: value-semantic pointers and small utilities keep their contracts (lifetime registry, plain-definition oracles).
#include "track.hpp"
#include "sparrow/utils/memory.hpp"
#include "sparrow/utils/repeat_container.hpp"
#include "sparrow/utils/offsets.hpp"
#include "sparrow/utils/buffers.hpp"
#include "sparrow/utils/bit.hpp"
#include "sparrow/utils/algorithm.hpp"
#include "sparrow/utils/functor_index_iterator.hpp"
#include "sparrow/utils/iterator.hpp"
#include "sparrow/utils/ranges.hpp"
#include "sparrow/utils/reference_wrapper_utils.hpp"
#include <bit>
#include <forward_list>
#include <list>
#include <string>
#include <vector>
namespace sp = sparrow;
using vt::Rng;
using tk::Obj;

// ------------------------------------------------------------------ cloning pointers
struct Base
{
    Obj o;
    explicit Base(int v) : o(v) {}
    Base(const Base&) = default;
    virtual ~Base() = default;
    virtual int kind() const = 0;
    virtual std::unique_ptr<Base> clone() const = 0;
};
template <int K> struct Der : Base
{
    Obj extra;
    explicit Der(int v) : Base(v), extra(v * 10 + K) {}
    int kind() const override { return K; }
    std::unique_ptr<Base> clone() const override { return std::make_unique<Der>(*this); }
};
struct Leaf : Base   // covariant user: clone returns the most derived type through a derived unique_ptr
{
    explicit Leaf(int v) : Base(v) {}
    int kind() const override { return 9; }
    std::unique_ptr<Base> clone() const override { return std::make_unique<Leaf>(*this); }
};
struct Solo
{
    Obj o;
    explicit Solo(int v) : o(v) {}
    Solo(const Solo&) = default;
    std::unique_ptr<Solo> clone() const { return std::make_unique<Solo>(*this); }
};

inline void cloning(Rng& r, std::string& hist)
{
    using P = sp::cloning_ptr<Base>;
    struct M { int kind = 0, v = 0; };   // kind 0: null
    {
        std::vector<P> ps(4);
        std::vector<M> ms(4);
        auto make = [&](M& m) -> P
        {
            m.v = int(r.below(100));
            switch (r.below(4))
            {
                case 0: m.kind = 1; return P(new Der<1>(m.v));
                case 1: { m.kind = 2; sp::cloning_ptr<Base> p(new Der<2>(m.v)); return p; }
                case 2: m.kind = 9; return P(new Leaf(m.v));
                default: m.kind = 0; return r.chance(1, 2) ? P() : P(nullptr);
            }
        };
        auto check = [&](const char* op)
        {
            const std::string k = op;
            for (size_t i = 0; i < ps.size(); ++i)
            {
                const P& p = ps[i];
                vt::check(bool(p) == (ms[i].kind != 0) && (p == nullptr) == (ms[i].kind == 0) && (p != nullptr) == (ms[i].kind != 0), "null state after " + k);
                vt::check((p.get() == nullptr) == (ms[i].kind == 0), "get() after " + k);
                if (p && ms[i].kind)
                {
                    vt::check(p->kind() == ms[i].kind && (*p).o.v == ms[i].v && p.get()->o == Obj(ms[i].v), "pointee after " + k, vt::fmt("kind %d want %d", p->kind(), ms[i].kind));
                    if (ms[i].kind == 1) vt::check(static_cast<Der<1>*>(p.get())->extra.v == ms[i].v * 10 + 1, "derived part after " + k);
                    if (ms[i].kind == 2) vt::check(static_cast<Der<2>*>(p.get())->extra.v == ms[i].v * 10 + 2, "derived part after " + k);
                }
                for (size_t j = 0; j < ps.size(); ++j)
                {
                    vt::check((ps[i] == ps[j]) == (ps[i].get() == ps[j].get()) && (i == j || ms[i].kind == 0 || !(ps[i] == ps[j])), "identity after " + k);
                    vt::check((ps[i] <=> ps[j]) == (ps[i].get() <=> ps[j].get()) && (ps[i] < ps[j]) == std::less<Base*>()(ps[i].get(), ps[j].get()), "order after " + k);
                }
                vt::check((p <=> nullptr) == (p.get() <=> static_cast<Base*>(nullptr)), "order with nullptr after " + k);
            }
            vt::cover("cloning pointer states");
        };
        for (size_t s = 0, steps = 4 + r.below(24); s < steps; ++s)
        {
            const size_t i = r.below(4), j = r.below(4);
            const unsigned o = unsigned(r.below(13));
            const char* op = "?";
            hist += char('a' + o);
            Base* before_j = ps[j].get();
            switch (o)
            {
                case 0: op = "assignment of a new object"; { M m; ps[i] = make(m); ms[i] = m; } break;
                case 1: op = "copy assignment"; ps[i] = std::as_const(ps[j]); ms[i] = M(ms[j]); break;
                case 2: op = "move assignment"; if (i != j) { ps[i] = std::move(ps[j]); vt::check(ps[i].get() == before_j, "move assignment does not transfer"); ms[i] = ms[j]; ms[j] = M(); } break;
                case 3: op = "copy construction"; { P t(ps[j]); vt::check(!t || t.get() != ps[j].get(), "copy shares the pointee"); ps[i] = std::move(t); ms[i] = M(ms[j]); } break;
                case 4: op = "move construction"; { P t(std::move(ps[j])); vt::check(t.get() == before_j, "move construction does not transfer"); M m = ms[j]; ms[j] = M(); ps[i] = std::move(t); ms[i] = m; } break;
                case 5: op = "assignment of nullptr"; ps[i] = nullptr; ms[i] = M(); break;
                case 6: op = "reset"; ps[i].reset(); ms[i] = M(); break;
                case 7: op = "reset(p)"; { Base* p = new Der<1>(5); ps[i].reset(p); vt::check(ps[i].get() == p, "reset(p) pointer"); ms[i] = M{1, 5}; } break;
                case 8: op = "release"; { Base* p = ps[i].release(); vt::check(!ps[i], "release leaves the pointer"); delete p; ms[i] = M(); } break;
                case 9: op = "swap"; if (r.chance(1, 2)) ps[i].swap(ps[j]); else { using std::swap; swap(ps[i], ps[j]); } vt::check(i == j || ps[i].get() == before_j, "swap pointers"); std::swap(ms[i], ms[j]); break;
                case 10: op = "write through the pointer"; if (ms[i].kind) { int v = int(r.below(100)); ps[i]->o = Obj(v); ms[i].v = v; if (ms[i].kind == 1) static_cast<Der<1>*>(ps[i].get())->extra = Obj(v * 10 + 1); if (ms[i].kind == 2) static_cast<Der<2>&>(*ps[i]).extra = Obj(v * 10 + 2); } break;
                case 11: op = "self assignment"; ps[i] = static_cast<const P&>(ps[i]); break;
                default: op = "converting move";
                {
                    // from a pointer to a derived class
                    int v = int(r.below(100));
                    auto d = sp::make_cloning_ptr<Der<2>>(v);
                    Base* raw = d.get();
                    vt::check(d == d && d != ps[i] && d->extra.v == v * 10 + 2, "make_cloning_ptr");
                    if (r.chance(1, 3)) { P c(std::move(d)); vt::check(c.get() == raw && !d, "converting move construction does not transfer"); ps[i] = std::move(c); }
                    else if (r.chance(1, 2)) { ps[i] = std::move(d); vt::check(ps[i].get() == raw && !d, "converting move assignment does not transfer"); }
                    else { P c(d); ps[i] = d; vt::check(c.get() != raw && ps[i].get() != raw && c->o.v == v && d->o.v == v, "converting copy shares"); }
                    ms[i] = M{2, v};
                }
            }
            check(op);
            vt::cover(op);
        }
        sp::cloning_ptr<Solo> a(new Solo(4)), b(a);
        b->o = Obj(5);
        vt::check(a->o.v == 4 && b->o.v == 5, "copies are independent");
    }
}

// ------------------------------------------------------------------ value pointers
inline void values(Rng& r, std::string& hist)
{
    using P = sp::value_ptr<Obj>;
    std::vector<P> ps(3);
    std::vector<std::optional<int>> ms(3);
    for (size_t s = 0, steps = 4 + r.below(24); s < steps; ++s)
    {
        const size_t i = r.below(3), j = r.below(3);
        const unsigned o = unsigned(r.below(9));
        const char* op = "?";
        hist += char('A' + o);
        const int v = int(r.below(100));
        switch (o)
        {
            case 0: op = "value_ptr from a value"; ps[i] = P(Obj(v)); ms[i] = v; break;
            case 1: op = "value_ptr from a pointer"; { Obj x(v); ps[i] = P(&x); vt::check(ps[i].get() != &x, "value_ptr adopted a pointer it must copy"); ms[i] = v; } break;
            case 2: op = "value_ptr from a null pointer"; ps[i] = P(static_cast<Obj*>(nullptr)); ms[i].reset(); break;
            case 3: op = "value_ptr copy assignment"; ps[i] = std::as_const(ps[j]); ms[i] = std::optional<int>(ms[j]); break;
            case 4: op = "value_ptr move assignment"; if (i != j) { Obj* q = ps[j].get(); ps[i] = std::move(ps[j]); vt::check(ps[i].get() == q && !ps[j].has_value(), "value_ptr move does not transfer"); ms[i] = ms[j]; ms[j].reset(); } break;
            case 5: op = "value_ptr copy construction"; { P t(ps[j]); vt::check(!t || t.get() != ps[j].get(), "value_ptr copy shares"); vt::check(t.has_value() == ms[j].has_value() && (!t || t->v == *ms[j]), "value_ptr copy"); if (t) { *t = Obj(v); } } break;
            case 6: op = "value_ptr nullptr"; if (r.chance(1, 2)) ps[i] = nullptr; else ps[i].reset(); ms[i].reset(); break;
            case 7: op = "value_ptr write"; if (ms[i]) { *ps[i] = Obj(v); ms[i] = v; } break;
            default: op = "value_ptr self assignment"; ps[i] = static_cast<const P&>(ps[i]);
        }
        for (size_t k = 0; k < 3; ++k)
        {
            const P& p = ps[k];
            vt::check(p.has_value() == ms[k].has_value() && bool(p) == ms[k].has_value() && (p.get() != nullptr) == ms[k].has_value(), std::string("null state after ") + op);
            if (p && ms[k]) vt::check(p->v == *ms[k] && (*p) == Obj(*ms[k]) && ps[k]->v == *ms[k], std::string("pointee after ") + op);
        }
        vt::cover(op);
    }
}

// ------------------------------------------------------------------ iterator laws against an index oracle
template <class It, class F> void iterator_laws(It b, It e, size_t n, F&& want, Rng& r, const std::string& k)
{
    vt::check(size_t(e - b) == n && b + std::ptrdiff_t(n) == e && e - std::ptrdiff_t(n) == b && std::ptrdiff_t(n) + b == e, k + ": begin plus size is end");
    std::vector<std::pair<size_t, It>> its;
    for (int q = 0; q < 4; ++q) { size_t i = r.below(n + 1); its.push_back({i, b + std::ptrdiff_t(i)}); }
    its.push_back({0, b}); its.push_back({n, e});
    for (auto& [i, a] : its)
        for (auto& [j, c] : its)
        {
            vt::check(c - a == std::ptrdiff_t(j) - std::ptrdiff_t(i), k + ": distance");
            vt::check((a == c) == (i == j) && (a != c) == (i != j) && (a < c) == (i < j) && (a > c) == (i > j) && (a <= c) == (i <= j) && (a >= c) == (i >= j) && (a <=> c) == (i <=> j), k + ": comparison");
            It m = a; m += std::ptrdiff_t(j) - std::ptrdiff_t(i); vt::check(m == c, k + ": advance and distance are inverse");
            m -= std::ptrdiff_t(j) - std::ptrdiff_t(i); vt::check(m == a, k + ": going back");
            if (j < n) vt::check(a[std::ptrdiff_t(j) - std::ptrdiff_t(i)] == want(j), k + ": subscript");
        }
    for (auto& [i, a] : its)
    {
        if (i < n)
        {
            vt::check(*a == want(i), k + ": dereference");
            It p = a; It q = p++; vt::check(q == a && p == a + 1, k + ": post-increment");
            It s = a; It& t = ++s; vt::check(&t == &s && s == p, k + ": pre-increment");
            It u = s--; vt::check(u == p && s == a, k + ": post-decrement");
            It w = p; --w; vt::check(w == a, k + ": pre-decrement");
        }
    }
    size_t i = 0;
    for (It it = b; it != e; ++it, ++i) vt::check(*it == want(i), k + ": iteration");
    vt::check(i == n, k + ": iteration length");
    vt::cover("iterator laws");
}

template <class T> T val(Rng& r) { if constexpr (std::is_same_v<T, std::string>) return std::string(r.below(20), 'x'); else return T(r.next()); }
template <class T> void repeats(Rng& r, std::string& hist)
{
    const T v = val<T>(r);
    const size_t n = r.pick({0, 1, 2, 5, 17});
    sp::repeat_view<T> rv(v, n);
    vt::check(rv.size() == n && rv.empty() == (n == 0), "repeat_view size");
    iterator_laws(rv.begin(), rv.end(), n, [&](size_t) { return v; }, r, "repeat_view");
    sp::repeat_view<T> c(rv);
    rv = sp::repeat_view<T>(val<T>(r), 3);
    iterator_laws(c.cbegin(), c.cend(), n, [&](size_t) { return v; }, r, "copied repeat_view");
    if (n) vt::check(c.front() == v && c.back() == v && c[n - 1] == v, "repeat_view access");
    hist += vt::fmt("r%zu", n);
}

inline void helpers(Rng& r, std::string& hist)
{
    // offsets and flattened bytes
    std::vector<std::string> strs(r.below(9));
    std::string flat;
    for (auto& s : strs) { s.assign(r.pick({0, 0, 1, 3, 30}), char('a' + r.below(26))); flat += s; }
    auto chk_offsets = [&](const auto& b, const char* w)
    {
        vt::check(b.size() == strs.size() + 1, std::string(w) + " size");
        size_t at = 0;
        for (size_t i = 0; i <= strs.size() && i < b.size(); ++i) { vt::check(size_t(b[i]) == at, std::string(w) + " value"); if (i < strs.size()) at += strs[i].size(); }
    };
    chk_offsets(sp::make_offset_buffer<int32_t>(strs), "32-bit offsets");
    chk_offsets(sp::make_offset_buffer<int64_t>(strs), "64-bit offsets");
    vt::check(sp::number_of_bytes(strs) == flat.size(), "number_of_bytes");
    auto same = [&](const sp::buffer<uint8_t>& b, const void* p, size_t n, const char* w) { vt::check(b.size() == n && (n == 0 || std::memcmp(b.data(), p, n) == 0), w); };
    same(sp::strings_to_buffer(strs), flat.data(), flat.size(), "strings_to_buffer");
    same(sp::strings_to_buffer(std::as_const(strs)), flat.data(), flat.size(), "strings_to_buffer(const)");
    { auto c = strs; same(sp::strings_to_buffer(std::move(c)), flat.data(), flat.size(), "strings_to_buffer(rvalue)"); }
    { std::vector<std::string_view> sv(strs.begin(), strs.end()); same(sp::strings_to_buffer(sv), flat.data(), flat.size(), "strings_to_buffer(views)"); }
    { std::vector<std::vector<int32_t>> vv; std::vector<int32_t> f; for (auto& s : strs) { vv.emplace_back(); for (char c : s) { vv.back().push_back(c * 1000); f.push_back(c * 1000); } } same(sp::strings_to_buffer(vv), f.data(), f.size() * 4, "strings_to_buffer(ints)"); vt::check(sp::number_of_bytes(vv) == f.size() * 4, "number_of_bytes(ints)"); }
    { std::vector<double> d(r.below(9)); for (auto& x : d) x = double(r.below(1000)) / 8; same(sp::range_to_buffer(d), d.data(), d.size() * 8, "range_to_buffer"); auto c = d; same(sp::range_to_buffer(std::move(c)), d.data(), d.size() * 8, "range_to_buffer(rvalue)"); std::list<int16_t> l(r.below(5), int16_t(7)); std::vector<int16_t> lv(l.begin(), l.end()); same(sp::range_to_buffer(l), lv.data(), lv.size() * 2, "range_to_buffer(list)"); }
    { std::vector<int> v(r.below(9)); std::forward_list<int> f(v.begin(), v.end()); std::list<int> l(v.begin(), v.end()); vt::check(sp::range_size(v) == v.size() && sp::range_size(f) == v.size() && sp::range_size(l) == v.size() && sp::range_size(v | std::views::filter([](int) { return true; })) == v.size(), "range_size"); }
    vt::cover("buffer helpers");
    // bits
    auto swp = [&](auto x)
    {
        using X = decltype(x);
        std::make_unsigned_t<X> y = 0, z = std::make_unsigned_t<X>(x);
        for (size_t i = 0; i < sizeof(X); ++i) y = std::make_unsigned_t<X>((uint64_t(y) << 8) | uint64_t((uint64_t(z) >> (8 * i)) & 0xff));
        vt::check(sp::byteswap(x) == X(y), "byteswap", vt::fmt("%zu bytes", sizeof(X)));
        vt::check(sp::byteswap(sp::byteswap(x)) == x, "byteswap twice");
        vt::check(sp::to_native_endian<std::endian::native>(x) == x, "to_native_endian(native)");
        constexpr std::endian other = std::endian::native == std::endian::little ? std::endian::big : std::endian::little;
        vt::check(sp::to_native_endian<other>(x) == X(y), "to_native_endian(other)");
    };
    swp(uint8_t(r.next())); swp(int8_t(r.next())); swp(uint16_t(r.next())); swp(int16_t(r.next())); swp(uint32_t(r.next())); swp(int32_t(r.next())); swp(uint64_t(r.next())); swp(int64_t(r.next()));
    vt::cover("bit utilities");
    // iterators
    const size_t n = r.pick({0, 1, 2, 3, 9});
    std::vector<int> v(n);
    for (auto& x : v) x = int(r.below(1000));
    iterator_laws(sp::make_pointer_iterator(v.data()), sp::make_pointer_iterator(v.data() + n), n, [&](size_t i) { return v[i]; }, r, "pointer_iterator");
    iterator_laws(sp::make_pointer_iterator(std::as_const(v).data()), sp::make_pointer_iterator(std::as_const(v).data() + n), n, [&](size_t i) { return v[i]; }, r, "const pointer_iterator");
    auto f = [p = v.data()](size_t i) { return p[i] * 2; };
    struct Fn { const int* p = nullptr; int operator()(size_t i) const { return p[i] * 2; } };
    using FI = sp::functor_index_iterator<Fn>;
    iterator_laws(FI(Fn{v.data()}, 0), FI(Fn{v.data()}, n), n, [&](size_t i) { return f(i); }, r, "functor_index_iterator");
    if (n) { auto it = sp::make_pointer_iterator(v.data()); vt::check(sp::next(it, n - 1) == it + std::ptrdiff_t(n - 1), "next"); struct P { int x; }; std::vector<P> ps(2); ps[1].x = 5; auto pi = sp::make_pointer_iterator(ps.data()); ++pi; vt::check(pi->x == 5, "operator->"); *it = -1; vt::check(v[0] == -1, "write through pointer_iterator"); }
    // lexicographical comparison
    std::vector<int> a(r.below(4)), b(r.below(4));
    for (auto& x : a) x = int(r.below(2));
    for (auto& x : b) x = int(r.below(2));
    vt::check(sp::lexicographical_compare_three_way(a, b) == (a <=> b), "lexicographical_compare_three_way");
    vt::check(sp::lexicographical_compare(a, b) == (a < b), "lexicographical_compare");
    std::vector<std::string> sa{strs}, sb{strs};
    if (!sb.empty() && r.chance(1, 2)) sb[r.below(sb.size())] += "z";
    vt::check(sp::lexicographical_compare_three_way(sa, sb) == (sa <=> sb) && sp::lexicographical_compare(sa, sb) == (sa < sb), "lexicographical_compare of strings");
    // reference wrappers
    int x = int(r.below(3)), y = int(r.below(3));
    vt::check(sp::reference_wrapper_equal{}(std::ref(x), std::ref(y)) == (x == y), "reference_wrapper_equal");
    vt::check(sp::reference_wrapper_hasher{}(std::ref(x)) == std::hash<int>{}(x), "reference_wrapper_hasher");
    vt::check(sp::mpl::is_reference_wrapper(std::ref(x)) && !sp::mpl::is_reference_wrapper(x), "is_reference_wrapper");
    vt::cover("algorithms");
    hist += vt::fmt("h%zu,%zu,%zu", strs.size(), flat.size(), n);
}

VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        std::string hist;
        const unsigned k = unsigned(r.below(8));
        switch (k)
        {
            case 0: case 1: case 2: vt::label("cloning_ptr"); cloning(r, hist); break;
            case 3: case 4: vt::label("value_ptr"); values(r, hist); break;
            case 5: vt::label("repeat_view"); repeats<int>(r, hist); repeats<std::string>(r, hist); repeats<uint8_t>(r, hist); break;
            default: vt::label("helpers"); helpers(r, hist);
        }
        vt::check(tk::reg().live.empty(), "objects never destroyed", vt::fmt("%zu", tk::reg().live.size()));
        tk::reg().live.clear();
        vt::cover("lifetime events", tk::reg().events); tk::reg().events = 0;
        vt::distinct(vt::fnv(hist));
        vt::sample(hist);
    });
}
