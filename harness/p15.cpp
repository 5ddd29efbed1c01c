// P15: nullable behaves like std::optional (presence, value, assignment, swap, ordering), for owned values and for references.
// Reference execution on std::optional plus a shadow of the referred storage.
#include "track.hpp"
#include "sparrow/utils/nullable.hpp"
#include "sparrow/buffer/dynamic_bitset.hpp"
#include <compare>
#include <optional>
#include <deque>
#include <cmath>
namespace sp = sparrow;
using vt::Rng;

template <class T> T mk(Rng& r)
{
    if constexpr (std::is_same_v<T, std::string>) return r.pick({std::string(), std::string("a"), std::string("ab"), std::string("b"), std::string("a rather long string, not stored inline"), std::string("b rather long string, not stored inline")});
    else if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2);
    else if constexpr (std::is_floating_point_v<T>) return r.pick({T(0), T(-0.0), T(1.5), T(-1), T(1e30), std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN()});
    else if constexpr (std::is_unsigned_v<T>) return T(r.pick({0, 1, 2, 200}));
    else return T(r.pick({0, 1, -1, 2, -100, 100}));
}
template <class T> bool eqv(const T& a, const T& b) { if constexpr (std::is_floating_point_v<T>) return (std::isnan(a) && std::isnan(b)) || a == b; else return a == b; }
template <class O> std::string ord(O o) { return o < 0 ? "<" : o > 0 ? ">" : o == 0 ? "=" : "?"; }

template <class T> struct M { std::optional<T> o; };   // model: optional
template <class N, class T> void state(const N& n, const std::optional<T>& m, const char* op)
{
    const std::string k = op;
    vt::check(n.has_value() == m.has_value(), "presence after " + k);
    vt::check(bool(n) == m.has_value(), "conversion to bool after " + k);
    vt::check(bool(n.null_flag()) == m.has_value(), "flag after " + k);
    vt::check((n == sp::nullval) == !m.has_value() && (sp::nullval == n) == !m.has_value() && (n != sp::nullval) == m.has_value(), "comparison with nullval after " + k);
    if (m.has_value())
    {
        vt::check(eqv<T>(T(n.get()), *m), "value after " + k);
        vt::check(eqv<T>(T(n.value()), *m), "value() after " + k);
        N c(n);
        vt::check(eqv<T>(T(std::move(c).value()), *m), "rvalue value() after " + k);
        const N cc(n);
        vt::check(eqv<T>(T(std::move(cc).value()), *m), "const rvalue value() after " + k);
    }
    else
    {
        auto refuses = [&](auto&& f) { try { f(); } catch (const sp::bad_nullable_access& e) { return e.what() != nullptr; } return false; };
        N c(n);
        vt::check(refuses([&] { (void)n.value(); }) && refuses([&] { (void)c.value(); }) && refuses([&] { (void)std::move(c).value(); }) && refuses([&] { (void)std::move(n).value(); }), "value() of a null after " + k);
        vt::check(!n.has_value(), "refused access changed the object after " + k);
        vt::cover("refused accesses");
    }
    vt::cover("states");
}

// a and b: two nullables (any kinds), their models
template <class A, class B, class T, class U> void compare(const A& a, const B& b, const std::optional<T>& x, const std::optional<U>& y)
{
    vt::check((a == b) == (x == y), "nullable == nullable");
    vt::check((a != b) == (x != y), "nullable != nullable");
    vt::check((a < b) == (x < y) && (a > b) == (x > y), "nullable < nullable", vt::fmt("%d %d", x.has_value(), y.has_value()));
    vt::check((a <= b) == (x <= y) && (a >= b) == (x >= y), "nullable <= nullable");
    vt::check(ord(a <=> b) == ord(x <=> y), "nullable <=> nullable", ord(a <=> b) + " want " + ord(x <=> y));
    vt::check((a == b) == (b == a), "symmetry of ==");
    if ((a <=> b) == 0) vt::check(a == b, "order agrees with equality");
    vt::cover("comparisons");
}
template <class A, class T, class U> void compare_plain(const A& a, const U& b, const std::optional<T>& x)
{
    vt::check((a == b) == (x == b) && (b == a) == (x == b) && (a != b) == (x != b), "nullable == plain");
    vt::check((a < b) == (x < b) && (a > b) == (x > b) && (a <= b) == (x <= b) && (a >= b) == (x >= b), "nullable < plain");
    vt::check((b < a) == (b < x) && (b > a) == (b > x) && (b <= a) == (b <= x) && (b >= a) == (b >= x), "plain < nullable");
    vt::check(ord(a <=> b) == ord(x <=> b), "nullable <=> plain", ord(a <=> b) + " want " + ord(x <=> b));
    vt::cover("comparisons with plain values");
}
template <class A, class T> void compare_null(const A& a, const std::optional<T>& x)
{
    vt::check(ord(a <=> sp::nullval) == ord(x <=> std::nullopt), "nullable <=> nullval", ord(a <=> sp::nullval) + " want " + ord(x <=> std::nullopt));
    vt::check((a < sp::nullval) == (x < std::nullopt) && (a > sp::nullval) == (x > std::nullopt) && (a <= sp::nullval) == (x <= std::nullopt) && (a >= sp::nullval) == (x >= std::nullopt), "nullable < nullval");
    vt::check((sp::nullval < a) == (std::nullopt < x) && (sp::nullval <= a) == (std::nullopt <= x) && (sp::nullval > a) == (std::nullopt > x) && (sp::nullval >= a) == (std::nullopt >= x), "nullval < nullable");
    if (!x) vt::check((a <=> sp::nullval) == 0 && a == sp::nullval, "null compares equal to nullval");
    vt::cover("comparisons with nullval");
}

// ------------------------------------------------------------------ owned nullables
template <class T> void owned(Rng& r, std::string& hist)
{
    using N = sp::nullable<T>;
    std::deque<N> ns; std::vector<std::optional<T>> ms;
    auto make = [&]
    {
        T v = mk<T>(r);
        switch (r.below(9))
        {
            case 0: ns.emplace_back(); ms.push_back(std::nullopt); break;
            case 1: ns.push_back(N(sp::nullval)); ms.push_back(std::nullopt); break;
            case 2: ns.push_back(N(v)); ms.push_back(v); break;
            case 3: { T c = v; ns.push_back(N(std::move(c))); ms.push_back(v); break; }
            case 4: { bool f = r.chance(1, 2); T c = v; ns.push_back(N(std::move(c), bool(f))); ms.push_back(f ? std::optional<T>(v) : std::nullopt); break; }
            case 5: { bool f = r.chance(1, 2); T c = v; ns.push_back(N(c, f)); ms.push_back(f ? std::optional<T>(v) : std::nullopt); break; }
            case 6: { bool f = r.chance(1, 2); T c = v; sp::nullable<T&, bool&> ref(c, f); ns.push_back(N(ref)); ms.push_back(f ? std::optional<T>(v) : std::nullopt); break; }
            case 7: { T c = v; auto n = sp::make_nullable<T>(std::move(c)); ns.push_back(n); ms.push_back(v); break; }
            default: { bool f = r.chance(1, 2); T c = v; auto n = sp::make_nullable<T>(std::move(c), bool(f)); ns.push_back(std::move(n)); ms.push_back(f ? std::optional<T>(v) : std::nullopt); }
        }
        state(ns.back(), ms.back(), "construction");
    };
    for (int i = 0; i < 3; ++i) make();
    for (size_t s = 0, steps = 3 + r.below(20); s < steps; ++s)
    {
        const size_t i = r.below(ns.size()), j = r.below(ns.size());
        N& n = ns[i]; auto& m = ms[i];
        const T v = mk<T>(r);
        const unsigned o = unsigned(r.below(14));
        const char* op = "?";
        hist += char('a' + o);
        switch (o)
        {
            case 0: op = "assignment of a value"; n = v; m = v; break;
            case 1: op = "assignment of an rvalue"; { T c = v; n = std::move(c); m = v; } break;
            case 2: op = "assignment of nullval"; n = sp::nullval; m = std::nullopt; break;
            case 3: op = "reset"; n.reset(); m.reset(); break;
            case 4: op = "copy assignment"; n = std::as_const(ns[j]); m = std::optional<T>(ms[j]); break;
            case 5: op = "move assignment"; { N c(ns[j]); n = std::move(c); m = std::optional<T>(ms[j]); } break;
            case 6: op = "swap"; if (i != j) { if (r.chance(1, 2)) n.swap(ns[j]); else { using std::swap; swap(n, ns[j]); } std::swap(m, ms[j]); } break;
            case 7: op = "write through value()"; if (m) { n.value() = v; m = v; } break;
            case 8: op = "write through get()"; n.get() = v; if (m) m = v; break;
            case 9: op = "write of the flag"; { n.get() = v; n.null_flag() = true; m = v; } break;
            case 10: op = "clearing the flag"; n.null_flag() = false; m = std::nullopt; break;
            case 11: op = "value_or"; vt::check(eqv<T>(n.value_or(v), m.value_or(v)), "value_or"); { N c(n); vt::check(eqv<T>(std::move(c).value_or(v), m.value_or(v)), "rvalue value_or"); } break;
            case 12: op = "assignment from references"; { T c = v; bool f = r.chance(1, 2); sp::nullable<T&, bool&> ref(c, f); if (r.chance(1, 2)) n = ref; else n = std::move(ref); m = f ? std::optional<T>(v) : std::nullopt; vt::check(eqv<T>(c, v), "assignment changed its source"); } break;
            default: op = "move construction"; { N t(std::move(n)); state(t, m, op); n = std::move(t); }
        }
        state(n, m, op);
        for (size_t k = 0; k < ns.size(); ++k) if (k != i) state(ns[k], ms[k], "operation on another object");
        vt::cover(std::string("owned ") + op);
        for (size_t k = 0; k < ns.size(); ++k) { compare(n, ns[k], m, ms[k]); compare(ns[k], n, ms[k], m); }
        compare_plain(n, v, m);
        compare_null(n, m);
        // transitivity of the order (of values that are ordered)
        for (size_t a = 0; a < ns.size(); ++a) for (size_t b = 0; b < ns.size(); ++b) for (size_t c = 0; c < ns.size(); ++c)
        {
            if (ns[a] < ns[b] && ns[b] < ns[c]) vt::check(ns[a] < ns[c], "transitivity of <");
            if (ns[a] == ns[b] && ns[b] == ns[c]) vt::check(ns[a] == ns[c], "transitivity of ==");
        }
    }
}

// ------------------------------------------------------------------ references to stored values and flags
template <class T> struct BoolFlags { std::deque<bool> f; void init(size_t n) { f.assign(n, false); } using ref = bool&; ref at(size_t i) { return f[i]; } bool get(size_t i) const { return f[i]; } void put(size_t i, bool v) { f[i] = v; } };
template <class T> struct BitFlags { sp::dynamic_bitset<uint8_t> f; void init(size_t n) { f = sp::dynamic_bitset<uint8_t>(n, false); } using ref = typename sp::dynamic_bitset<uint8_t>::reference; ref at(size_t i) { return f[i]; } bool get(size_t i) const { return f.test(i); } void put(size_t i, bool v) { f.set(i, v); } };

template <class T, class F> void refs(Rng& r, std::string& hist)
{
    using R = sp::nullable<T&, typename F::ref>;
    using C = sp::nullable<const T&, bool>;
    using N = sp::nullable<T>;
    const size_t n = 2 + r.below(6);
    std::deque<T> vals(n); F flags; flags.init(n);
    std::vector<T> mv(n); std::vector<char> mf(n);
    for (size_t i = 0; i < n; ++i) { mv[i] = mk<T>(r); vals[i] = mv[i]; mf[i] = r.chance(1, 2); flags.put(i, mf[i]); }
    auto ref = [&](size_t i) { return R(vals[i], flags.at(i)); };
    auto cref = [&](size_t i) { return C(std::as_const(vals[i]), flags.get(i)); };
    auto mod = [&](size_t i) { return mf[i] ? std::optional<T>(mv[i]) : std::nullopt; };
    auto set = [&](size_t i, const std::optional<T>& v) { mf[i] = v.has_value(); if (v) mv[i] = *v; };
    auto storage = [&](const char* op)
    {
        for (size_t i = 0; i < n; ++i)
        {
            vt::check(flags.get(i) == bool(mf[i]), std::string("referred flag after ") + op, vt::fmt("%zu of %zu", i, n));
            if (mf[i]) vt::check(eqv<T>(vals[i], mv[i]), std::string("referred value after ") + op, vt::fmt("%zu of %zu", i, n));
        }
    };
    for (size_t s = 0, steps = 3 + r.below(20); s < steps; ++s)
    {
        const size_t i = r.below(n), j = r.below(n);
        const T v = mk<T>(r);
        const unsigned o = unsigned(r.below(13));
        const char* op = "?";
        hist += char('A' + o);
        R x = ref(i);
        switch (o)
        {
            case 0: op = "assignment of a value"; x = v; set(i, v); break;
            case 1: op = "assignment of nullval"; x = sp::nullval; mf[i] = 0; break;
            case 2: op = "assignment between references"; x = ref(j); set(i, mod(j)); break;
            case 3: op = "assignment from an lvalue reference"; { R y = ref(j); x = std::as_const(y); set(i, mod(j)); } break;
            case 4: op = "assignment from an owned nullable"; { N y = r.chance(1, 2) ? N(v) : N(sp::nullval); if (r.chance(1, 2)) x = y; else x = N(y); set(i, y.has_value() ? std::optional<T>(v) : std::nullopt); } break;
            case 5: op = "swap of references"; if (i != j) { R y = ref(j); if (r.chance(1, 2)) x.swap(y); else { using std::swap; swap(x, y); } auto a = mod(i), b = mod(j); set(i, b); set(j, a); } break;
            case 6: op = "write through value()"; if (mf[i]) { x.value() = v; mv[i] = v; } break;
            case 7: op = "write through get()"; x.get() = v; mv[i] = v; break;
            case 8: op = "reset"; x.reset(); mf[i] = 0; break;
            case 9: op = "assignment from a const reference"; { C y = cref(j); x = y; set(i, mod(j)); } break;
            case 10: op = "copy of a reference refers to the same element"; { R y(x); y = v; set(i, v); } break;
            case 11: op = "value_or"; vt::check(eqv<T>(x.value_or(v), mod(i).value_or(v)), "value_or of a reference"); vt::check(eqv<T>(cref(i).value_or(v), mod(i).value_or(v)), "value_or of a const reference"); break;
            default: op = "owned copy is independent"; { N y(ref(i)); auto before = mod(i); x = v; set(i, v); state(y, before, op); }
        }
        storage(op);
        vt::cover(std::string("reference ") + op);
        for (size_t k = 0; k < n; ++k)
        {
            state(ref(k), mod(k), op);
            state(cref(k), mod(k), op);
            compare(ref(i), ref(k), mod(i), mod(k));
            compare(cref(i), ref(k), mod(i), mod(k));
            N y = mf[k] ? N(mv[k]) : N(sp::nullval);
            compare(ref(i), y, mod(i), mod(k));
            compare(y, cref(i), mod(k), mod(i));
        }
        compare_plain(ref(i), v, mod(i));
        compare_null(ref(i), mod(i));
        compare_null(cref(i), mod(i));
        storage("comparisons");
    }
}

// ------------------------------------------------------------------ conversions and variants
template <class A, class B> void convert(Rng& r, std::string& hist)
{
    std::optional<A> m; if (r.chance(2, 3)) m = mk<A>(r);
    const sp::nullable<A> a = m ? sp::nullable<A>(*m) : sp::nullable<A>(sp::nullval);
    const std::optional<B> mb = m ? std::optional<B>(B(*m)) : std::nullopt;
    sp::nullable<B> b(a);
    state(b, mb, "converting construction");
    sp::nullable<A> a2(a);
    sp::nullable<B> b2(std::move(a2));
    state(b2, mb, "converting move construction");
    sp::nullable<B> b3(mk<B>(r));
    b3 = a;
    state(b3, mb, "converting assignment");
    sp::nullable<A> a3(a);
    sp::nullable<B> b4;
    b4 = std::move(a3);
    state(b4, mb, "converting move assignment");
    state(a, m, "conversion of it");
    if constexpr (!std::is_same_v<B, bool> && std::three_way_comparable_with<A, B>)
    {
        std::optional<B> m2; if (r.chance(2, 3)) m2 = mk<B>(r);
        sp::nullable<B> c = m2 ? sp::nullable<B>(*m2) : sp::nullable<B>(sp::nullval);
        compare(a, c, m, m2); compare(c, a, m2, m); compare_plain(a, mk<B>(r), m);
    }
    hist += "conv";
    vt::cover("conversions");
}
inline void variants(Rng& r, std::string& hist)
{
    using V = sp::nullable_variant<sp::nullable<int>, sp::nullable<std::string>, sp::nullable<double&, bool&>>;
    double d = 1.5; bool f = r.chance(1, 2);
    const bool h = r.chance(1, 2);
    const unsigned k = unsigned(r.below(3));
    auto make = [&]() -> V { switch (k) { case 0: return V(h ? sp::nullable<int>(7) : sp::nullable<int>(sp::nullval)); case 1: return V(h ? sp::nullable<std::string>("seven") : sp::nullable<std::string>(sp::nullval)); default: return V(sp::nullable<double&, bool&>(d, f)); } };
    const bool want = k == 2 ? f : h;
    V v = make();
    vt::check(v.has_value() == want && bool(v) == want && v.index() == k, "nullable_variant presence");
    V c(v);
    vt::check(c.has_value() == want && c.index() == k, "nullable_variant copy");
    V w{sp::nullable<int>(3)};
    w = std::as_const(v);
    vt::check(w.has_value() == want && w.index() == k, "nullable_variant assignment");
    V u{sp::nullable<std::string>("x")};
    u = std::move(w);
    vt::check(u.has_value() == want && u.index() == k, "nullable_variant move assignment");
    const bool same = std::visit([](const auto& a, const auto& b) { if constexpr (std::is_same_v<decltype(a), decltype(b)>) return a == b; else return false; }, v, u);
    vt::check(same, "nullable_variant contents");
    if (k == 2) { std::get<2>(u) = sp::nullval; vt::check(!f && !v.has_value(), "nullable_variant of references is not a view"); }
    hist += "var";
    vt::cover("variants");
}

VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        std::string hist;
        const unsigned k = unsigned(r.below(16));
        switch (k)
        {
            case 0: vt::label("int"); owned<int>(r, hist); break;
            case 1: vt::label("uint8"); owned<uint8_t>(r, hist); break;
            case 2: vt::label("double"); owned<double>(r, hist); break;
            case 3: vt::label("string"); owned<std::string>(r, hist); break;
            case 4: vt::label("bool"); owned<bool>(r, hist); break;
            case 5: vt::label("int64"); owned<int64_t>(r, hist); break;
            case 6: vt::label("int&"); refs<int, BoolFlags<int>>(r, hist); break;
            case 7: vt::label("double&"); refs<double, BoolFlags<double>>(r, hist); break;
            case 8: vt::label("string&"); refs<std::string, BoolFlags<std::string>>(r, hist); break;
            case 9: vt::label("int&/bit"); refs<int, BitFlags<int>>(r, hist); break;
            case 10: vt::label("string&/bit"); refs<std::string, BitFlags<std::string>>(r, hist); break;
            case 11: vt::label("bool&/bit"); refs<bool, BitFlags<bool>>(r, hist); break;
            case 12: vt::label("int->double"); convert<int, double>(r, hist); convert<int, int64_t>(r, hist); break;
            case 13: vt::label("float->double"); convert<float, double>(r, hist); convert<uint8_t, int>(r, hist); break;
            case 14: vt::label("bool->int"); convert<bool, int>(r, hist); convert<int, float>(r, hist); break;
            default: vt::label("variant"); variants(r, hist);
        }
        hist = std::to_string(k) + hist;
        vt::distinct(vt::fnv(hist));
        vt::sample(hist);
    });
}
