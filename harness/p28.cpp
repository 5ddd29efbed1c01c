// P28: every documented way of stating validity, and every form of values, gives the same array.
#include "scen.hpp"
#include "track.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <span>
using namespace sc;
namespace pt // shared by the parts
{
    using bin_array = sp::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;
    inline std::vector<size_t> positions(const Col& c) { std::vector<size_t> p; for (size_t i = 0; i < c.size(); ++i) if (c[i].null) p.push_back(i); return p; }
    inline std::string g_form; // "<values form>|<validity form>"
    inline void form(const char* what, const char* v) { g_form = std::string(what) + "|" + v; vt::cover(std::string("validity:") + v); vt::cover(std::string("values:") + what); vt::label("make|" + g_form); }

    // the checks: the typed array's elements, its counts, and what an independent reader sees in its structures
    template <class A> void verify(A&& a, const TD& t, const Col& want)
    {
        vt::label("check|" + g_form);
        const std::string w = td_str(t) + " want " + col_str(want);
        vt::check(a.size() == want.size(), "size", w);
        vt::check(sr::read_index(a) == want, "elements", w + " got " + col_str(sr::read_index(a)));
        vt::check(sr::read_iter(a) == want, "iterated elements", w);
        auto& px = sp::detail::array_access::get_arrow_proxy(a);
        const int64_t nulls = int64_t(std::count_if(want.begin(), want.end(), [](auto& x) { return x.null; }));
        vt::check(px.null_count() == nulls, "null count", w + vt::fmt(" got %ld want %ld", long(px.null_count()), long(nulls)));
        vt::check(px.offset() == 0 && px.length() == want.size(), "length or offset", w);
        Reader rd; rd.o = strict();
        TD seen;
        auto c = rd.read(&px.array(), &px.schema(), &seen);
        if (c && td_str(t).find("ree") == std::string::npos) vt::check(td_str(seen) == td_str(t), "type seen by the independent reader", w + " got " + td_str(seen));
        if (!c) { std::string e; for (auto& x : rd.errors()) e += x + "; "; vt::violation("structure refused by the independent reader", w + " " + e); }
        else vt::check(*c == want, "the independent reader decodes something else", w + " got " + col_str(*c));
        // the default and the copy
        std::decay_t<A> copy(a);
        vt::check(sr::read_index(copy) == want, "elements of a copy", w);
        if constexpr (requires { sp::array(std::move(copy)); })
            if (t.k != K::SVIEW && t.k != K::BVIEW && t.k != K::BIN)
            {
                sp::array d(std::move(copy));
                vt::check(sr::read(d) == want, "elements through a dynamic array", w);
            }
        vt::cover("arrays compared"); vt::cover("elements", want.size()); vt::cover("nulls", size_t(nulls));
        vt::distinct(vt::fnv(g_form + td_str(t) + col_str(want)));
    }
    // one of the few forms used with every form of values
    template <class F> void few(const Col& c, Rng& r, const char* what, F&& f)
    {
        switch (r.below(sb::any_null(c) ? 5 : 6))
        {
            case 3: { form(what, "bools read once"); tk::Once<bool> o(sb::validity(c)); return f(o.range()); }
            case 4: { form(what, "positions read once"); tk::Once<size_t> o(positions(c)); return f(o.range()); }
            case 0: form(what, "bitset"); return f(sb::bitset_of(c));
            case 1: form(what, "vector<bool>"); return f(sb::validity(c));
            case 2: form(what, "positions vector<size_t>"); return f(positions(c));
            default: form(what, "none"); return f();
        }
    }
    // every form
    template <class F> void every(const Col& c, Rng& r, const char* what, F&& f)
    {
        const auto pos = positions(c);
        const std::vector<bool> bools = sb::validity(c);
        const bool none = pos.empty();
        switch (r.below(none ? 20 : 15))
        {
            case 13: { form(what, "bools read once"); tk::Once<bool> o(bools); f(o.range()); vt::check(o.at == bools.size(), "a range that can be read only once was not read to its end", col_str(c)); return; }
            case 14: { form(what, "positions read once"); tk::Once<size_t> o(pos); f(o.range()); vt::check(o.at == pos.size(), "a range that can be read only once was not read to its end", col_str(c)); return; }
            case 0: { form(what, "bitset lvalue"); const sp::validity_bitmap b = sb::bitset_of(c); f(b);
                      vt::check(b.size() == c.size() && std::equal(b.begin(), b.end(), bools.begin()) && b.null_count() == pos.size(), "the bitset passed by reference changed", col_str(c)); return; }
            case 1: { form(what, "bitset mutable lvalue"); sp::validity_bitmap b = sb::bitset_of(c); f(b);
                      vt::check(b.size() == c.size() && std::equal(b.begin(), b.end(), bools.begin()) && b.null_count() == pos.size(), "the bitset passed by reference changed", col_str(c)); return; }
            case 2: { form(what, "const vector<bool> lvalue"); f(bools); return; }
            case 3: { form(what, "deque<bool>"); std::deque<bool> d(bools.begin(), bools.end()); f(d); return; }
            case 4: { form(what, "list<bool>"); f(std::list<bool>(bools.begin(), bools.end())); return; }
            case 5: { form(what, "transformed bools"); f(c | std::views::transform([](const LV& x) { return !x.null; })); return; }
            case 6: { form(what, "array of bool"); std::unique_ptr<bool[]> p(new bool[c.size() + 1]); for (size_t i = 0; i < c.size(); ++i) p[i] = !c[i].null; f(std::span<const bool>(p.get(), c.size())); return; }
            case 7: { form(what, "positions vector<uint8_t>"); f(std::vector<uint8_t>(pos.begin(), pos.end())); return; }
            case 8: { form(what, "positions set<uint32_t>"); f(std::set<uint32_t>(pos.begin(), pos.end())); return; }
            case 9: { form(what, "positions list<uint16_t> in any order"); std::vector<uint16_t> v(pos.begin(), pos.end()); for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]); f(std::list<uint16_t>(v.begin(), v.end())); return; }
            case 10: { form(what, "positions repeated"); std::vector<uint64_t> v(pos.begin(), pos.end()); for (size_t i = 0, n = r.below(4); i < n && !pos.empty(); ++i) v.push_back(pos[r.below(pos.size())]); f(v); return; }
            case 11: { form(what, "bitset edited before"); sp::validity_bitmap b; for (bool x : bools) b.push_back(!x); for (size_t i = 0; i < c.size(); ++i) b.set(i, bools[i]);
                       // spare capacity and stale bits behind the end
                       for (size_t i = 0, n = r.below(20); i < n; ++i) b.push_back(r.chance(1, 2)); b.resize(c.size()); f(std::move(b)); return; }
            case 12: { form(what, "bitset with a borrowed count"); sp::validity_bitmap b0 = sb::bitset_of(c); sp::validity_bitmap b(b0); f(std::move(b)); return; }
            case 15: form(what, "none"); f(); return;
            case 16: form(what, "empty bitset"); f(sp::validity_bitmap{}); return;
            case 17: form(what, "empty vector<bool>"); f(std::vector<bool>{}); return;
            case 18: form(what, "no positions"); f(std::vector<size_t>{}); return;
            default: { form(what, "empty bitset lvalue"); const sp::validity_bitmap b; f(b); vt::check(b.size() == 0, "the bitset passed by reference changed", ""); return; }
        }
    }
    inline TD leaf(K k) { TD t; t.k = k; return t; }

    template <class T, K KK> void primitive(Rng& r)
    {
        using A = sp::primitive_array<T>;
        const TD t = leaf(KK);
        const Col c = gen_col(t, r.chance(1, 4) ? r.below(40) : gen_len(r), r, r.pick({0, 0, 20, 60, 100}));
        Col base = c;
        const bool nulls = sb::any_null(c);
        const std::vector<T> v = sb::pods<T>(c, r);
        auto mk = [&](auto&& vals, auto&&... vb) { verify(A(std::forward<decltype(vals)>(vals), std::forward<decltype(vb)>(vb)...), t, c); };
        switch (r.below(nulls ? 17 : 21))
        {
            case 0: case 1: case 2: case 3: case 4: every(c, r, "vector", [&](auto&&... vb) { mk(v, std::forward<decltype(vb)>(vb)...); }); break;
            case 5: few(c, r, "list", [&](auto&&... vb) { mk(std::list<T>(v.begin(), v.end()), std::forward<decltype(vb)>(vb)...); }); break;
            case 6: few(c, r, "deque rvalue", [&](auto&&... vb) { mk(std::deque<T>(v.begin(), v.end()), std::forward<decltype(vb)>(vb)...); }); break;
            case 7: few(c, r, "transformed", [&](auto&&... vb) { mk(std::views::iota(size_t(0), v.size()) | std::views::transform([&](size_t i) { return T(v[i]); }), std::forward<decltype(vb)>(vb)...); }); break;
            case 8: few(c, r, "forward_list of convertible", [&](auto&&... vb)
                {
                    struct Conv { T x; operator T() const { return x; } };
                    std::list<Conv> l; for (T x : v) l.push_back(Conv{x});
                    mk(l, std::forward<decltype(vb)>(vb)...);
                }); break;
            case 9: case 10: every(c, r, "adopted buffer", [&](auto&&... vb)
                {
                    sp::u8_buffer<T> b(v);
                    A a(std::move(b), std::forward<decltype(vb)>(vb)...);
                    verify(std::move(a), t, c);
                }); break;
            case 14: few(c, r, "values read once", [&](auto&&... vb) { tk::Once<T> o(v); mk(o.range(), std::forward<decltype(vb)>(vb)...); }); break;
            case 15: few(c, r, "buffer of values read once", [&](auto&&... vb)
                {
                    tk::Once<T> o(v); sp::u8_buffer<T> b(o.range());
                    vt::check(b.size() == v.size(), "size of a buffer of values read once", td_str(t));
                    verify(A(std::move(b), std::forward<decltype(vb)>(vb)...), t, c);
                }); break;
            case 16:
            {
                std::vector<sp::nullable<T>> n;
                for (size_t i = 0; i < c.size(); ++i) n.emplace_back(T(v[i]), !c[i].null);
                form("nullables read once", "nullables");
                tk::Once<sp::nullable<T>> o(n);
                mk(o.range());
                break;
            }
            case 11: case 12: case 13:
            {
                std::vector<sp::nullable<T>> n;
                for (size_t i = 0; i < c.size(); ++i) n.emplace_back(T(v[i]), !c[i].null);
                switch (r.below(4))
                {
                    case 0: form("vector of nullables", "nullables"); mk(n); break;
                    case 1: form("deque of nullables", "nullables"); mk(std::deque<sp::nullable<T>>(n.begin(), n.end())); break;
                    case 2: form("list of nullables", "nullables"); { const std::list<sp::nullable<T>> l(n.begin(), n.end()); mk(l); } break;
                    default: form("transformed nullables", "nullables"); mk(std::views::iota(size_t(0), n.size()) | std::views::transform([&](size_t i) { return n[i]; })); break;
                }
                break;
            }
            case 17: // a size and a value
            {
                const size_t n = c.size();
                const LV x = n ? c[0] : gen_value(t, r, 0);
                const Col w(n, x.null ? scalar_pod(KK, T{}) : x);
                form("size and value", "none");
                verify(A(n, n ? sb::pod<T>(w[0], r) : T{}), t, w);
                break;
            }
            case 18: case 19: // an initializer list
            {
                auto at = [&](size_t i) { return i < v.size() ? T(v[i]) : T{}; };
                auto wt = [&](size_t n) { Col w; for (size_t i = 0; i < n; ++i) w.push_back(sr::of_value(at(i))); return w; };
                form("initializer list", "none");
                switch (r.below(4))
                {
                    case 0: { A a{std::initializer_list<T>{}}; verify(std::move(a), t, wt(0)); break; }
                    case 1: { A a({at(0)}); verify(std::move(a), t, wt(1)); break; }
                    case 2: { A a({at(0), at(1), at(2)}); verify(std::move(a), t, wt(3)); break; }
                    default: { A a{std::initializer_list<T>{at(0), at(1), at(2), at(3), at(4), at(5), at(6), at(7), at(8)}}; verify(std::move(a), t, wt(9)); }
                }
                break;
            }
            default: form("u8_buffer from size and value", "none"); { sp::u8_buffer<T> b(5, v.empty() ? T{} : T(v[0])); verify(A(std::move(b)), t, Col(5, v.empty() ? sr::of_value(T{}) : sr::of_value(T(v[0])))); }
        }
    }
    template <class C> std::vector<C> chars(const LV& x, Rng& r)
    {
        const std::string s = x.null ? (r.chance(1, 3) ? "hidden" : "") : std::string(atom_bytes(x));
        std::vector<C> v; for (char ch : s) v.push_back(C(ch));
        return v;
    }
    // variable-size binary: A over a std value type S with characters C
    template <class A, class S, class C, K KK> void binary(Rng& r)
    {
        const TD t = leaf(KK);
        const Col c = gen_col(t, gen_len(r), r, r.pick({0, 0, 20, 60, 100}));
        std::vector<S> v;
        for (auto& x : c) { auto ch = chars<C>(x, r); v.push_back(S(ch.begin(), ch.end())); }
        auto mk = [&](auto&& vals, auto&&... vb) { verify(A(std::forward<decltype(vals)>(vals), std::forward<decltype(vb)>(vb)...), t, c); };
        switch (r.below(12))
        {
            case 7: few(c, r, "values read once", [&](auto&&... vb) { tk::Once<S> o(v); mk(o.range(), std::forward<decltype(vb)>(vb)...); }); break;
            case 8: { std::vector<sp::nullable<S>> n; for (size_t i = 0; i < c.size(); ++i) n.emplace_back(S(v[i]), !c[i].null); form("nullables read once", "nullables"); tk::Once<sp::nullable<S>> o(n); mk(o.range()); break; }
            case 9: few(c, r, "sizes and characters read once", [&](auto&&... vb)
                {
                    std::vector<C> flat; std::vector<size_t> sizes;
                    for (auto& s : v) { flat.insert(flat.end(), s.begin(), s.end()); sizes.push_back(s.size()); }
                    tk::Once<C> of(flat); tk::Once<size_t> os(sizes);
                    sp::u8_buffer<C> b(of.range());
                    auto off = A::offset_from_sizes(os.range());
                    verify(A(std::move(b), std::move(off), std::forward<decltype(vb)>(vb)...), t, c);
                }); break;
            case 0: case 1: case 2: every(c, r, "vector", [&](auto&&... vb) { mk(v, std::forward<decltype(vb)>(vb)...); }); break;
            case 3: few(c, r, "list", [&](auto&&... vb) { mk(std::list<S>(v.begin(), v.end()), std::forward<decltype(vb)>(vb)...); }); break;
            case 4: few(c, r, "vector of spans", [&](auto&&... vb) { std::vector<std::span<const C>> sp_(v.begin(), v.end()); mk(sp_, std::forward<decltype(vb)>(vb)...); }); break;
            case 5: few(c, r, "deque of lists", [&](auto&&... vb) { std::deque<std::list<C>> d; for (auto& s : v) d.emplace_back(s.begin(), s.end()); mk(d, std::forward<decltype(vb)>(vb)...); }); break;
            case 6: every(c, r, "adopted buffers", [&](auto&&... vb)
                {
                    std::vector<C> flat; std::vector<size_t> sizes;
                    for (auto& s : v) { flat.insert(flat.end(), s.begin(), s.end()); sizes.push_back(s.size()); }
                    sp::u8_buffer<C> b(flat);
                    auto off = A::offset_from_sizes(sizes);
                    A a(std::move(b), std::move(off), std::forward<decltype(vb)>(vb)...);
                    verify(std::move(a), t, c);
                }); break;
            default:
            {
                std::vector<sp::nullable<S>> n;
                for (size_t i = 0; i < c.size(); ++i) n.emplace_back(S(v[i]), !c[i].null);
                if (r.chance(1, 2)) { form("vector of nullables", "nullables"); mk(n); }
                else { form("list of nullables", "nullables"); mk(std::list<sp::nullable<S>>(n.begin(), n.end())); }
            }
        }
    }
    template <class A, class C, K KK> void view(Rng& r)
    {
        const TD t = leaf(KK);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 0, 20, 60, 100}));
        std::vector<std::vector<C>> v;
        for (auto& x : c)
        {
            auto ch = chars<C>(x, r);
            if (!x.null && r.chance(1, 3)) { while (ch.size() < 11 + r.below(8)) ch.push_back(C('a' + r.below(26))); std::string s; for (auto q : ch) s += char(q); x = scalar(KK == K::SVIEW ? "str" : "bin", s); }
            v.push_back(ch);
        }
        auto mk = [&](auto&& vals, auto&&... vb) { verify(A(std::forward<decltype(vals)>(vals), std::forward<decltype(vb)>(vb)...), t, c); };
        using V = typename A::inner_value_type;
        std::vector<V> views; for (auto& s : v) views.emplace_back(s.data(), s.size());
        if (r.chance(1, 2)) every(c, r, "vector of views", [&](auto&&... vb) { mk(views, std::forward<decltype(vb)>(vb)...); });
        else if (r.chance(1, 3)) few(c, r, "values read once", [&](auto&&... vb)
        {
            if constexpr (std::same_as<C, char>) { std::vector<std::string> s; for (auto& x : v) s.emplace_back(x.begin(), x.end()); tk::Once<std::string> o(s); mk(o.range(), std::forward<decltype(vb)>(vb)...); }
            else { tk::Once<std::vector<C>> o(v); mk(o.range(), std::forward<decltype(vb)>(vb)...); }
        });
        else if (r.chance(1, 2)) few(c, r, "deque of views", [&](auto&&... vb) { mk(std::deque<V>(views.begin(), views.end()), std::forward<decltype(vb)>(vb)...); });
        else few(c, r, "vector of owners", [&](auto&&... vb)
        {
            if constexpr (std::same_as<C, char>) { std::vector<std::string> s; for (auto& x : v) s.emplace_back(x.begin(), x.end()); mk(s, std::forward<decltype(vb)>(vb)...); }
            else mk(v, std::forward<decltype(vb)>(vb)...);
        });
    }
}
void part1(Rng&); void part2(Rng&); void part3(Rng&); void part4(Rng&); void part5(Rng&); void part6(Rng&); void part7(Rng&);
using namespace pt;
#if VT_PART == 0
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        switch (r.below(10))
        {
            case 0: part1(r); break; case 1: part2(r); break; case 2: part3(r); break; case 3: part4(r); break;
            case 4: case 5: part5(r); break; case 6: part6(r); break; default: part7(r);
        }
    });
}
#elif VT_PART == 1
void part1(Rng& r) { switch (r.below(3)) { case 0: return primitive<bool, K::BOOL>(r); case 1: return primitive<uint8_t, K::U8>(r); default: return primitive<int8_t, K::I8>(r); } }
#elif VT_PART == 2
void part2(Rng& r) { switch (r.below(3)) { case 0: return primitive<uint16_t, K::U16>(r); case 1: return primitive<int16_t, K::I16>(r); default: return primitive<sp::float16_t, K::F16>(r); } }
#elif VT_PART == 3
void part3(Rng& r) { switch (r.below(3)) { case 0: return primitive<uint32_t, K::U32>(r); case 1: return primitive<int32_t, K::I32>(r); default: return primitive<float, K::F32>(r); } }
#elif VT_PART == 4
void part4(Rng& r) { switch (r.below(3)) { case 0: return primitive<uint64_t, K::U64>(r); case 1: return primitive<int64_t, K::I64>(r); default: return primitive<double, K::F64>(r); } }
#elif VT_PART == 5
void part5(Rng& r) { if (r.chance(2, 3)) binary<sp::string_array, std::string, char, K::STR>(r); else binary<bin_array, std::vector<std::byte>, std::byte, K::BIN>(r); }
#elif VT_PART == 6
void part6(Rng& r) { if (r.chance(1, 2)) view<sp::string_view_array, char, K::SVIEW>(r); else view<sp::binary_view_array, std::byte, K::BVIEW>(r); }
#else
namespace
{
    template <class A> void lists(Rng& r, K k)
    {
        TD t; t.k = k; t.ch = {gen_t(r, int(r.below(2)))};
        const Col c = gen_col(t, gen_len(r), r, r.pick({0, 20, 60, 100}));
        Col flat; std::vector<size_t> sizes;
        for (auto& x : c) { sizes.push_back(x.null ? 0 : x.ch.size()); if (!x.null) flat.insert(flat.end(), x.ch.begin(), x.ch.end()); }
        if (r.chance(1, 2)) every(c, r, "list", [&](auto&&... vb) { verify(A(sb::build(t.ch[0], flat, r), A::offset_from_sizes(sizes), std::forward<decltype(vb)>(vb)...), t, c); });
        else if (r.chance(1, 3)) few(c, r, "list, sizes read once", [&](auto&&... vb) { tk::Once<size_t> o(sizes); verify(A(sb::build(t.ch[0], flat, r), A::offset_from_sizes(o.range()), std::forward<decltype(vb)>(vb)...), t, c); });
        else if (r.chance(1, 2)) few(c, r, "list, sizes in a list", [&](auto&&... vb) { verify(A(sb::build(t.ch[0], flat, r), A::offset_from_sizes(std::list<size_t>(sizes.begin(), sizes.end())), std::forward<decltype(vb)>(vb)...), t, c); });
        else few(c, r, "list, transformed sizes", [&](auto&&... vb) { verify(A(sb::build(t.ch[0], flat, r), A::offset_from_sizes(c | std::views::transform([](const LV& x) { return x.null ? size_t(0) : x.ch.size(); })), std::forward<decltype(vb)>(vb)...), t, c); });
    }
    template <class A> void views(Rng& r, K k)
    {
        TD t; t.k = k; t.ch = {gen_t(r, int(r.below(2)))};
        const Col c = gen_col(t, gen_len(r), r, r.pick({0, 20, 60, 100}));
        using OB = typename A::offset_buffer_type; using SB = typename A::size_buffer_type; using OT = typename OB::value_type;
        Col flat; std::vector<OT> off, sz;
        for (auto& x : c) { off.push_back(OT(flat.size())); sz.push_back(OT(x.null ? 0 : x.ch.size())); if (!x.null) flat.insert(flat.end(), x.ch.begin(), x.ch.end()); }
        every(c, r, "list view", [&](auto&&... vb) { verify(A(sb::build(t.ch[0], flat, r), OB(off), SB(sz), std::forward<decltype(vb)>(vb)...), t, c); });
    }
    template <class IT> void dict(Rng& r, K k)
    {
        TD t; t.k = K::DICT; t.key = k; t.ch = {gen_t(r, int(r.below(2)))};
        const size_t m = 1 + r.below(9), n = gen_len(r);
        const Col d = gen_col(t.ch[0], m, r, 20);
        Col c, kc; std::vector<IT> keys;
        for (size_t i = 0; i < n; ++i) { keys.push_back(IT(r.below(m))); LV q; q.null = r.chance(1, 4); kc.push_back(q); c.push_back(q.null ? null_lv() : d[size_t(keys[i])]); }
        if (r.chance(1, 3)) { c.clear(); for (auto& q : kc) q.null = false; for (auto x : keys) c.push_back(d[size_t(x)]); }
        auto make = [&](auto&&... vb) { tk::Once<IT> ok(keys); const bool once = r.chance(1, 4); sp::dictionary_encoded_array<IT> a(once ? sp::u8_buffer<IT>(ok.range()) : sp::u8_buffer<IT>(keys), sb::build(t.ch[0], d, r), std::forward<decltype(vb)>(vb)...);
            const std::string w = td_str(t) + " want " + col_str(c);
            vt::check(a.size() == c.size(), "size", w);
            vt::check(sr::read_index(a) == c, "elements", w + " got " + col_str(sr::read_index(a)));
            auto& px = sp::detail::array_access::get_arrow_proxy(a);
            vt::check(px.null_count() == std::count_if(kc.begin(), kc.end(), [](auto& x) { return x.null; }), "null count of the keys", w);
            Reader rd; rd.o = strict();
            TD seen; auto got = rd.read(&px.array(), &px.schema(), &seen);
            vt::check(got && *got == c, "the independent reader decodes something else", w);
            vt::cover("arrays compared"); vt::distinct(vt::fnv(g_form + td_str(t) + col_str(c)));
            sp::array dyn(std::move(a)); vt::check(sr::read(dyn) == c, "elements through a dynamic array", w); };
        if constexpr (sizeof(IT) == 1) every(kc, r, "dictionary", make); else few(kc, r, "dictionary", make);
    }
}
void part7(Rng& r)
{
    switch (r.below(10))
    {
        case 0: case 1: return lists<sp::list_array>(r, K::LIST);
        case 2: return lists<sp::big_list_array>(r, K::LLIST);
        case 3: return views<sp::list_view_array>(r, K::LVIEW);
        case 4: return views<sp::big_list_view_array>(r, K::LLVIEW);
        case 5: case 6:
        {
            TD t; t.k = K::FSL; t.fsl = int(1 + r.below(5)); t.ch = {gen_t(r, int(r.below(2)))};
            const Col c = gen_col(t, gen_len(r), r, r.pick({0, 20, 60, 100}));
            Col flat;
            for (auto& x : c) for (int q = 0; q < t.fsl; ++q) flat.push_back(x.null ? gen_value(t.ch[0], r, 30) : x.ch[size_t(q)]);
            return every(c, r, "fixed size list", [&](auto&&... vb) { verify(sp::fixed_sized_list_array(uint64_t(t.fsl), sb::build(t.ch[0], flat, r), std::forward<decltype(vb)>(vb)...), t, c); });
        }
        case 7: case 8:
        {
            TD t; t.k = K::STRUCT; for (size_t i = 0, n = 1 + r.below(3); i < n; ++i) t.ch.push_back(gen_t(r, int(r.below(2))));
            const Col c = gen_col(t, gen_len(r), r, r.pick({0, 20, 60, 100}));
            return every(c, r, "struct", [&](auto&&... vb)
            {
                std::vector<sp::array> ch;
                for (size_t q = 0; q < t.ch.size(); ++q) { Col cc; for (auto& x : c) cc.push_back(x.null ? gen_value(t.ch[q], r, 30) : x.ch[q]); ch.push_back(sb::build(t.ch[q], cc, r)); }
                verify(sp::struct_array(std::move(ch), std::forward<decltype(vb)>(vb)...), t, c);
            });
        }
        default:
            switch (r.below(4)) { case 0: return dict<uint8_t>(r, K::U8); case 1: return dict<int8_t>(r, K::I8); case 2: return dict<uint32_t>(r, K::U32); default: return dict<int64_t>(r, K::I64); }
    }
}
#endif
