// P26: a type-erased array is indistinguishable from the typed array it holds.
#include "scen.hpp"
#include "sparrow/layout/array_helper.hpp"
#include <span>
using namespace sc;
void typed1(const TD&, const Col&, Rng&);
void typed2(const TD&, const Col&, Rng&);
void typed3(const TD&, const Col&, Rng&);
void imported(sp::array&, const TD&, const Col&, Rng&, const std::string&);
#if VT_PART == 4 || VT_PART == 0
// ---- which layout a schema calls for
namespace
{
    template <class A> std::string layout_name()
    {
        using namespace sp;
        if constexpr (std::same_as<A, null_array>) return "na";
        else if constexpr (std::same_as<A, string_array>) return "str";
        else if constexpr (std::same_as<A, list_array>) return "list";
        else if constexpr (std::same_as<A, big_list_array>) return "llist";
        else if constexpr (std::same_as<A, list_view_array>) return "lview";
        else if constexpr (std::same_as<A, big_list_view_array>) return "llview";
        else if constexpr (std::same_as<A, fixed_sized_list_array>) return "fsl";
        else if constexpr (std::same_as<A, struct_array>) return "struct";
        else if constexpr (std::same_as<A, run_end_encoded_array>) return "ree";
        else if constexpr (std::same_as<A, sparse_union_array>) return "sunion";
        else if constexpr (std::same_as<A, dense_union_array>) return "dunion";
        else if constexpr (requires { typename A::keys_buffer_type; }) return std::string("dict/") + kname(sr::kind_of<typename A::keys_buffer_type::value_type>());
        else return kname(sr::kind_of<typename A::inner_value_type>());
    }
    std::string want_layout(const TD& t) { return t.k == K::DICT ? std::string("dict/") + kname(t.key) : kname(t.k); }
    sp::data_type want_type(const TD& t)
    {
        using D = sp::data_type;
        switch (t.k == K::DICT ? t.key : t.k)
        {
            case K::NA: return D::NA; case K::BOOL: return D::BOOL; case K::U8: return D::UINT8; case K::I8: return D::INT8; case K::U16: return D::UINT16;
            case K::I16: return D::INT16; case K::U32: return D::UINT32; case K::I32: return D::INT32; case K::U64: return D::UINT64; case K::I64: return D::INT64;
            case K::F16: return D::HALF_FLOAT; case K::F32: return D::FLOAT; case K::F64: return D::DOUBLE; case K::STR: return D::STRING; case K::LIST: return D::LIST;
            case K::LLIST: return D::LARGE_LIST; case K::LVIEW: return D::LIST_VIEW; case K::LLVIEW: return D::LARGE_LIST_VIEW; case K::FSL: return D::FIXED_SIZED_LIST;
            case K::STRUCT: return D::STRUCT; case K::REE: return D::RUN_ENCODED; case K::SUNION: return D::SPARSE_UNION; default: return D::DENSE_UNION;
        }
    }
    void presents(const sp::array_wrapper& w, const TD& t, const std::string& path)
    {
        vt::check(w.data_type() == want_type(t), "data type of a nested array", path + " " + td_str(t));
        vt::check(w.is_dictionary() == (t.k == K::DICT), "dictionary flag of a nested array", path);
        const std::string got = sp::visit([](const auto& a) { return layout_name<std::decay_t<decltype(a)>>(); }, w);
        if (!vt::check(got == want_layout(t), "visiting presents another layout than the schema's", path + " " + td_str(t) + " got " + got)) return;
        vt::cover("layouts presented");
        sp::visit([&](const auto& a) -> int
        {
            using A = std::decay_t<decltype(a)>;
            if constexpr (requires { a.raw_flat_array(); }) { vt::check(a.raw_flat_array() != nullptr, "no flat array", path); presents(*a.raw_flat_array(), t.ch[0], path + "/item"); }
            else if constexpr (std::same_as<A, sp::struct_array>)
                for (size_t i = 0; i < t.ch.size(); ++i) presents(*a.raw_child(i), t.ch[i], path + "/" + std::to_string(i));
            return 0;
        }, w);
    }
}
#endif
#if VT_PART == 0
VT_MAIN_DEFS
namespace
{
    // the dynamic array's proxy describes what the schema says
    void describes(sp::array& a, const TD& t, const Col& c, const std::string& how)
    {
        const auto& px = std::as_const(sp::detail::array_access::get_arrow_proxy(std::as_const(a)));
        vt::check(a.size() == c.size() && a.empty() == c.empty(), "size", how);
        vt::check(a.data_type() == want_type(t), "data type", how);
        auto str = [](auto o) { return o ? std::optional<std::string>(std::string(*o)) : std::nullopt; };
        vt::check(str(px.name()) == t.name, "name", how);
        vt::check(str(px.metadata()) == t.meta, "metadata", how);
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("generate");
        TD t = gen_t(r, int(r.below(4)));
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        vt::cover(std::string("layout:") + kname(t.k));
        vt::distinct(vt::fnv(td_str(t) + col_str(c)));
        if (r.chance(1, 100)) vt::sample(td_str(t) + " " + col_str(c));
        if (r.chance(1, 40))
        {
            vt::label("default constructed");
            sp::array e; const sp::array& ce = e;
            vt::check(ce.empty() && ce.size() == 0, "a default constructed array is not empty");
            vt::check(ce.data_type() == sp::data_type::NA, "a default constructed array reports a type");
            sp::array f(e), g(std::move(f));
            vt::check(g.empty(), "a copy of an empty array is not empty");
            g = sb::build(t, c, r);
            vt::check(sr::read(g) == c, "assigning over an empty array");
            g = e;
            vt::check(g.empty() && g.size() == 0, "assigning an empty array");
            try { (void) e.at(0); vt::violation("checked access in an empty array"); } catch (const std::out_of_range&) {}
            vt::cover("default constructed arrays");
        }
        if (r.chance(1, 2))
        {
            vt::label(std::string("typed|") + kname(t.k));
            t.k == K::DICT ? typed3(t, c, r) : sb::nested_kind(t.k) ? typed2(t, c, r) : typed1(t, c, r);
            return;
        }
        vt::label(std::string("imported|") + kname(t.k));
        P o = obtain(t, c, r, r.pick({How::OWNED, How::LENT, How::HALF}));
        describes(*o->arr, t, c, o->how);
        imported(*o->arr, t, c, r, o->how);
        sp::array copy(*o->arr);
        describes(copy, t, c, "copy");
        imported(copy, t, c, r, "copy");
        sp::array moved(std::move(copy));
        describes(moved, t, c, "moved");
        imported(moved, t, c, r, "moved");
        const size_t x = r.below(c.size() + 1), y = x + r.below(c.size() - x + 1);
        sp::array s = r.chance(1, 2) ? o->arr->slice(x, y) : o->arr->slice_view(x, y);
        const Col w(c.begin() + long(x), c.begin() + long(y));
        describes(s, t, w, "slice");
        imported(s, t, w, r, "slice");
    });
}
#elif VT_PART == 4
void imported(sp::array& a, const TD& t, const Col& c, Rng&, const std::string& how)
{
    const std::string got = a.visit([](const auto& x) { return layout_name<std::decay_t<decltype(x)>>(); });
    if (!vt::check(got == want_layout(t), "visiting presents another layout than the schema's", how + " " + td_str(t) + " got " + got)) return;
    vt::cover("layouts presented");
    a.visit([&](const auto& x) -> int
    {
        using A = std::decay_t<decltype(x)>;
        vt::check(x.size() == c.size(), "typed size", how);
        if constexpr (requires { x.raw_flat_array(); }) presents(*x.raw_flat_array(), t.ch[0], how + ":item");
        else if constexpr (std::same_as<A, sp::struct_array>)
            for (size_t i = 0; i < t.ch.size(); ++i) presents(*x.raw_child(i), t.ch[i], how + ":" + std::to_string(i));
        return 0;
    });
    vt::check(sr::read(a) == c, "contents", how);
}
#else
namespace
{
    template <class V, class T> struct alternative : std::false_type {};
    template <class T, class... Ts> struct alternative<sp::nullable_variant<Ts...>, T> : std::bool_constant<((std::same_as<Ts, T> + ...) == 1)> {};

    // everything the dynamic array says against the typed one
    template <class A> void agree(const sp::array& d, const A& a, const Col& c, Rng& r, const std::string& how, const A* address)
    {
        using E = std::decay_t<decltype(a[0])>;
        const std::string w = " (" + how + ")";
        auto ck = [&](bool ok, const char* what, const std::string& x = "") { vt::check(ok, what, how + " " + x); };
        ck(d.size() == a.size() && d.size() == c.size(), "size");
        ck(d.empty() == (a.size() == 0), "empty");
        const auto& p = sp::detail::array_access::get_arrow_proxy(d);
        const auto& q = sp::detail::array_access::get_arrow_proxy(a);
        ck(d.data_type() == q.data_type(), "data type");
        ck(p.data_type() == q.data_type() && p.format() == q.format() && p.name() == q.name() && p.metadata() == q.metadata() && p.flags() == q.flags(), "schema fields");
        ck(p.length() == q.length() && p.null_count() == q.null_count() && p.offset() == q.offset() && p.n_buffers() == q.n_buffers() && p.n_children() == q.n_children(), "array fields");
        ck(sp::owns_arrow_array(d) == sp::owns_arrow_array(a) && sp::owns_arrow_schema(d) == sp::owns_arrow_schema(a), "ownership");
        const A* seen = nullptr;
        const int got = d.visit([&](const auto& x) -> int
        {
            if constexpr (std::same_as<std::decay_t<decltype(x)>, A>) { seen = &x; return 42; }
            else return 1;
        });
        ck(got == 42 && seen, "visiting presents another type");
        if (address) ck(seen == address, "visiting presents another object");
        if (!seen) return;
        if (address) { ck(&p == &q, "another proxy"); ck(sp::get_arrow_array(const_cast<sp::array&>(d)) == sp::get_arrow_array(const_cast<A&>(a)) && sp::get_arrow_schema(const_cast<sp::array&>(d)) == sp::get_arrow_schema(const_cast<A&>(a)), "other structures"); }
        const size_t n = std::min(d.size(), a.size());
        for (size_t i = 0; i < n; ++i)
        {
            const auto x = d[i];
            if constexpr (std::same_as<E, sp::array_traits::const_reference>)
            {
                const auto y = a[i];
                if (!vt::check(x.index() == y.index(), "element of another type", how)) break;
            }
            else
            {
                static_assert(alternative<sp::array_traits::const_reference, E>::value);
                const E* e = std::get_if<E>(&static_cast<const typename sp::array_traits::const_reference::base_type&>(x));
                if (!vt::check(e != nullptr, "element of another type", how)) break;
                ck(e->has_value() == a[i].has_value(), "nullness of an element");
                // references refer to the typed array's storage
                if constexpr (std::is_reference_v<decltype(e->get())> && std::is_arithmetic_v<std::decay_t<decltype(e->get())>>)
                    if (address) ck(&e->get() == &a[i].get(), "an element is not the typed array's");
            }
            ck(x.has_value() == !c[i].null, "nullness through the variant");
            const LV l = sr::element(x);
            if (!vt::check(l == sr::of_element(a[i]) && l == c[i], "element", how + vt::fmt(" at %zu", i))) break;
            ck(sr::element(d.at(i)) == l, "checked access");
        }
        vt::cover("elements compared", n);
        if (n) { ck(sr::element(d.front()) == c.front(), "front"); ck(sr::element(d.back()) == c.back(), "back"); }
        const size_t past = a.size() + r.below(3);
        try { (void) d.at(past); ck(false, "checked access past the end"); } catch (const std::out_of_range&) {}
        const size_t x = r.below(n + 1), y = x + r.below(n - x + 1);
        const Col win(c.begin() + long(x), c.begin() + long(y));
        {
            sp::array s = d.slice(x, y), v = d.slice_view(x, y);
            if constexpr (requires { a.slice(x, y); })
            {
                const A ts = a.slice(x, y), tv = a.slice_view(x, y);
                ck(sr::read_index(ts) == win && sr::read(s) == win, "slice");
                ck(sr::read_index(tv) == win && sr::read(v) == win, "slice_view");
                const auto& ps = sp::detail::array_access::get_arrow_proxy(std::as_const(s)); const auto& pt = sp::detail::array_access::get_arrow_proxy(ts);
                ck(ps.length() == pt.length() && ps.offset() == pt.offset() && ps.null_count() == pt.null_count(), "slice fields");
            }
            else ck(sr::read(s) == win && sr::read(v) == win, "slice of the dynamic array");
            s.visit([&](const auto& z) -> int { ck(std::same_as<std::decay_t<decltype(z)>, A>, "a slice presents another layout"); return 0; });
        }
        vt::cover("wrappings compared");
    }
    template <class A> void typed(A&& made, const TD& t, const Col& c, Rng& r)
    {
        static_assert(sp::layout<A>);
        vt::cover("typed arrays");
        // by value
        {
            vt::label(std::string("by value|") + kname(t.k));
            A a(made);
            sp::array d(A{a});
            agree<A>(d, a, c, r, "by value", nullptr);
            const A* first = d.visit([](const auto& x) -> const A* { if constexpr (std::same_as<std::decay_t<decltype(x)>, A>) return &x; else return nullptr; });
            vt::check(first != &a, "by value, but the typed array is not copied");
            vt::label(std::string("copy of by value|") + kname(t.k));
            sp::array e(d);
            agree<A>(e, a, c, r, "copy of by value", nullptr);
            const A* second = e.visit([](const auto& x) -> const A* { if constexpr (std::same_as<std::decay_t<decltype(x)>, A>) return &x; else return nullptr; });
            vt::check(second != first, "a copy presents the same typed array");
            vt::check(shared_memory(d, e).empty(), "a copy shares memory");
            vt::label(std::string("move of by value|") + kname(t.k));
            sp::array f(std::move(d));
            agree<A>(f, *first, c, r, "moved", first);   // the typed array itself is transferred
            sp::array g;
            g = std::move(f);
            agree<A>(g, *first, c, r, "move-assigned", first);
            e = g;
            agree<A>(e, a, c, r, "copy-assigned", nullptr);
            sp::array other(sp::primitive_array<int8_t>(std::vector<int8_t>{1, 2}));
            other = e;
            agree<A>(other, a, c, r, "assigned over another layout", nullptr);
            other = sp::array(sp::primitive_array<int8_t>(std::vector<int8_t>{1, 2}));
            vt::check(other.size() == 2 && other.data_type() == sp::data_type::INT8, "another layout assigned over it");
        }
        // by pointer
        {
            vt::label(std::string("by pointer|") + kname(t.k));
            A a(made);
            {
                sp::array d(&a);
                agree<A>(d, a, c, r, "by pointer", &a);
                sp::array e(d);
                agree<A>(e, a, c, r, "copy of by pointer", &a);
                sp::array f(std::move(d));
                agree<A>(f, a, c, r, "move of by pointer", &a);
                sp::array z;
                z = f;
                agree<A>(z, a, c, r, "assigned by pointer", &a);
            }
            vt::check(sr::read_index(a) == c, "the array pointed to was altered");
        }
        // by shared pointer
        {
            vt::label(std::string("by shared pointer|") + kname(t.k));
            auto sh = std::make_shared<A>(made);
            {
                sp::array d(sh);
                vt::check(sh.use_count() == 2, "shared ownership is not taken");
                agree<A>(d, *sh, c, r, "by shared pointer", sh.get());
                sp::array e(d);
                vt::check(sh.use_count() == 3, "a copy does not share the ownership");
                agree<A>(e, *sh, c, r, "copy of by shared pointer", sh.get());
                sp::array f(std::move(d));
                vt::check(sh.use_count() == 3, "moving changes the ownership");
                agree<A>(f, *sh, c, r, "move of by shared pointer", sh.get());
            }
            vt::check(sh.use_count() == 1, "shared ownership is not given back");
            A* raw = sh.get();
            sp::array last(std::move(sh));
            agree<A>(last, *raw, c, r, "sole owner", raw);
        }
        // the wrapper itself
        {
            vt::label(std::string("wrapper|") + kname(t.k));
            A a(made);
            sp::array_wrapper_impl<A> w(&a);
            sp::array_wrapper& base = w;
            vt::check(&sp::unwrap_array<A>(base) == &a && &sp::unwrap_array<A>(std::as_const(base)) == &a && &w.get_wrapped() == &a, "unwrapping gives another array");
            vt::check(base.is_dictionary() == (t.k == K::DICT), "dictionary flag");
            vt::check(sp::array_size(base) == c.size(), "array_size");
            auto cl = base.clone();
            vt::check(cl->data_type() == base.data_type() && cl->is_dictionary() == base.is_dictionary() && &sp::unwrap_array<A>(*cl) == &a, "clone by pointer");
            sp::array_wrapper_impl<A> v(A{a});
            auto cv = v.clone();
            vt::check(&sp::unwrap_array<A>(*cv) != &v.get_wrapped() && sr::read_index(sp::unwrap_array<A>(*cv)) == c, "clone by value");
            for (size_t i = 0; i < c.size(); ++i) vt::check(sr::element(sp::array_element(*cv, i)) == c[i] && sp::array_has_value(*cv, i) == !c[i].null, "array_element");
            if constexpr (requires { a.push_back(a[0]); })
            {
                sp::array d(&a);
                if (!c.empty()) { a.pop_back(); vt::check(d.size() == c.size() - 1, "a change of the typed array does not show"); }
                vt::check(v.get_wrapped().size() == c.size() && sp::array_size(*cv) == c.size(), "a change of the source shows in a wrapped copy");
            }
        }
    }
}
struct Go
{
    const TD& t; const Col& c; Rng& r;
    template <class A> void operator()(A&& a) const { typed<std::decay_t<A>>(std::move(a), t, c, r); }
};
#if VT_PART == 1
void typed1(const TD& t, const Col& c, Rng& r)
{
    sb::build_typed_scalar(t, c, r, {}, Go{t, c, r});
    if (r.chance(1, 20))
    {
        // layouts the visitors do not present are refused, not misread
        vt::label("binary layouts");
        using B = sp::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, std::int32_t>;
        std::vector<std::vector<std::byte>> v;
        for (size_t i = r.below(5); i > 0; --i) v.push_back(std::vector<std::byte>(r.below(20), std::byte(r.below(256))));
        sp::array d{B(v)};
        vt::check(d.data_type() == sp::data_type::BINARY, "data type");
        try { d.visit([](const auto&) { return 0; }); vt::violation("visiting presents another layout"); } catch (const std::invalid_argument&) {}
        vt::cover("layouts refused");
    }
}
#elif VT_PART == 2
void typed2(const TD& t, const Col& c, Rng& r) { sb::build_typed_nested(t, c, r, {}, Go{t, c, r}); }
#else
void typed3(const TD& t, const Col& c, Rng& r) { sb::build_typed_dict(t, c, r, {}, Go{t, c, r}); }
#endif
#endif
