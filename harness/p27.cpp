// P27: dictionary, run-end, union, list and struct arrays decode their children.
// Arrays are built from physical children and physical keys, ends, type ids, offsets or sizes; the expectation is computed from
// the children's logical columns alone.
#include "scen.hpp"
#include "battery.hpp"
using namespace sc;
struct Kid { TD t; Col c; P o; };
sp::array make_dict(K, const std::vector<uint64_t>&, sp::array&&, const std::vector<bool>&, Rng&);
#if VT_PART == 1
template <class V, class F> sp::array validity_form(const std::vector<bool>& v, Rng& r, F&& f)
{
    std::vector<size_t> pos;
    for (size_t i = 0; i < v.size(); ++i) if (!v[i]) pos.push_back(i);
    switch (r.below(pos.empty() ? 4 : 3))
    {
        case 0: return f(v);
        case 1: return f(pos);
        case 2: { sp::validity_bitmap b(v.size(), true); for (auto p : pos) b.set(p, false); return f(std::move(b)); }
        default: return f();
    }
}
template <class IT> sp::array dict(const std::vector<uint64_t>& k, sp::array&& values, const std::vector<bool>& v, Rng& r)
{
    std::vector<IT> keys; for (auto x : k) keys.push_back(IT(x));
    return validity_form<IT>(v, r, [&](auto&&... vb) { return sp::array(sp::dictionary_encoded_array<IT>(sp::u8_buffer<IT>(keys), std::move(values), std::forward<decltype(vb)>(vb)...)); });
}
sp::array make_dict(K key, const std::vector<uint64_t>& k, sp::array&& values, const std::vector<bool>& v, Rng& r)
{
    switch (key)
    {
        case K::U8: return dict<uint8_t>(k, std::move(values), v, r); case K::I8: return dict<int8_t>(k, std::move(values), v, r);
        case K::U16: return dict<uint16_t>(k, std::move(values), v, r); case K::I16: return dict<int16_t>(k, std::move(values), v, r);
        case K::U32: return dict<uint32_t>(k, std::move(values), v, r); case K::I32: return dict<int32_t>(k, std::move(values), v, r);
        case K::U64: return dict<uint64_t>(k, std::move(values), v, r); default: return dict<int64_t>(k, std::move(values), v, r);
    }
}
#else
VT_MAIN_DEFS
namespace
{
    std::vector<P> g_keep; // foreign data must outlive the arrays that use it
    // a child: of any type and owned provenance, possibly a slice (so that it has an offset of its own)
    Kid kid(Rng& r, size_t n, std::optional<TD> fixed = std::nullopt)
    {
        Kid k;
        k.t = fixed ? *fixed : gen_t(r, r.pick({0, 0, 1, 1, 2}));
        const size_t lo = r.chance(1, 3) ? r.below(5) : 0, hi = r.chance(1, 3) ? r.below(5) : 0;
        Col big = gen_col(k.t, lo + n + hi, r, r.pick({0, 20, 50, 100}));
        k.o = obtain(k.t, big, r, r.pick({How::BUILT, How::BUILT, How::OWNED, How::REIMPORT}));
        g_keep.push_back(k.o);
        k.c = Col(big.begin() + long(lo), big.begin() + long(lo + n));
        if (lo || hi) { k.o->arr.emplace(k.o->arr->slice(lo, lo + n)); if (lo) vt::cover("children with an offset"); }
        return k;
    }
    std::vector<bool> flags(Rng& r, size_t n) { const unsigned p = r.pick({0, 20, 50, 100}); std::vector<bool> v; for (size_t i = 0; i < n; ++i) v.push_back(r.below(100) >= p); return v; }
    template <class F> sp::array with(const std::vector<bool>& v, Rng& r, F&& f)
    {
        Col c; for (bool b : v) { LV l; l.null = !b; c.push_back(l); }
        return sb::with_validity(c, r, {}, f);
    }
    // sub-values of nested elements
    // (nulls of a union that come from different children are different variants: no claim about their equality)
    void subvalues(const sp::array& a, const Col& want, const std::string& k, bool unions)
    {
        a.visit([&](const auto& t) -> int
        {
            using E = std::decay_t<decltype(t[0])>;
            if constexpr (std::same_as<E, sp::nullable<sp::list_value>> || std::same_as<E, sp::nullable<sp::struct_value>>)
                for (size_t i = 0; i < t.size() && i < want.size(); ++i)
                {
                    const auto e = t[i];
                    if (!e.has_value()) { vt::check(want[i].null, "nullness of a nested element", k); continue; }
                    const auto v = e.get();
                    if (!vt::check(v.size() == want[i].ch.size(), "size of a nested element", k)) continue;
                    for (size_t q = 0; q < v.size(); ++q) vt::check(sr::element(v[q]) == want[i].ch[q], "part of a nested element", k);
                    bool nan = has_nan(want[i]);
                    if (!nan) vt::check(v == v && !(v != v), "a nested element is not equal to itself", k);
                    for (size_t j = 0; j < t.size() && j < 6 && !nan && !unions; ++j)
                        if (!want[j].null && !has_nan(want[j]) && want[i] == want[j]) vt::check(v == t[j].get(), "equal nested elements compare different", k);
                    vt::cover("nested elements taken apart");
                }
            return 0;
        });
    }
    void verify(sp::array& a, const TD& t, const Col& want, Rng& r, const std::string& what)
    {
        bt::Problems p;
        bt::exercise(a, want, r, p, r.chance(1, 3));
        p.report("", what + " " + td_str(t) + " ");
        subvalues(a, want, what, td_str(t).find("union") != std::string::npos);
        // an independent reader decodes the same thing
        std::string err;
        auto c = decode(a, err);
        if (!c) vt::violation("structure refused by the independent reader", what + " " + err);
        else vt::check(*c == want, "the independent reader decodes something else", what + " want " + col_str(want) + " got " + col_str(*c));
        vt::cover("arrays decoded");
        vt::cover("elements decoded", want.size());
        // and inside something else
        if (r.chance(1, 4))
        {
            std::vector<sp::array> ch; ch.push_back(a);
            sp::array st{sp::struct_array(std::move(ch))};
            Col w; for (auto& x : want) w.push_back(struct_lv({x}));
            vt::check(sr::read(st) == w, "as the field of a struct", what);
            const size_t x = r.below(want.size() + 1), y = x + r.below(want.size() - x + 1);
            sp::array sl = st.slice(x, y);
            vt::check(sr::read(sl) == Col(w.begin() + long(x), w.begin() + long(y)), "as the field of a sliced struct", what);
            vt::cover("nested once more");
        }
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        Rng& r = cs.rng;
        const K k = r.pick({K::DICT, K::DICT, K::REE, K::REE, K::SUNION, K::DUNION, K::LIST, K::LLIST, K::LVIEW, K::LLVIEW, K::FSL, K::STRUCT});
        vt::label(std::string("make|") + kname(k));
        vt::cover(std::string("layout:") + kname(k));
        const bool L = g_large;
        const size_t n = L && k == K::REE ? r.pick({1, 10, 300, 4000}) : L && (nests(k) || k == K::STRUCT) ? r.pick({10, 300, 2000}) : L ? r.pick({1000, 4097, 4097, 33000, 66001}) : gen_len(r);
        TD t; t.k = k;
        Col want;
        g_keep.clear();
        struct Drop { ~Drop() { g_keep.clear(); } } drop;
        std::optional<sp::array> a;
        std::string phys;
        switch (k)
        {
            case K::DICT:
            {
                t.key = K(int(K::U8) + r.below(8));
                const size_t cap = t.key == K::I8 ? 128 : t.key == K::U8 ? 256 : !L ? 300 : t.key == K::I16 ? 32768 : t.key == K::U16 ? 65536 : 70000;
                const size_t m = L ? cap : n == 0 ? r.below(4) : r.chance(1, 6) ? cap : 1 + r.below(12);
                Kid d = kid(r, m);
                t.ch = {d.t};
                std::vector<bool> v = flags(r, n);
                std::vector<uint64_t> keys;
                for (size_t i = 0; i < n; ++i) { keys.push_back(r.chance(1, 8) ? m - 1 : r.below(m)); want.push_back(v[i] ? d.c[keys[i]] : null_lv()); phys += std::to_string(keys[i]) + (v[i] ? "," : "!"); }
                vt::cover("null keys", size_t(std::count(v.begin(), v.end(), false)));
                if (m == cap) vt::cover("full key range");
                a.emplace(make_dict(t.key, keys, std::move(*d.o->arr), v, r));
                break;
            }
            case K::REE:
            {
                t.key = L ? r.pick({K::I32, K::I64}) : r.pick({K::I16, K::I32, K::I64});
                std::vector<uint64_t> ends; uint64_t e = 0;
                for (size_t i = 0; i < n; ++i) { e += L && e < 150000 ? r.pick({1, 2, 255, 256, 257, 40000, 65535, 65536, 66000}) : r.pick({1, 1, 1, 2, 3, 8, 20}); ends.push_back(e); }
                Kid v = kid(r, n);
                t.ch = {v.t};
                for (size_t i = 0, q = 0; q < n; ++q) for (; i < ends[q]; ++i) want.push_back(v.c[q]);
                auto mk = [&](auto tag)
                {
                    using T = decltype(tag);
                    const size_t lo = r.chance(1, 3) ? r.below(4) : 0;
                    std::vector<T> x(lo, T(1)); x.insert(x.end(), ends.begin(), ends.end());
                    sp::array ea{sp::primitive_array<T>(x)};
                    if (lo) { ea = ea.slice(lo, x.size()); vt::cover("run ends with an offset"); }
                    a.emplace(sp::run_end_encoded_array(std::move(ea), std::move(*v.o->arr)));
                };
                switch (t.key)
                {
                    case K::I16: mk(int16_t{}); break; case K::I32: mk(int32_t{}); break; default: mk(int64_t{});
                }
                for (auto x : ends) phys += std::to_string(x) + ",";
                break;
            }
            case K::SUNION: case K::DUNION:
            {
                const size_t nc = 1 + r.below(4);
                std::vector<uint8_t> ids;
                bool ident = true;
                while (ids.size() < nc)
                {
                    const uint8_t x = r.chance(1, 2) ? uint8_t(ids.size()) : uint8_t(r.below(128));
                    if (std::find(ids.begin(), ids.end(), x) == ids.end()) { if (x != ids.size()) ident = false; ids.push_back(x); }
                }
                std::vector<Kid> kids; std::vector<sp::array> ch;
                for (size_t q = 0; q < nc; ++q) { kids.push_back(kid(r, k == K::SUNION ? n : L ? r.pick({9, 300, 66000}) : 1 + r.below(9))); t.ch.push_back(kids[q].t); t.ids.push_back(ids[q]); ch.push_back(std::move(*kids[q].o->arr)); }
                std::vector<uint8_t> types; std::vector<uint32_t> offs;
                for (size_t i = 0; i < n; ++i)
                {
                    const size_t s = r.below(nc), o = k == K::SUNION ? i : r.below(kids[s].c.size());
                    types.push_back(ids[s]); offs.push_back(uint32_t(o));
                    want.push_back(kids[s].c[o]);
                    phys += std::to_string(s) + ":" + std::to_string(o) + ",";
                }
                const bool skip = ident && r.chance(1, 2);
                if (k == K::SUNION) { if (skip) a.emplace(sp::sparse_union_array(std::move(ch), sp::u8_buffer<uint8_t>(types))); else a.emplace(sp::sparse_union_array(std::move(ch), sp::u8_buffer<uint8_t>(types), ids)); }
                else if (skip) a.emplace(sp::dense_union_array(std::move(ch), sp::u8_buffer<uint8_t>(types), sp::u8_buffer<uint32_t>(offs)));
                else a.emplace(sp::dense_union_array(std::move(ch), sp::u8_buffer<uint8_t>(types), sp::u8_buffer<uint32_t>(offs), ids));
                if (!ident) vt::cover("type ids other than the child positions");
                break;
            }
            case K::LIST: case K::LLIST:
            {
                std::vector<bool> v = flags(r, n);
                std::vector<size_t> off(1, r.chance(1, 2) ? 0 : r.below(5));
                for (size_t i = 0; i < n; ++i) off.push_back(off.back() + (L && off.back() < 66000 && r.chance(1, 8) ? r.pick({300, 65536, 70000}) : r.pick({0, 0, 1, 2, 5})));
                Kid c = kid(r, off.back() + (r.chance(1, 2) ? 0 : r.below(4)));
                t.ch = {c.t};
                for (size_t i = 0; i < n; ++i) want.push_back(v[i] ? list_lv(std::vector<LV>(c.c.begin() + long(off[i]), c.c.begin() + long(off[i + 1]))) : null_lv());
                for (auto x : off) phys += std::to_string(x) + ",";
                if (off[0]) vt::cover("first offset not zero");
                a.emplace(with(v, r, [&](auto&&... vb)
                {
                    if (k == K::LIST) return sp::array(sp::list_array(std::move(*c.o->arr), sp::list_array::offset_buffer_type(std::vector<int32_t>(off.begin(), off.end())), std::forward<decltype(vb)>(vb)...));
                    return sp::array(sp::big_list_array(std::move(*c.o->arr), sp::big_list_array::offset_buffer_type(std::vector<int64_t>(off.begin(), off.end())), std::forward<decltype(vb)>(vb)...));
                }));
                break;
            }
            case K::LVIEW: case K::LLVIEW:
            {
                std::vector<bool> v = flags(r, n);
                Kid c = kid(r, L ? r.pick({300, 66000}) : r.below(20));
                t.ch = {c.t};
                std::vector<size_t> off, sz;
                for (size_t i = 0; i < n; ++i)
                {
                    off.push_back(r.below(c.c.size() + 1)); sz.push_back(r.below(std::min<size_t>(c.c.size() - off[i], 6) + 1));
                    want.push_back(v[i] ? list_lv(std::vector<LV>(c.c.begin() + long(off[i]), c.c.begin() + long(off[i] + sz[i]))) : null_lv());
                    phys += std::to_string(off[i]) + "+" + std::to_string(sz[i]) + ",";
                }
                a.emplace(with(v, r, [&](auto&&... vb)
                {
                    auto go = [&](auto* tag) { using A = std::remove_pointer_t<decltype(tag)>; using B = typename A::offset_buffer_type; using T = typename B::value_type;
                        return sp::array(A(std::move(*c.o->arr), B(std::vector<T>(off.begin(), off.end())), typename A::size_buffer_type(std::vector<T>(sz.begin(), sz.end())), std::forward<decltype(vb)>(vb)...)); };
                    if (k == K::LVIEW) return go(static_cast<sp::list_view_array*>(nullptr));
                    return go(static_cast<sp::big_list_view_array*>(nullptr));
                }));
                break;
            }
            case K::FSL:
            {
                t.fsl = L ? int(r.pick({1, 2, 3})) : int(1 + r.below(5));
                std::vector<bool> v = flags(r, n);
                Kid c = kid(r, n * size_t(t.fsl));
                t.ch = {c.t};
                for (size_t i = 0; i < n; ++i) want.push_back(v[i] ? list_lv(std::vector<LV>(c.c.begin() + long(i * size_t(t.fsl)), c.c.begin() + long((i + 1) * size_t(t.fsl)))) : null_lv());
                a.emplace(with(v, r, [&](auto&&... vb) { return sp::array(sp::fixed_sized_list_array(uint64_t(t.fsl), std::move(*c.o->arr), std::forward<decltype(vb)>(vb)...)); }));
                break;
            }
            default:
            {
                std::vector<bool> v = flags(r, n);
                const size_t nc = 1 + r.below(4);
                std::vector<Kid> kids; std::vector<sp::array> ch;
                for (size_t q = 0; q < nc; ++q) { kids.push_back(kid(r, n)); t.ch.push_back(kids[q].t); ch.push_back(std::move(*kids[q].o->arr)); }
                for (size_t i = 0; i < n; ++i)
                {
                    std::vector<LV> row; for (auto& q : kids) row.push_back(q.c[i]);
                    want.push_back(v[i] ? struct_lv(row) : null_lv());
                }
                a.emplace(with(v, r, [&](auto&&... vb) { return sp::array(sp::struct_array(std::move(ch), std::forward<decltype(vb)>(vb)...)); }));
            }
        }
        vt::distinct(vt::fnv(td_str(t) + phys + col_str(want)));
        if (r.chance(1, 100)) vt::sample(td_str(t) + " " + phys + " " + col_str(want));
        vt::label(std::string("decode|") + kname(k));
        verify(*a, t, want, r, "whole");
        vt::label(std::string("decode slice|") + kname(k));
        const size_t x = r.below(want.size() + 1), y = x + r.below(want.size() - x + 1);
        sp::array s = r.chance(1, 2) ? a->slice(x, y) : a->slice_view(x, y);
        verify(s, t, Col(want.begin() + long(x), want.begin() + long(y)), r, "slice");
    });
}
#endif
