// Builds sparrow arrays from the logical model through the public constructors, with random constructor forms.
#pragma once
#include "arrow_model.hpp"
#include "sparrow/array.hpp"
#include "sparrow/layout/dispatch.hpp"
#include "sparrow/layout/variable_size_binary_layout/variable_size_binary_array.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"

namespace sb
{
    using namespace am;
    namespace sp = sparrow;

    // the constructor forms accept validity as: nothing, bitset, range of bools, positions of nulls
    enum class VF { NONE, BITSET, BOOLS, POS };
    inline const char* vf_name(VF v) { return v == VF::NONE ? "none" : v == VF::BITSET ? "bitset" : v == VF::BOOLS ? "bools" : "positions"; }
    struct Opts { std::optional<VF> vf; };

    inline std::vector<bool> validity(const Col& c) { std::vector<bool> v; for (auto& x : c) v.push_back(!x.null); return v; }
    inline bool any_null(const Col& c) { for (auto& x : c) if (x.null) return true; return false; }
    inline sp::validity_bitmap bitset_of(const Col& c)
    {
        sp::validity_bitmap b(c.size(), true);
        for (size_t i = 0; i < c.size(); ++i) if (c[i].null) b.set(i, false);
        return b;
    }
    // call f with one of the validity forms
    template <class F> auto with_validity(const Col& c, Rng& r, const Opts& o, F&& f)
    {
        VF vf = o.vf ? *o.vf : r.pick({VF::NONE, VF::BITSET, VF::BOOLS, VF::POS});
        if (vf == VF::NONE && any_null(c)) vf = VF::BOOLS;
        switch (vf)
        {
            case VF::NONE: return f();
            case VF::BITSET: return f(bitset_of(c));
            case VF::BOOLS: return f(validity(c));
            default:
            {
                std::vector<size_t> pos;
                for (size_t i = 0; i < c.size(); ++i) if (c[i].null) pos.push_back(i);
                return f(std::move(pos));
            }
        }
    }
    template <class T> T pod(const LV& v, Rng& r)
    {
        T x;
        LV g = v;
        if constexpr (std::same_as<T, bool>) return v.null ? r.chance(1, 2) : atom_bytes(v)[0] != 0;
        else
        {
            if (v.null) { uint64_t z = r.next(); memcpy(&x, &z, sizeof(T)); }
            else memcpy(&x, atom_bytes(v).data(), sizeof(T));
            return x;
        }
    }
    template <class T> std::vector<T> pods(const Col& c, Rng& r)
    {
        std::vector<T> v;
        for (auto& x : c) v.push_back(pod<T>(x, r));
        return v;
    }

    sp::array build(const TD& t, const Col& c, Rng& r, const Opts& o = {});

    template <class T> sp::primitive_array<T> primitive(const Col& c, Rng& r, const Opts& o = {})
    {
        auto v = pods<T>(c, r);
        return with_validity(c, r, o, [&](auto&&... vb) {
            if constexpr (sizeof...(vb) == 0) return sp::primitive_array<T>(v);
            else return sp::primitive_array<T>(v, std::forward<decltype(vb)>(vb)...);
        });
    }
    template <class A> A strings(const Col& c, Rng& r, const Opts& o = {})
    {
        using ST = typename A::inner_value_type;
        std::vector<ST> v;
        for (auto& x : c)
        {
            std::string s = x.null ? (r.chance(1, 3) ? "hidden" : "") : std::string(atom_bytes(x));
            ST e;
            for (char ch : s) e.push_back(typename ST::value_type(ch));
            v.push_back(e);
        }
        return with_validity(c, r, o, [&](auto&&... vb) {
            if constexpr (sizeof...(vb) == 0) return A(v);
            else return A(v, std::forward<decltype(vb)>(vb)...);
        });
    }
    inline sp::null_array nulls(size_t n)
    {
        ArrowSchema s = sp::make_arrow_schema(std::string("n"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr);
        ArrowArray a{};
        try { a = sp::make_arrow_array(int64_t(n), int64_t(n), 0, std::vector<sp::buffer<uint8_t>>{}, 0, nullptr, nullptr); }
        catch (...) { s.release(&s); throw; }
        return sp::null_array(sp::arrow_proxy(std::move(a), std::move(s)));
    }
    template <class A> A list(const TD& t, const Col& c, Rng& r, const Opts& o = {})
    {
        Col flat;
        std::vector<size_t> sizes;
        const bool junk = r.chance(1, 3);
        for (auto& x : c)
        {
            size_t n = 0;
            if (!x.null) { flat.insert(flat.end(), x.ch.begin(), x.ch.end()); n = x.ch.size(); }
            else if (junk && r.chance(1, 2)) { flat.push_back(gen_value(t.ch[0], r, 30)); n = 1; }
            sizes.push_back(n);
        }
        if (junk) flat.push_back(gen_value(t.ch[0], r, 30));
        return with_validity(c, r, o, [&](auto&&... vb) {
            return A(build(t.ch[0], flat, r), A::offset_from_sizes(sizes), std::forward<decltype(vb)>(vb)...);
        });
    }
    template <class A, class OT> A list_view(const TD& t, const Col& c, Rng& r, const Opts& o = {})
    {
        Col flat;
        std::vector<OT> off(c.size()), sz(c.size());
        const bool rev = r.chance(1, 2);
        for (size_t k = 0; k < c.size(); ++k)
        {
            size_t i = rev ? c.size() - 1 - k : k;
            if (c[i].null) { off[i] = OT(r.below(flat.size() + 1)); sz[i] = 0; continue; }
            off[i] = OT(flat.size());
            sz[i] = OT(c[i].ch.size());
            flat.insert(flat.end(), c[i].ch.begin(), c[i].ch.end());
        }
        return with_validity(c, r, o, [&](auto&&... vb) {
            return A(build(t.ch[0], flat, r), typename A::offset_buffer_type(off), typename A::size_buffer_type(sz), std::forward<decltype(vb)>(vb)...);
        });
    }
    inline sp::fixed_sized_list_array fsl(const TD& t, const Col& c, Rng& r, const Opts& o = {})
    {
        Col flat;
        for (auto& x : c)
            for (int q = 0; q < t.fsl; ++q) flat.push_back(x.null ? gen_value(t.ch[0], r, 30) : x.ch[size_t(q)]);
        return with_validity(c, r, o, [&](auto&&... vb) {
            return sp::fixed_sized_list_array(uint64_t(t.fsl), build(t.ch[0], flat, r), std::forward<decltype(vb)>(vb)...);
        });
    }
    inline sp::struct_array structs(const TD& t, const Col& c, Rng& r, const Opts& o = {})
    {
        std::vector<sp::array> ch;
        for (size_t q = 0; q < t.ch.size(); ++q)
        {
            Col cc;
            for (auto& x : c) cc.push_back(x.null ? gen_value(t.ch[q], r, 30) : x.ch[q]);
            ch.push_back(build(t.ch[q], cc, r));
        }
        return with_validity(c, r, o, [&](auto&&... vb) { return sp::struct_array(std::move(ch), std::forward<decltype(vb)>(vb)...); });
    }
    inline bool needs_sel(const TD& t) { return t.k == K::SUNION || t.k == K::DUNION || (t.k == K::REE && needs_sel(t.ch[0])); }
    template <class IT> sp::dictionary_encoded_array<IT> dict(const TD& t, const Col& c, Rng& r, const Opts& o = {})
    {
        Col d, kc = c;
        std::vector<IT> keys;
        for (size_t i = 0; i < c.size(); ++i)
        {
            if (r.chance(1, 5) && d.size() < 50) d.push_back(gen_value(t.ch[0], r, 30));
            if (c[i].null && ((needs_sel(t.ch[0]) && c[i].sel.empty()) || r.chance(2, 3))) { keys.push_back(IT(0)); continue; }
            size_t q = 0;
            while (q < d.size() && !(d[q] == c[i] && d[q].sel == c[i].sel)) ++q;
            if (q == d.size()) d.push_back(c[i]);
            keys.push_back(IT(q));
            kc[i].null = false;
        }
        return with_validity(kc, r, o, [&](auto&&... vb) {
            return sp::dictionary_encoded_array<IT>(sp::u8_buffer<IT>(keys), build(t.ch[0], d, r), std::forward<decltype(vb)>(vb)...);
        });
    }
    inline sp::run_end_encoded_array ree(const TD& t, const Col& c, Rng& r)
    {
        Col vals; std::vector<uint64_t> ends;
        for (size_t i = 0; i < c.size(); ++i)
        {
            if (!vals.empty() && vals.back() == c[i] && vals.back().sel == c[i].sel && r.chance(4, 5)) ends.back() = i + 1;
            else { vals.push_back(c[i]); ends.push_back(i + 1); }
        }
        auto mk = [&](auto tag)
        {
            using T = decltype(tag);
            std::vector<T> e(ends.begin(), ends.end());
            return sp::run_end_encoded_array(sp::array(sp::primitive_array<T>(e)), build(t.ch[0], vals, r));
        };
        switch (t.key)
        {
            case K::U16: return mk(uint16_t{}); case K::U32: return mk(uint32_t{}); case K::U64: return mk(uint64_t{});
            case K::I16: return mk(int16_t{}); case K::I32: return mk(int32_t{}); default: return mk(int64_t{});
        }
    }
    inline std::pair<std::vector<uint8_t>, bool> mapping(const TD& t, Rng& r)
    {
        std::vector<uint8_t> m; bool ident = true;
        for (size_t i = 0; i < t.ids.size(); ++i) { m.push_back(uint8_t(t.ids[i])); if (t.ids[i] != int(i)) ident = false; }
        return {m, ident && r.chance(1, 2)};
    }
    inline sp::sparse_union_array sunion(const TD& t, const Col& c, Rng& r)
    {
        std::vector<uint8_t> ids; std::vector<Col> cc(t.ch.size());
        for (auto& x : c)
        {
            size_t s = size_t(x.sel.at(0));
            ids.push_back(uint8_t(t.ids[s]));
            for (size_t q = 0; q < t.ch.size(); ++q) cc[q].push_back(q == s ? unsel(x) : gen_value(t.ch[q], r, 30));
        }
        std::vector<sp::array> ch;
        for (size_t q = 0; q < t.ch.size(); ++q) ch.push_back(build(t.ch[q], cc[q], r));
        auto [m, skip] = mapping(t, r);
        if (skip) return sp::sparse_union_array(std::move(ch), sp::u8_buffer<uint8_t>(ids));
        return sp::sparse_union_array(std::move(ch), sp::u8_buffer<uint8_t>(ids), m);
    }
    inline sp::dense_union_array dunion(const TD& t, const Col& c, Rng& r)
    {
        std::vector<uint8_t> ids; std::vector<uint32_t> off; std::vector<Col> cc(t.ch.size());
        for (auto& x : c)
        {
            size_t s = size_t(x.sel.at(0));
            ids.push_back(uint8_t(t.ids[s]));
            if (r.chance(1, 6)) cc[s].push_back(gen_value(t.ch[s], r, 30));
            off.push_back(uint32_t(cc[s].size()));
            cc[s].push_back(unsel(x));
        }
        std::vector<sp::array> ch;
        for (size_t q = 0; q < t.ch.size(); ++q) ch.push_back(build(t.ch[q], cc[q], r));
        auto [m, skip] = mapping(t, r);
        if (skip) return sp::dense_union_array(std::move(ch), sp::u8_buffer<uint8_t>(ids), sp::u8_buffer<uint32_t>(off));
        return sp::dense_union_array(std::move(ch), sp::u8_buffer<uint8_t>(ids), sp::u8_buffer<uint32_t>(off), m);
    }

    // f(typed array rvalue)
    template <class F> auto build_typed_scalar(const TD& t, const Col& c, Rng& r, const Opts& o, F&& f)
    {
        switch (t.k)
        {
            case K::NA: return f(nulls(c.size()));
            case K::BOOL: return f(primitive<bool>(c, r, o));
            case K::U8: return f(primitive<uint8_t>(c, r, o));
            case K::I8: return f(primitive<int8_t>(c, r, o));
            case K::U16: return f(primitive<uint16_t>(c, r, o));
            case K::I16: return f(primitive<int16_t>(c, r, o));
            case K::U32: return f(primitive<uint32_t>(c, r, o));
            case K::I32: return f(primitive<int32_t>(c, r, o));
            case K::U64: return f(primitive<uint64_t>(c, r, o));
            case K::I64: return f(primitive<int64_t>(c, r, o));
            case K::F16: return f(primitive<sp::float16_t>(c, r, o));
            case K::F32: return f(primitive<float>(c, r, o));
            case K::F64: return f(primitive<double>(c, r, o));
            case K::STR: return f(strings<sp::string_array>(c, r, o));
            default: fprintf(stderr, "cannot build %s\n", kname(t.k)); abort();
        }
    }
    template <class F> auto build_typed_nested(const TD& t, const Col& c, Rng& r, const Opts& o, F&& f)
    {
        switch (t.k)
        {
            case K::LIST: return f(list<sp::list_array>(t, c, r, o));
            case K::LLIST: return f(list<sp::big_list_array>(t, c, r, o));
            case K::LVIEW: return f(list_view<sp::list_view_array, uint32_t>(t, c, r, o));
            case K::LLVIEW: return f(list_view<sp::big_list_view_array, uint64_t>(t, c, r, o));
            case K::FSL: return f(fsl(t, c, r, o));
            case K::STRUCT: return f(structs(t, c, r, o));
            case K::REE: return f(ree(t, c, r));
            case K::SUNION: return f(sunion(t, c, r));
            case K::DUNION: return f(dunion(t, c, r));
            default: fprintf(stderr, "cannot build %s\n", kname(t.k)); abort();
        }
    }
    template <class F> auto build_typed_dict(const TD& t, const Col& c, Rng& r, const Opts& o, F&& f)
    {
        switch (t.key)
        {
            case K::U8: return f(dict<uint8_t>(t, c, r, o)); case K::I8: return f(dict<int8_t>(t, c, r, o));
            case K::U16: return f(dict<uint16_t>(t, c, r, o)); case K::I16: return f(dict<int16_t>(t, c, r, o));
            case K::U32: return f(dict<uint32_t>(t, c, r, o)); case K::I32: return f(dict<int32_t>(t, c, r, o));
            case K::U64: return f(dict<uint64_t>(t, c, r, o)); default: return f(dict<int64_t>(t, c, r, o));
        }
    }
    inline bool nested_kind(K k)
    {
        return k == K::LIST || k == K::LLIST || k == K::LVIEW || k == K::LLVIEW || k == K::FSL || k == K::STRUCT || k == K::REE || k == K::SUNION || k == K::DUNION;
    }
    template <class F> auto build_typed(const TD& t, const Col& c, Rng& r, const Opts& o, F&& f)
    {
        if (t.k == K::DICT) return build_typed_dict(t, c, r, o, f);
        if (nested_kind(t.k)) return build_typed_nested(t, c, r, o, f);
        return build_typed_scalar(t, c, r, o, f);
    }
    // a dynamic array wrapping the typed one by value, by raw pointer (kept alive by *keep) or by shared pointer
    enum class Wrap { VALUE, POINTER, SHARED };
    struct Wrapper
    {
        Wrap w; std::shared_ptr<void>* keep;
        template <class A> sp::array operator()(A&& a) const
        {
            if (w == Wrap::VALUE) return sp::array(std::move(a));
            auto sh = std::make_shared<A>(std::move(a));
            if (w == Wrap::SHARED) return sp::array(sh);
            A* raw = sh.get();
            *keep = sh;
            return sp::array(raw);
        }
    };
    // defined in lib/model.cpp
    sp::array build_scalar(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w);
    sp::array build_nested(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w);
    sp::array build_dict(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w);
    inline sp::array build_wrapped(const TD& t, const Col& c, Rng& r, const Opts& o, Wrap w, std::shared_ptr<void>* keep)
    {
        const Wrapper wr{w, keep};
        if (t.k == K::DICT) return build_dict(t, c, r, o, wr);
        if (nested_kind(t.k)) return build_nested(t, c, r, o, wr);
        return build_scalar(t, c, r, o, wr);
    }
    inline sp::array build(const TD& t, const Col& c, Rng& r, const Opts& o) { return build_wrapped(t, c, r, o, Wrap::VALUE, nullptr); }
}
