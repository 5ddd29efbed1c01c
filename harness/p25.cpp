// P25: formats, names, metadata and flags survive everything that preserves an array; formats map to data types and back.
#include "formats.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"
#include "sparrow/array_factory.hpp"
#include <set>
#if VT_PART == 0
VT_MAIN_DEFS
#endif
using namespace sc;
namespace
{
    std::string type_name(sp::data_type t)
    {
        using D = sp::data_type;
        switch (t)
        {
#define N(x) case D::x: return #x;
            N(NA) N(BOOL) N(UINT8) N(INT8) N(UINT16) N(INT16) N(UINT32) N(INT32) N(UINT64) N(INT64) N(HALF_FLOAT) N(FLOAT) N(DOUBLE) N(STRING) N(BINARY) N(TIMESTAMP) N(LIST) N(LARGE_LIST)
            N(LIST_VIEW) N(LARGE_LIST_VIEW) N(FIXED_SIZED_LIST) N(STRUCT) N(MAP) N(STRING_VIEW) N(BINARY_VIEW) N(DENSE_UNION) N(SPARSE_UNION) N(RUN_ENCODED) N(DECIMAL) N(FIXED_WIDTH_BINARY)
#undef N
        }
        return "unknown " + std::to_string(int(t));
    }
    std::string type_of(const TD& t)
    {
        switch (t.k == K::DICT ? t.key : t.k)
        {
            case K::NA: return "NA"; case K::BOOL: return "BOOL"; case K::U8: return "UINT8"; case K::I8: return "INT8"; case K::U16: return "UINT16"; case K::I16: return "INT16";
            case K::U32: return "UINT32"; case K::I32: return "INT32"; case K::U64: return "UINT64"; case K::I64: return "INT64"; case K::F16: return "HALF_FLOAT"; case K::F32: return "FLOAT";
            case K::F64: return "DOUBLE"; case K::STR: return "STRING"; case K::BIN: return "BINARY"; case K::LIST: return "LIST"; case K::LLIST: return "LARGE_LIST"; case K::LVIEW: return "LIST_VIEW";
            case K::LLVIEW: return "LARGE_LIST_VIEW"; case K::FSL: return "FIXED_SIZED_LIST"; case K::STRUCT: return "STRUCT"; case K::REE: return "RUN_ENCODED"; case K::SUNION: return "SPARSE_UNION";
            case K::DUNION: return "DENSE_UNION"; case K::SVIEW: return "STRING_VIEW"; case K::BVIEW: return "BINARY_VIEW"; default: return "?";
        }
    }
    // the signature a foreign schema of this type has (scen.hpp's schema_sig)
    std::string sig_of(const TD& t)
    {
        std::string o = fp::format_of(t) + "|" + (t.name ? "n:" + *t.name : "-") + "|" + (t.meta ? "m:" + *t.meta : "-") + "|" + std::to_string(t.flags);
        if (t.k == K::DICT) return o + "<" + sig_of(t.ch[0]) + ">";
        if (t.k == K::REE) { TD e; e.k = t.key; e.name = "run_ends"; o += "(" + sig_of(e) + ")"; }
        for (auto& c : t.ch) o += "(" + sig_of(c) + ")";
        return o;
    }
    std::string opt(std::optional<std::string_view> v) { return v ? "'" + std::string(*v) + "'" : "absent"; }
    // the proxy's getters say what the structure says, at every level
    void getters(const sp::arrow_proxy& p, const std::string& ctx)
    {
        const ArrowSchema& s = p.schema();
        auto sv = [](const char* c) -> std::optional<std::string_view> { if (c) return std::string_view(c); return std::nullopt; };
        vt::check(p.format() == std::string_view(s.format), "getter-format", ctx);
        vt::check(opt(p.name()) == opt(sv(s.name)), "getter-name", ctx + ": " + opt(p.name()) + " for " + opt(sv(s.name)));
        vt::check(opt(p.metadata()) == opt(sv(s.metadata)), "getter-metadata", ctx + ": " + opt(p.metadata()) + " for " + opt(sv(s.metadata)));
        int64_t f = 0;
        for (auto x : p.flags()) { vt::check(!(f & int64_t(x)), "flag-listed-twice", ctx); f |= int64_t(x); }
        vt::check(f == s.flags, "getter-flags", ctx + vt::fmt(" %lld for %lld", (long long) f, (long long) s.flags));
        vt::check(sp::to_ArrowFlag_value(p.flags()) == s.flags, "flags-to-value", ctx);
        for (auto& d : ff::valid()) if (d.f == s.format) vt::check(type_name(p.data_type()) == d.type, "proxy-data-type", ctx + ": " + type_name(p.data_type()) + " for " + s.format);
        if (!vt::check(p.children().size() == size_t(s.n_children) && (p.dictionary() != nullptr) == (s.dictionary != nullptr), "getter-children", ctx)) return;
        for (auto& c : p.children()) getters(c, ctx);
        if (p.dictionary()) getters(*p.dictionary(), ctx);
        vt::cover("schema nodes compared");
    }
    void verify(sp::array& a, const std::string& want, const std::string& type, const std::string& ctx)
    {
        const std::string got = schema_sig(a);
        vt::check(got == want, "schema-changed", ctx + ": want " + want + " got " + got);
        auto& p = sp::detail::array_access::get_arrow_proxy(a);
        getters(p, ctx);
        vt::check(type_name(a.data_type()) == type, "array-data-type", ctx + ": " + type_name(a.data_type()) + " wanted " + type);
        vt::cover("schemas compared");
    }
    void drop_run_ends(TD& t)
    {
        if (t.k == K::REE && t.ch.size() == 2) t.ch.erase(t.ch.begin());
        for (auto& c : t.ch) drop_run_ends(c);
    }

    void schemas(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("obtain");
        TD t = gen_t(r);
        const size_t n = gen_len(r);
        Col c = gen_col(t, n, r, 30);
        How h = gen_how(r);
        const bool foreign = h == How::OWNED || h == How::LENT || h == How::HALF;
        P o = obtain(t, c, r, h);
        const std::string k = kname(t.k);
        std::string ctx = o->how;
        std::string want = foreign ? sig_of(t) : schema_sig(*o->arr), type = type_of(t);
        vt::label("obtained|" + k);
        if (!foreign)
        {
            // what the library built: the formats are those of the type
            TD plain;
            std::string err;
            auto d = decode(*o->arr, err, &plain);
            if (!d) vt::violation("built-schema-rejected", ctx + " " + td_str(t) + ": " + err);
            else { drop_run_ends(plain); vt::check(td_str(plain) == td_str(t), "built-schema-has-another-type", td_str(t) + " got " + td_str(plain)); }
        }
        verify(*o->arr, want, type, ctx + " " + td_str(t));
        vt::distinct(vt::fnv(ctx + want));
        if (r.chance(1, 60)) vt::sample(ctx + " " + want);
        std::vector<P> keep;
        std::vector<std::shared_ptr<sp::array>> arrays;   // views outlived by what they view
        sp::array* cur = &*o->arr;
        bool shallow = o->shallow;
        for (size_t step = 0, steps = 1 + r.below(6); step < steps; ++step)
        {
            const int op = int(r.below(12));
            const size_t len = cur->size();
            const size_t b = r.below(len + 1), e = b + r.below(len - b + 1);
            auto put = [&](sp::array&& x) { arrays.push_back(std::make_shared<sp::array>(std::move(x))); cur = arrays.back().get(); };
            switch (op)
            {
                case 0: vt::label("copy|" + k); put(sp::array(*cur)); ctx += "/copy"; break;
                case 1:
                {
                    vt::label("assign|" + k);
                    keep.push_back(gen_obj(r));
                    *keep.back()->arr = *cur;
                    cur = &*keep.back()->arr;
                    ctx += "/assigned";
                    break;
                }
                case 2: vt::label("move|" + k); put(std::move(*cur)); ctx += "/move"; break;
                case 3: vt::label("slice|" + k); put(cur->slice(b, e)); shallow = false; ctx += "/slice"; break;
                case 4: vt::label("slice_view|" + k); put(cur->slice_view(b, e)); shallow = true; ctx += "/view"; break;
                case 5:
                {
                    vt::label("proxy-copy|" + k);
                    sp::arrow_proxy p(sp::detail::array_access::get_arrow_proxy(*cur));
                    auto aa = p.extract_array(); auto ss = p.extract_schema();
                    put(sp::array(std::move(aa), std::move(ss)));
                    shallow = false; ctx += "/proxy";
                    break;
                }
                case 6: case 7:
                {
                    vt::label("extract|" + k);
                    sp::array x(*cur);
                    if (shallow || !sp::owns_arrow_array(x)) break;
                    auto [aa, ss] = sp::extract_arrow_structures(std::move(x));
                    vt::check(schema_sig(&ss) == want, "extracted-schema", ctx + ": " + want + " got " + schema_sig(&ss));
                    put(sp::array(std::move(aa), std::move(ss)));
                    ctx += "/extract";
                    break;
                }
                case 8:
                {
                    vt::label("batch|" + k);
                    std::vector<sp::array> cols; cols.push_back(*cur);
                    sp::record_batch rb(std::vector<std::string>{"c"}, std::move(cols));
                    sp::record_batch rc(rb);
                    put(sp::array(rc.get_column("c")));
                    ctx += "/batch";
                    break;
                }
                case 9: case 10:   // nested in another array
                {
                    if (shallow) break;
                    vt::label("nest|" + k);
                    std::vector<sp::array> ch;
                    ch.push_back(sp::array(*cur));
                    const std::string old = want;
                    std::string inside;
                    sp::array outer;
                    const int w = int(r.below(4));
                    if (w == 0) { outer = sp::array(sp::struct_array(std::move(ch))); type = "STRUCT"; }
                    else if (w == 1) { outer = sp::array(sp::list_array(std::move(ch[0]), sp::list_array::offset_from_sizes(std::vector<size_t>{len}))); type = "LIST"; }
                    else if (w == 2) { outer = sp::array(sp::fixed_sized_list_array(1, std::move(ch[0]))); type = "FIXED_SIZED_LIST"; }
                    else if (!len) break;
                    else { outer = sp::array(sp::dictionary_encoded_array<int32_t>(sp::dictionary_encoded_array<int32_t>::keys_buffer_type(std::vector<int32_t>(3, 0)), std::move(ch[0]))); type = "INT32"; }
                    auto* s = sp::get_arrow_schema(outer);
                    inside = schema_sig(w == 3 ? s->dictionary : s->children[0]);
                    vt::check(inside == old, "nested-schema-changed", ctx + ": " + old + " got " + inside);
                    put(std::move(outer));
                    want = schema_sig(*cur);
                    ctx += "/nested";
                    vt::cover("nestings");
                    break;
                }
                default:   // the typed array behind it
                {
                    vt::label("typed-copy|" + k);
                    auto x = cur->visit([&](const auto& ty) { auto cp = ty; return sp::array(std::move(cp)); });
                    put(std::move(x));
                    shallow = false;
                    ctx += "/typed";
                    break;
                }
            }
            vt::label("verify|" + k);
            verify(*cur, want, type, ctx + " " + td_str(t));
        }
        vt::label("end");
        while (!arrays.empty()) arrays.pop_back();
        for (auto& x : keep) { auto l = x->lent; x->arr.reset(); for (auto& s : l) s->release(); }
        auto lent = o->lent;
        o->arr.reset();
        for (auto& s : lent) s->release();
    }

    void mapping(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("mapping");
        for (auto& f : ff::valid())
        {
            // the library has one data type for everything temporal
            const std::string got = type_name(sp::format_to_data_type(f.f));
            vt::check(got == f.type, "format-maps-to-another-type", f.f + " -> " + got);
            vt::check(type_name(sp::data_descriptor(std::string_view(f.f)).id()) == f.type, "descriptor", f.f);
        }
        for (int i = 0; i < 200; ++i)
        {
            const std::string f = ff::nonsense(r);
            const std::string got = type_name(sp::format_to_data_type(f));
            vt::check(got == "NA", "nonsense-format-accepted", "'" + f + "' -> " + got);
            vt::distinct(vt::fnv("nonsense" + f));
        }
        // types to formats: without loss, for at least the types with a fixed format the library promises
        static const std::set<std::string> must = {"NA", "BOOL", "UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64", "HALF_FLOAT", "FLOAT", "DOUBLE", "STRING", "BINARY", "TIMESTAMP", "LIST", "LARGE_LIST"};
        static const std::set<std::string> ints = {"UINT8", "INT8", "UINT16", "INT16", "UINT32", "INT32", "UINT64", "INT64"};
        std::set<std::string> formats;
        for (int i = 0; i < 64; ++i)
        {
            const auto d = sp::data_type(i);
            const std::string n = type_name(d);
            std::string f, how;
            try { f = std::string(sp::data_type_to_format(d)); }
            catch (const std::runtime_error&) { how = "refused"; }
            if (must.count(n)) vt::check(how.empty(), "type-has-no-format", n);
            if (how.empty())
            {
                vt::check(sp::format_to_data_type(f) == d, "type-to-format-and-back", n + " -> " + f + " -> " + type_name(sp::format_to_data_type(f)));
                bool known = false;
                for (auto& v : ff::valid()) known = known || (v.f == f && v.type == n);
                vt::check(known, "format-is-not-arrow's", n + " -> " + f);
                vt::check(formats.insert(f).second, "two-types-one-format", f);
                vt::check(sp::data_type_to_format(d).data()[f.size()] == 0, "format-not-terminated", f);
            }
            vt::check(sp::data_type_is_integer(d) == (ints.count(n) > 0), "is-integer", n);
            vt::check(sp::data_type_is_primitive(d) == (ints.count(n) > 0 || n == "BOOL" || n == "HALF_FLOAT" || n == "FLOAT" || n == "DOUBLE"), "is-primitive", n);
            vt::cover("types mapped");
        }
        // C++ types
        auto cpp = [&](auto v, const char* n)
        {
            using T = decltype(v);
            vt::check(type_name(sp::arrow_type_id<T>()) == n && type_name(sp::arrow_type_id(v)) == n, "type-id-of-c++-type", n);
            vt::check(sp::format_to_data_type(sp::data_type_format_of<T>()) == sp::arrow_type_id<T>(), "format-of-c++-type", n);
            if constexpr (std::is_arithmetic_v<T> || std::is_same_v<T, sp::float16_t>)
            {
                std::vector<T> x(r.below(4));
                sp::array a{sp::primitive_array<T>(x)};
                vt::check(type_name(a.data_type()) == n, "array-of-c++-type", n);
            }
            vt::cover("c++ types");
        };
        cpp(bool(), "BOOL"); cpp(uint8_t(), "UINT8"); cpp(int8_t(), "INT8"); cpp(uint16_t(), "UINT16"); cpp(int16_t(), "INT16"); cpp(uint32_t(), "UINT32"); cpp(int32_t(), "INT32");
        cpp(uint64_t(), "UINT64"); cpp(int64_t(), "INT64"); cpp(float(), "FLOAT"); cpp(double(), "DOUBLE"); cpp(sp::float16_t(), "HALF_FLOAT"); cpp(std::string(), "STRING"); cpp(sp::null_type(), "NA");
        // flags
        for (int64_t f = 0; f < 8; ++f)
        {
            auto v = sp::to_vector_of_ArrowFlags(f);
            vt::check(sp::to_ArrowFlag_value(v) == f && v.size() == size_t(__builtin_popcountll(uint64_t(f))), "flags-round-trip", std::to_string(f));
        }
        for (int i = 0; i < 20; ++i)
        {
            const int64_t f = int64_t(r.next() >> r.below(64));
            bool refused = false;
            try { auto v = sp::to_vector_of_ArrowFlags(f); vt::check(sp::to_ArrowFlag_value(v) == f, "flags-round-trip", std::to_string(f)); }
            catch (const std::runtime_error&) { refused = true; }
            vt::check(refused == ((f & ~int64_t(7)) != 0), "unknown-flags", std::to_string(f));
            vt::check(sp::is_valid_ArrowFlag_value(f) == (f == 1 || f == 2 || f == 4), "valid-flag", std::to_string(f));
        }
        vt::cover("mappings verified");
    }
    // metadata in Arrow's binary encoding (count, key length, key, value length, value)
    void binary_metadata(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("binary-metadata");
        std::string m;
        auto i32 = [&](int32_t v) { m.append(reinterpret_cast<const char*>(&v), 4); };
        const int n = int(1 + r.below(3));
        i32(n);
        for (int i = 0; i < n; ++i) for (int j = 0; j < 2; ++j) { std::string s(1 + r.below(6), 'k'); i32(int32_t(s.size())); m += s; }
        fp::Tracker tr;
        fp::Producer p(tr, r);
        TD t; t.k = K::I32;
        ArrowArray a{}; ArrowSchema s{};
        p.schema(t, s); p.array(t, gen_col(t, 3, r, 0), a);
        auto* node = static_cast<fp::Tracker::PA*>(s.private_data);
        node->strs.push_back(std::make_unique<std::string>(m));
        s.metadata = node->strs.back()->data();
        vt::distinct(vt::fnv("binary" + m));
        sp::array x(std::move(a), std::move(s));
        auto intact = [&](sp::array& y, const char* what)
        {
            const char* q = sp::get_arrow_schema(y)->metadata;
            const bool there = q && !__asan_region_is_poisoned(const_cast<char*>(q), m.size());
            vt::check(there && std::string(q, m.size()) == m, what, there ? "other bytes" : vt::fmt("fewer than %zu bytes", m.size()));
        };
        vt::label("binary-metadata|kept");
        intact(x, "metadata-lost");
        vt::label("binary-metadata|moved");
        sp::array z(std::move(x));
        intact(z, "metadata-lost");
        vt::label("binary-metadata|copied");
        sp::array y(z);
        intact(y, "metadata-lost");
    }
}
#if VT_PART == 0
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "binary-metadata") return binary_metadata(cs);
        const auto d = cs.rng.below(40);
        if (d < 22) schemas(cs);
        else if (d < 31) ff::reject(cs.rng);
        else if (d < 39) ff::proxy_case(cs.rng);
        else mapping(cs);
    });
}
#endif
