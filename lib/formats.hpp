// Arrow format strings, including those the library has no array class for: what they mean, foreign data of exactly the
// size they state, and malformed variants of them.
#pragma once
#include "scen.hpp"
namespace ff
{
    using namespace sc;
    struct Format { std::string f; const char* type; };   // type: the library's name of the data type
    // the Arrow specification's format strings
    inline const std::vector<Format>& valid()
    {
        static const std::vector<Format> v = {
            {"n", "NA"}, {"b", "BOOL"}, {"c", "INT8"}, {"C", "UINT8"}, {"s", "INT16"}, {"S", "UINT16"}, {"i", "INT32"}, {"I", "UINT32"}, {"l", "INT64"}, {"L", "UINT64"},
            {"e", "HALF_FLOAT"}, {"f", "FLOAT"}, {"g", "DOUBLE"}, {"u", "STRING"}, {"U", "STRING"}, {"z", "BINARY"}, {"Z", "BINARY"}, {"vu", "STRING_VIEW"}, {"vz", "BINARY_VIEW"},
            {"d:19,10", "DECIMAL"}, {"d:38,-2", "DECIMAL"}, {"d:9,2,32", "DECIMAL"}, {"d:18,3,64", "DECIMAL"}, {"d:19,10,128", "DECIMAL"}, {"d:76,10,256", "DECIMAL"},
            {"w:1", "FIXED_WIDTH_BINARY"}, {"w:7", "FIXED_WIDTH_BINARY"}, {"w:42", "FIXED_WIDTH_BINARY"},
            {"tsn:", "TIMESTAMP"}, {"tss:UTC", "TIMESTAMP"}, {"tsm:Europe/Paris", "TIMESTAMP"}, {"tsu:+01:00", "TIMESTAMP"},
            {"tdD", "TIMESTAMP"}, {"tdm", "TIMESTAMP"}, {"tts", "TIMESTAMP"}, {"ttm", "TIMESTAMP"}, {"ttu", "TIMESTAMP"}, {"ttn", "TIMESTAMP"},
            {"tDs", "TIMESTAMP"}, {"tDm", "TIMESTAMP"}, {"tDu", "TIMESTAMP"}, {"tDn", "TIMESTAMP"}, {"tiM", "TIMESTAMP"}, {"tiD", "TIMESTAMP"}, {"tin", "TIMESTAMP"},
            {"+l", "LIST"}, {"+L", "LARGE_LIST"}, {"+vl", "LIST_VIEW"}, {"+vL", "LARGE_LIST_VIEW"}, {"+w:3", "FIXED_SIZED_LIST"}, {"+w:0", "FIXED_SIZED_LIST"}, {"+s", "STRUCT"}, {"+m", "MAP"},
            {"+us:0,1", "SPARSE_UNION"}, {"+us:5,127", "SPARSE_UNION"}, {"+ud:0,1", "DENSE_UNION"}, {"+ud:3,2,1", "DENSE_UNION"}, {"+r", "RUN_ENCODED"}};
        return v;
    }
    // strings that are no format at all, and no prefix family either
    inline std::string nonsense(Rng& r)
    {
        static const std::vector<std::string> v = {"", "x", "q", "N", "B", "E", "F", "G", "0", " ", "nn", "bb", "ii", "gg", "uu", "+", "++", "+x", "v", "vl", "vL", "vv", "+v", "+vx", "+ll", "+lL", "+ss", "+mm",
            "+u", "+us", "+ud", "+w", "+rx", "+r:", "+R", "+S", "+M", "d", "w", "u8", "U8", " i", "i ", "i\n", "+l ", "l+", "s+", "zz", "vuz", "vu ", "D:19,10", "W:4", "+W:3", "+US:0"};
        if (r.chance(2, 3)) return v[r.below(v.size())];
        static const char a[] = "nbcCsSiIlLefguUzZvdwtmMrR+:,0129- ";
        for (;;)
        {
            std::string s;
            for (size_t i = 0, n = 1 + r.below(4); i < n; ++i) s += a[r.below(sizeof(a) - 1)];
            bool known = s[0] == 't';   // the library takes every t... for a temporal type
            for (auto p : {"d:", "w:", "+w:", "+us:", "+ud:"}) if (s.rfind(p, 0) == 0) known = true;
            for (auto& f : valid()) if (f.f == s) known = true;
            if (!known) return s;
        }
    }
    inline size_t fixed_width(const std::string& f)
    {
        if (f[0] == 'w') return size_t(std::stoi(f.substr(2)));
        if (f[0] == 'd')
        {
            const auto a = f.find(','), b = f.find(',', a + 1);
            return b == std::string::npos ? 16 : size_t(std::stoi(f.substr(b + 1))) / 8;
        }
        if (f == "tdD" || f == "tts" || f == "ttm" || f == "tiM") return 4;
        if (f == "tin") return 16;
        if (f[0] == 't') return 8;
        return 0;
    }
    // A format without array class, with data
    inline std::string unsupported(Rng& r)
    {
        for (;;)
        {
            auto& f = valid()[r.below(valid().size())].f;
            if (fixed_width(f) || f == "U" || f == "Z" || f == "+m") return f;
        }
    }
    struct Foreign
    {
        fp::Tracker tr;
        ArrowArray a{};
        ArrowSchema s{};
        std::string format;
        std::vector<std::string> bytes;   // expected contents of the buffers
        TD child; Col child_col;
        bool given_a = false, given_s = false;
        bool omitted = false;             // no offsets buffer
        ~Foreign() { if (!given_a && a.release) a.release(&a); if (!given_s && s.release) s.release(&s); }
    };
    // data of a format without array class: buffers of exactly the stated size
    inline std::unique_ptr<Foreign> make(const std::string& f, Rng& r)
    {
        auto x = std::make_unique<Foreign>();
        x->format = f;
        auto node = [&](bool schema) { x->tr.nodes.push_back(std::make_unique<fp::Tracker::PA>()); auto* p = x->tr.nodes.back().get(); p->tr = &x->tr; p->is_schema = schema; p->path = "root"; return p; };
        auto* pa = node(false);
        auto* ps = node(true);
        ++x->tr.arrays; ++x->tr.schemas;
        auto block = [&](const std::string& bytes)
        {
            x->bytes.push_back(bytes);
            fp::Block b{malloc(bytes.size()), bytes.size(), 0, bytes};
            if (!bytes.empty()) memcpy(b.p, bytes.data(), bytes.size());
            pa->blocks.push_back(b);
            pa->ptrs.push_back(b.p);
        };
        const bool none = (f == "U" || f == "Z") && r.chance(1, 4);
        const size_t n = none ? 0 : gen_len(r), off = none ? 0 : r.pick({0, 0, 1, 7, 8}), m = n + off;
        auto noise = [&](size_t k) { std::string s(k, 0); for (auto& c : s) c = char(r.below(256)); return s; };
        int64_t nulls = 0;
        if (r.chance(1, 2)) { pa->ptrs.push_back(nullptr); x->bytes.emplace_back(); }
        else
        {
            std::string bits = noise((m + 7) / 8);
            for (size_t i = off; i < m; ++i) nulls += !((bits[i / 8] >> (i % 8)) & 1);
            block(bits);
        }
        auto offsets = [&](auto zero, size_t& last)
        {
            using T = decltype(zero);
            std::string s;
            T o = T(r.below(3));
            for (size_t i = 0; i <= m; ++i) { s.append(reinterpret_cast<const char*>(&o), sizeof o); last = size_t(o); if (i < m) o += T(r.below(4)); }
            block(s);
        };
        size_t last = 0;
        if (const size_t w = fixed_width(f)) block(noise(m * w));
        else if (m == 0 && r.chance(1, 2) && (f == "U" || f == "Z")) { pa->ptrs.push_back(nullptr); x->bytes.push_back(std::string(8, 0)); x->omitted = true; block(""); }
        else if (f == "U" || f == "Z") { offsets(int64_t(), last); block(noise(last)); }
        else { offsets(int32_t(), last); }
        x->a.length = int64_t(n); x->a.offset = int64_t(off); x->a.null_count = nulls;
        auto keep = [&](const std::string& t) { ps->strs.push_back(std::make_unique<std::string>(t)); return ps->strs.back()->c_str(); };
        x->s.format = keep(f);
        if (r.chance(1, 2)) x->s.name = keep(r.pick({"", "n", "a column name that is long enough to be allocated"}));
        if (r.chance(1, 2)) x->s.metadata = keep(r.pick({"", "m", "some metadata long enough to be allocated"}));
        x->s.flags = r.pick({0, 2, 1, 4, 7});
        if (f == "+m")
        {
            TypeOpts to;
            x->child = TD{}; x->child.k = K::STRUCT;
            x->child.ch.resize(2);
            x->child.ch[0].k = K::STR; x->child.ch[1].k = K::I32;
            x->child.name = "entries"; x->child.ch[0].name = "key"; x->child.ch[1].name = "value";
            x->child_col = gen_col(x->child, last, r, 0);
            fp::ProdOpts po; po.bool_bytes = true;
            fp::Producer p(x->tr, r, po);
            pa->ach.push_back(new ArrowArray); ps->sch.push_back(new ArrowSchema);
            p.array(x->child, x->child_col, *pa->ach[0], "/entries");
            p.schema(x->child, *ps->sch[0], "/entries");
        }
        x->a.n_buffers = int64_t(pa->ptrs.size()); x->a.buffers = pa->ptrs.data();
        x->a.n_children = int64_t(pa->ach.size()); x->a.children = pa->ach.empty() ? nullptr : pa->ach.data();
        x->s.n_children = int64_t(ps->sch.size()); x->s.children = ps->sch.empty() ? nullptr : ps->sch.data();
        x->a.private_data = pa; x->a.release = fp::release_array;
        x->s.private_data = ps; x->s.release = fp::release_schema;
        return x;
    }
    // the same bytes in the structure's buffers and in the proxy's views
    inline void same_bytes(sp::arrow_proxy& p, const Foreign& x, const char* what)
    {
        const auto& a = p.array();
        if (!vt::check(size_t(a.n_buffers) == x.bytes.size() && p.buffers().size() == x.bytes.size(), std::string(what) + "|buffer-count", x.format)) return;
        for (size_t i = 0; i < x.bytes.size(); ++i)
        {
            auto& v = p.buffers()[i];
            const std::string& w = x.bytes[i];
            if (i == 0 && w.empty())   // validity buffer omitted: copies may provide one that says the same
            {
                for (size_t k = 0; k < v.size(); ++k) vt::check(v.data()[k] == 0xff, std::string(what) + "|provided-validity", x.format);
                continue;
            }
            if (i == 1 && x.omitted && !a.buffers[1]) { vt::check(v.size() == 0 || v.data() == nullptr, std::string(what) + "|view-of-nothing", x.format); continue; }
            if (i == 1 && x.omitted) vt::cover("copies that provide omitted offsets");
            vt::check(v.size() == w.size(), std::string(what) + "|view-size", x.format + vt::fmt(" buffer %zu: %zu bytes viewed, %zu there", i, size_t(v.size()), w.size()));
            vt::check(w.empty() || static_cast<const void*>(v.data()) == a.buffers[i], std::string(what) + "|view-elsewhere", x.format);
            const size_t k = std::min<size_t>(v.size(), w.size());
            vt::check(!k || memcmp(v.data(), w.data(), k) == 0, std::string(what) + "|bytes", x.format + vt::fmt(" buffer %zu", i));
            vt::cover("buffers of formats without array class", 1);
        }
    }
    // a proxy over a format without array class, copied, sliced, compared, released
    inline void proxy_case(Rng& r)
    {
        auto x = make(unsupported(r), r);
        const std::string f = x->format;
        const std::string family = f[0] == 't' ? "t" : f[0] == '+' ? f : f.substr(0, 1);
        vt::label("format|" + family);
        const std::string sig = schema_sig(&x->s);
        vt::distinct(vt::fnv("proxy-of-format" + sig + std::to_string(x->a.length) + (x->bytes.size() > 1 ? x->bytes[1] : "")));
        std::optional<sp::arrow_proxy> p;
        const int form = int(r.below(3));
        const ArrowArray orig = x->a;
        if (form == 0) { x->given_a = x->given_s = true; p.emplace(std::move(x->a), std::move(x->s)); }
        else if (form == 1) { x->given_a = true; p.emplace(std::move(x->a), &x->s); }
        else p.emplace(&x->a, &x->s);
        auto check = [&](sp::arrow_proxy& q, const char* what)
        {
            vt::check(q.length() == size_t(orig.length) && q.offset() == size_t(orig.offset) && q.format() == f, std::string(what) + "|attributes", f);
            vt::check(schema_sig(&q.schema()) == sig, std::string(what) + "|schema", sig + " now " + schema_sig(&q.schema()));
            same_bytes(q, *x, what);
            if (f == "+m")
            {
                Reader rd; rd.o = strict();
                auto c = rd.read(q.array().children[0], q.schema().children[0], nullptr);
                if (!c) vt::violation(std::string(what) + "|entries-rejected", rd.errors());
                else vt::check(*c == x->child_col, std::string(what) + "|entries", col_str(*c));
            }
        };
        check(*p, "proxy");
        sp::arrow_proxy q(*p);
        check(q, "copy");
        vt::check(q.owns_array() && q.owns_schema(), "copy|owns");
        for (size_t i = 0; i < x->bytes.size(); ++i) vt::check(x->bytes[i].empty() || !p->array().buffers[i] || q.array().buffers[i] != p->array().buffers[i], "copy|shares", f);
        if (r.chance(1, 2)) { auto y = make(unsupported(r), r); sp::arrow_proxy z(&y->a, &y->s); z = q; check(z, "assigned"); q = std::move(z); check(q, "moved"); }
        if (r.chance(1, 2))
        {
            const size_t n = p->length(), b = r.below(n + 1), e = b + r.below(n - b + 1);
            sp::arrow_proxy v = r.chance(1, 2) ? p->slice(b, e) : p->slice_view(b, e);
            vt::check(v.length() == e - b && v.offset() == size_t(orig.offset) + b, "slice|window", f);
        }
        if (r.chance(1, 2)) { p.reset(); if (form == 1) x->s.release(&x->s), x->given_s = true; check(q, "copy-after-source-died"); }
        p.reset();
        if (form == 0) vt::check(x->tr.all_released(), "owned-not-released", f);
        if (form == 2) vt::check(x->tr.none_released(), "lent-released", f);
        for (auto& e : x->tr.errors) vt::violation("released-twice", e);
        vt::check(x->tr.intact(), "foreign-bytes-changed", f);
        vt::cover("proxies of formats without array class");
    }

    // ---- malformed or unsupported formats: the import is refused, nothing is leaked, released twice or changed
    struct Bad { TD t; std::string f; };
    inline Bad bad_format(Rng& r)
    {
        Bad b;
        TypeOpts to; to.names = true; to.ree_signed = true;
        auto sub = [&](K k) { return gen_type(r, to, 1, k); };
        switch (r.below(6))
        {
            case 0: b.t = sub(r.pick({K::SUNION, K::DUNION}));
            {
                std::string good; for (size_t i = 0; i < b.t.ids.size(); ++i) good += (i ? "," : "") + std::to_string(b.t.ids[i]);
                const std::string p = b.t.k == K::SUNION ? "+us:" : "+ud:";
                b.f = p + r.pick({std::string("a"), good + "x", std::string("x") + good, good + ",300", good + ",-1", std::string("-1"), std::string("256"), std::string("99999999999999999999"), good + ",0x1", std::string(" "), good + ",1.5", std::string("+1")});
                break;
            }
            case 1:
                b.t = sub(K::FSL);
                b.f = "+w:" + r.pick({std::string(""), std::string("abc"), std::string("-1"), std::to_string(b.t.fsl) + "x", "x" + std::to_string(b.t.fsl), std::string("99999999999999999999999"), std::string("1.5"), std::string(" "), std::string("-0"), std::string("0x2")});
                break;
            case 2: b.t = sub(K::REE); b.f = r.pick({"+rX", "+r:", "+r ", "+rr"}); break;
            case 3: b.t = sub(r.pick({K::STRUCT, K::LIST, K::LLIST, K::LVIEW, K::LLVIEW})); b.f = nonsense(r); break;
            default: b.t = sub(r.pick({K::I32, K::U8, K::F64, K::STR, K::BOOL})); b.f = nonsense(r); break;
        }
        return b;
    }
    inline void reject(Rng& r)
    {
        // a malformed or unsupported format at the top or nested somewhere
        std::unique_ptr<Foreign> x;
        std::string why;
        bool proxied = false;   // refused by the proxy itself
        if (r.chance(1, 4)) { x = make(unsupported(r), r); why = "unsupported"; }
        else if (r.chance(1, 5))
        {
            // the size of the elements cannot be told
            const bool w = r.chance(1, 2);
            x = make(w ? "w:4" : "d:19,10", r);
            why = "unsized"; proxied = r.chance(3, 4);
            x->format = w ? r.pick({"w:", "w:abc", "w:-3", "w:0", "w:4x", "w:x4", "w: 4"}) : r.pick({"d:10,2,77", "d:19,10,x", "d:9,2,-32", "d:1,2,", "d:1,2,0", "d:9,2,32x", "d:9,2,16", "d:9,2,512"});
            auto* n = static_cast<fp::Tracker::PA*>(x->s.private_data);
            n->strs.push_back(std::make_unique<std::string>(x->format));
            x->s.format = n->strs.back()->c_str();
            vt::cover("formats without a size of the elements");
        }
        else
        {
            why = "malformed";
            const Bad b = bad_format(r);
            const int nest = int(r.below(4));
            TD t = b.t;
            if (nest == 1) { TD u; u.k = K::STRUCT; u.ch = {t}; t = u; }
            else if (nest == 2) { TD u; u.k = K::LIST; u.ch = {t}; t = u; }
            else if (nest == 3) { TD u; u.k = K::DICT; u.key = K::I32; u.ch = {t}; t = u; }
            x = std::make_unique<Foreign>();
            x->format = b.f;
            fp::ProdOpts po; po.bool_bytes = true;
            fp::Producer p(x->tr, r, po);
            Col c = gen_col(t, gen_len(r), r, 20);
            p.schema(t, x->s); p.array(t, c, x->a);
            ArrowSchema* s = nest == 0 ? &x->s : nest == 3 ? x->s.dictionary : x->s.children[0];
            auto* n = static_cast<fp::Tracker::PA*>(s->private_data);
            n->strs.push_back(std::make_unique<std::string>(b.f));
            s->format = n->strs.back()->c_str();
            vt::cover(nest ? "nested malformed formats" : "malformed formats");
        }
        std::string fam = x->format.substr(0, x->format.rfind("+", 0) == 0 ? (x->format.find(':') == std::string::npos ? 2 : 4) : 2);
        for (auto& c : fam) if ((unsigned char) c < 33) c = '_';
        vt::label("import|" + why + "|" + fam);
        vt::distinct(vt::fnv("reject" + schema_sig(&x->s)));
        const int form = int(r.below(3));
        std::string before, after;
        snapshot(&x->s, before, true); snapshot(&x->a, before, true);
        std::string got;
        try
        {
            if (proxied)
            {
                if (form == 0) { x->given_a = x->given_s = true; sp::arrow_proxy a(std::move(x->a), std::move(x->s)); got = "accepted"; }
                else if (form == 1) { x->given_a = true; sp::arrow_proxy a(std::move(x->a), &x->s); got = "accepted"; }
                else { sp::arrow_proxy a(&x->a, &x->s); got = "accepted"; }
            }
            else if (form == 0) { x->given_a = x->given_s = true; sp::array a(std::move(x->a), std::move(x->s)); got = "accepted"; }
            else if (form == 1) { x->given_a = true; sp::array a(std::move(x->a), &x->s); got = "accepted"; }
            else { sp::array a(&x->a, &x->s); got = "accepted"; }
        }
        catch (const std::bad_alloc&) { got = "bad_alloc"; }
        catch (const std::runtime_error&) {}
        catch (const std::out_of_range&) {}   // a number too large
        catch (const std::exception& e) { got = std::string("other exception ") + typeid(e).name() + " " + e.what(); }
        vt::check(got.empty(), "not-rejected-with-runtime_error", x->format + ": " + got);
        for (auto& e : x->tr.errors) vt::violation("rejected-import-released-twice", e);
        if (form == 0) vt::check(x->tr.all_released(), "rejected-import-leaks", x->format);
        else if (form == 1) vt::check(x->tr.array_releases == x->tr.arrays && x->tr.schema_releases == 0, "rejected-import-half-released", x->format);
        else
        {
            snapshot(&x->s, after, true); snapshot(&x->a, after, true);
            vt::check(x->tr.none_released() && before == after && x->tr.intact(), "rejected-import-changed-lent-data", x->format);
        }
        vt::cover("imports rejected");
    }
}
