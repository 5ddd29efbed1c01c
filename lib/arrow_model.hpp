// Logical model of Arrow data, a generator of logical columns, and an independent strict reader of the
// Arrow C data interface (written from the specification, shares no code with the library under test).
#pragma once
#include "vt.hpp"
#include "sparrow/c_interface.hpp"
#include <optional>

namespace am
{
    using vt::Rng;

    enum class K { NA, BOOL, U8, I8, U16, I16, U32, I32, U64, I64, F16, F32, F64, STR, BIN,
                   LIST, LLIST, LVIEW, LLVIEW, FSL, STRUCT, DICT, REE, SUNION, DUNION, SVIEW, BVIEW };

    inline const char* kname(K k)
    {
        static const char* n[] = {"na","bool","u8","i8","u16","i16","u32","i32","u64","i64","f16","f32","f64","str","bin",
                                  "list","llist","lview","llview","fsl","struct","dict","ree","sunion","dunion","sview","bview"};
        return n[int(k)];
    }
    inline const char* atom_tag(K k) { return k == K::SVIEW ? "str" : k == K::BVIEW ? "bin" : kname(k); }
    inline bool is_int(K k) { return k >= K::U8 && k <= K::I64; }
    inline bool is_fixed(K k) { return k >= K::BOOL && k <= K::F64; }
    inline size_t width(K k)
    {
        switch (k)
        {
            case K::BOOL: case K::U8: case K::I8: return 1;
            case K::U16: case K::I16: case K::F16: return 2;
            case K::U32: case K::I32: case K::F32: return 4;
            case K::U64: case K::I64: case K::F64: return 8;
            default: return 0;
        }
    }

    // type descriptor
    struct TD
    {
        K k = K::I32;
        K key = K::I32;            // dictionary key / run end type
        int fsl = 0;
        std::vector<TD> ch;        // children; DICT: ch[0] = value type; REE: ch[0] = value type
        std::vector<int> ids;      // union type ids per child
        std::optional<std::string> name;
        std::optional<std::string> meta;   // NUL-terminated text metadata (what the library supports)
        int64_t flags = 0;
    };
    inline bool has_validity(K k)
    {
        return !(k == K::NA || k == K::REE || k == K::SUNION || k == K::DUNION);
    }
    inline std::string td_str(const TD& t)
    {
        std::string s = kname(t.k);
        if (t.k == K::DICT || t.k == K::REE) s += std::string("[") + kname(t.key) + "]";
        if (t.k == K::FSL) s += std::to_string(t.fsl);
        if (!t.ch.empty())
        {
            s += "<";
            for (size_t i = 0; i < t.ch.size(); ++i) { if (i) s += ","; s += td_str(t.ch[i]); }
            s += ">";
        }
        return s;
    }
    inline bool contains(const TD& t, K k)
    {
        if (t.k == k) return true;
        for (auto& c : t.ch) if (contains(c, k)) return true;
        return false;
    }

    // logical value
    struct LV
    {
        bool null = true;
        char tag = 0;              // 's' scalar, 'L' list, 'S' struct
        std::string atom;          // scalar: "<type>:<bytes>"
        std::vector<LV> ch;
        std::vector<int> sel;      // unions: chosen children, outermost first (not compared)
        friend bool operator==(const LV& a, const LV& b)
        {
            if (a.null || b.null) return a.null == b.null;
            return a.tag == b.tag && a.atom == b.atom && a.ch == b.ch;
        }
    };
    using Col = std::vector<LV>;
    inline std::string hex(std::string_view s)
    {
        static const char* d = "0123456789abcdef";
        std::string o;
        for (unsigned char c : s) { if (c >= 32 && c < 127) o += char(c); else { o += '\\'; o += d[c >> 4]; o += d[c & 15]; } }
        return o;
    }
    inline std::string lv_str(const LV& v)
    {
        if (v.null) return "null";
        if (v.tag == 's') return hex(v.atom);
        std::string s(1, v.tag == 'L' ? '[' : '{');
        for (size_t i = 0; i < v.ch.size(); ++i) { if (i) s += ","; s += lv_str(v.ch[i]); }
        return s + (v.tag == 'L' ? "]" : "}");
    }
    inline std::string col_str(const Col& c)
    {
        std::string s = std::to_string(c.size()) + ":[";
        for (size_t i = 0; i < c.size(); ++i) { if (i) s += ","; s += lv_str(c[i]); }
        return s + "]";
    }
    // the child value a union element stands for
    inline LV unsel(LV v) { v.sel.erase(v.sel.begin()); return v; }
    inline LV null_lv() { return LV{}; }
    inline LV scalar(const char* type, std::string_view bytes)
    {
        LV v; v.null = false; v.tag = 's'; v.atom = std::string(type) + ":"; v.atom.append(bytes); return v;
    }
    inline std::string_view atom_bytes(const LV& v)
    {
        auto p = v.atom.find(':');
        return std::string_view(v.atom).substr(p + 1);
    }
    template <class T> LV scalar_pod(K k, const T& t)
    {
        return scalar(kname(k), std::string_view(reinterpret_cast<const char*>(&t), sizeof(T)));
    }
    inline LV list_lv(std::vector<LV> c) { LV v; v.null = false; v.tag = 'L'; v.ch = std::move(c); return v; }
    inline LV struct_lv(std::vector<LV> c) { LV v; v.null = false; v.tag = 'S'; v.ch = std::move(c); return v; }

    // ------------------------------------------------------------------ random logical data
    // "large" jobs: tens of thousands of elements, long runs, long strings and lists, so that 8, 16 and 32 bits quantities are exceeded
    inline bool g_large = false;
    inline LV gen_value(const TD& t, Rng& r, unsigned null_pct);

    inline LV gen_fixed(K k, Rng& r)
    {
        uint64_t x = r.next();
        switch (r.below(5)) { case 0: x = r.below(4); break; case 1: x = ~uint64_t(0) - r.below(3); break;
                              case 2: x = uint64_t(1) << r.below(64); break; default: break; }
        if (k == K::BOOL) x &= 1;
        if (k == K::F32 && r.chance(1, 2)) { float f = float(r.range(-100, 100)) / 4; memcpy(&x, &f, 4); }
        if (k == K::F64 && r.chance(1, 2)) { double f = double(r.range(-100, 100)) / 4; memcpy(&x, &f, 8); }
        return scalar(kname(k), std::string_view(reinterpret_cast<const char*>(&x), width(k)));
    }
    inline bool is_nan_atom(const LV& v)
    {
        if (v.null || v.tag != 's') return false;
        auto b = atom_bytes(v);
        if (v.atom.rfind("f32:", 0) == 0) { float f; memcpy(&f, b.data(), 4); return f != f; }
        if (v.atom.rfind("f64:", 0) == 0) { double f; memcpy(&f, b.data(), 8); return f != f; }
        if (v.atom.rfind("f16:", 0) == 0) { uint16_t f; memcpy(&f, b.data(), 2); return (f & 0x7c00) == 0x7c00 && (f & 0x3ff); }
        return false;
    }
    inline bool has_nan(const LV& v)
    {
        if (v.null) return false;
        if (v.tag == 's') return is_nan_atom(v);
        for (auto& c : v.ch) if (has_nan(c)) return true;
        return false;
    }
    inline LV gen_value(const TD& t, Rng& r, unsigned null_pct)
    {
        if (t.k == K::NA) return null_lv();
        if (t.k == K::SUNION || t.k == K::DUNION)
        {
            size_t c = r.below(t.ch.size());
            LV v = gen_value(t.ch[c], r, null_pct);
            v.sel.insert(v.sel.begin(), int(c));
            return v;
        }
        if (t.k == K::REE) return gen_value(t.ch[0], r, null_pct);
        if (r.below(100) < null_pct) return null_lv();
        switch (t.k)
        {
            case K::STR: case K::BIN: case K::SVIEW: case K::BVIEW:
            {
                size_t n = r.pick({0, 1, 2, 3, 5, 11, 12, 13, 14, 20, 40});
                std::string s;
                for (size_t i = 0; i < n; ++i) s += (t.k == K::STR || t.k == K::SVIEW) ? char('a' + r.below(26)) : char(r.below(256));
                return scalar(atom_tag(t.k), s);
            }
            case K::LIST: case K::LLIST: case K::LVIEW: case K::LLVIEW:
            {
                std::vector<LV> c(r.pick({0, 0, 1, 1, 2, 3, 5}));
                for (auto& x : c) x = gen_value(t.ch[0], r, null_pct);
                return list_lv(std::move(c));
            }
            case K::FSL:
            {
                std::vector<LV> c(size_t(t.fsl));
                for (auto& x : c) x = gen_value(t.ch[0], r, null_pct);
                return list_lv(std::move(c));
            }
            case K::STRUCT:
            {
                std::vector<LV> c;
                for (auto& x : t.ch) c.push_back(gen_value(x, r, null_pct));
                return struct_lv(std::move(c));
            }
            case K::DICT:
            {
                if (t.key != K::I8 && t.key != K::U8) return gen_value(t.ch[0], r, null_pct);
                // few distinct values, so that any number of elements can be keyed
                uint64_t h = 1469598103934665603ull;
                for (char ch : td_str(t)) h = (h ^ uint8_t(ch)) * 1099511628211ull;
                Rng q(h + r.below(8));
                return gen_value(t.ch[0], q, null_pct);
            }
            default: return gen_fixed(t.k, r);
        }
    }
    inline bool nests(K k) { return k == K::LIST || k == K::LLIST || k == K::LVIEW || k == K::LLVIEW; }
    inline Col gen_large(const TD& t, size_t n, Rng& r, unsigned null_pct)
    {
        Col c(n), pool;
        const bool fresh = t.k != K::REE && !(t.k == K::DICT && (t.key == K::U8 || t.key == K::I8 || t.key == K::U16 || t.key == K::I16)) && !nests(t.k) && r.chance(1, 3);
        for (size_t i = 0; i < 2 + r.below(5); ++i) pool.push_back(gen_value(t, r, null_pct));
        if (fresh) { for (auto& x : c) x = gen_value(t, r, null_pct); }
        else
            for (size_t i = 0; i < n;)
            {
                const LV& v = r.pick(pool);
                for (size_t k = r.pick({1, 1, 1, 2, 7, 300, 5000, 40000, 66000}); k > 0 && i < n; --k) c[i++] = v;
            }
        // a few very long values
        if (n && (t.k == K::STR || t.k == K::BIN || t.k == K::SVIEW || t.k == K::BVIEW))
            for (size_t q = 0; q < 2; ++q) c[r.below(n)] = scalar(atom_tag(t.k), std::string(r.pick({255, 256, 300, 65535, 65536, 70000}), char('a' + r.below(26))));
        if (n && nests(t.k))
            for (size_t q = 0; q < 2; ++q)
            {
                std::vector<LV> v(r.pick({255, 256, 300, 65535, 65536, 70000}));
                const LV a = gen_value(t.ch[0], r, null_pct), b = gen_value(t.ch[0], r, null_pct);
                for (size_t i = 0; i < v.size(); ++i) v[i] = i % 251 == 0 ? b : a;
                c[r.below(n)] = list_lv(std::move(v));
            }
        return c;
    }
    inline Col gen_col(const TD& t, size_t n, Rng& r, unsigned null_pct)
    {
        if (g_large && n > 200) return gen_large(t, n, r, null_pct);
        Col c(n);
        const bool repeat = t.k == K::REE || t.k == K::DICT || r.chance(1, 4);
        Col pool;
        if (repeat) for (size_t i = 0; i < 1 + r.below(4); ++i) pool.push_back(gen_value(t, r, null_pct));
        for (size_t i = 0; i < n; ++i)
        {
            if (repeat) { if (t.k == K::REE && i && r.chance(1, 2)) c[i] = c[i - 1]; else c[i] = r.pick(pool); }
            else c[i] = gen_value(t, r, null_pct);
        }
        return c;
    }

    struct TypeOpts
    {
        bool na = true, boolean = true, bin = false, views = false, dict = true, ree = true, unions = true, f16 = true;
        bool ree_signed = false;   // spec run ends (int16/32/64) instead of the unsigned ones
        bool names = false;
        int max_depth = 3;
    };
    inline std::string gen_name(Rng& r)
    {
        return r.pick(std::initializer_list<std::string>{"", "a", "col", "x y", "\xc3\xa9t\xc3\xa9", "a_rather_long_column_name_beyond_sso", "item"});
    }
    inline TD gen_leaf(Rng& r, const TypeOpts& o)
    {
        TD t;
        std::vector<K> ks = {K::U8, K::I8, K::U16, K::I16, K::U32, K::I32, K::U64, K::I64, K::F32, K::F64, K::STR, K::STR, K::STR};
        if (o.boolean) ks.push_back(K::BOOL);
        if (o.f16) ks.push_back(K::F16);
        if (o.na) ks.push_back(K::NA);
        if (o.bin) ks.push_back(K::BIN);
        if (o.views) { ks.push_back(K::SVIEW); ks.push_back(K::BVIEW); }
        t.k = r.pick(ks);
        return t;
    }
    inline void decorate(TD& t, Rng& r)
    {
        if (r.chance(1, 2)) t.name = gen_name(r);
        if (r.chance(1, 3)) t.meta = r.pick(std::initializer_list<std::string>{"", "m", "some metadata text that is long enough to allocate"});
        t.flags = r.pick({0, 0, 1, 2, 4, 3, 6, 7});
    }
    inline TD gen_type(Rng& r, const TypeOpts& o, int depth, std::optional<K> top = std::nullopt)
    {
        if (g_large && depth > 1) depth = 1;
        std::vector<K> ks = {K::LIST, K::LLIST, K::LVIEW, K::LLVIEW, K::FSL, K::STRUCT, K::STRUCT};
        if (o.dict) ks.push_back(K::DICT);
        if (o.ree) ks.push_back(K::REE);
        if (o.unions) { ks.push_back(K::SUNION); ks.push_back(K::DUNION); }
        TD t;
        K k;
        if (top) k = *top;
        else if (depth <= 0 || r.chance(1, 3)) { t = gen_leaf(r, o); if (o.names) decorate(t, r); return t; }
        else k = r.pick(ks);
        t.k = k;
        auto sub = [&](bool leaf = false) { return leaf || depth <= 1 ? (void(0), [&]{ TD x = gen_leaf(r, o); if (o.names) decorate(x, r); return x; }()) : gen_type(r, o, depth - 1); };
        switch (k)
        {
            case K::LIST: case K::LLIST: case K::LVIEW: case K::LLVIEW: t.ch = {sub()}; break;
            case K::FSL: t.fsl = int(r.pick({1, 1, 2, 3, 7})); t.ch = {sub()}; break;
            case K::STRUCT: { size_t n = 1 + r.below(3); for (size_t i = 0; i < n; ++i) t.ch.push_back(sub()); break; }
            case K::DICT: t.key = r.pick({K::U8, K::I8, K::U16, K::I16, K::U32, K::I32, K::U64, K::I64}); t.ch = {sub(r.chance(2, 3))}; break;
            case K::REE: t.key = g_large ? (o.ree_signed ? r.pick({K::I32, K::I64}) : r.pick({K::U32, K::U64})) : o.ree_signed ? r.pick({K::I16, K::I32, K::I64}) : r.pick({K::U16, K::U32, K::U64}); t.ch = {sub(r.chance(2, 3))}; break;
            case K::SUNION: case K::DUNION:
            {
                size_t n = 1 + r.below(3);
                for (size_t i = 0; i < n; ++i) t.ch.push_back(sub());
                std::vector<int> pool = {0, 1, 2, 3, 5, 7, 42, 127};
                if (r.chance(1, 2)) for (size_t i = 0; i < n; ++i) t.ids.push_back(int(i));
                else for (size_t i = 0; i < n; ++i) { size_t j = r.below(pool.size()); t.ids.push_back(pool[j]); pool.erase(pool.begin() + long(j)); }
                break;
            }
            default: break;
        }
        if (o.names) decorate(t, r);
        return t;
    }

    // ------------------------------------------------------------------ independent strict reader
    struct ReadOpts
    {
        bool bool_bytes = false;     // the library's one-byte-per-bool representation
        bool unsigned_run_ends = false;
        bool check_extents = true;   // use ASan shadow to verify that buffers cover what the spec requires
        bool view_index2 = false;    // the library's buffer-index numbering in string views
    };
    struct Reader
    {
        ReadOpts o;
        std::vector<std::string> errs;
        void err(const std::string& s) { if (errs.size() < 8) errs.push_back(s); }

        bool readable(const void* p, size_t n)
        {
            if (n == 0) return true;
            if (p == nullptr) return false;
#ifdef VT_ASAN
            if (o.check_extents) return __asan_region_is_poisoned(const_cast<void*>(p), n) == nullptr;
#endif
            return true;
        }
        static std::optional<TD> parse(const ArrowSchema* s, Reader* rd)
        {
            auto fail = [&](const std::string& m) -> std::optional<TD> { rd->err(m); return std::nullopt; };
            if (!s) return fail("null schema");
            if (!s->release) return fail("schema released");
            if (!s->format) return fail("null format");
            if (s->n_children < 0) return fail("negative n_children");
            if (s->n_children > 0 && !s->children) return fail("children null");
            if (s->flags & ~int64_t(7)) return fail("unknown flags");
            TD t;
            if (s->name) t.name = s->name;
            if (s->metadata) t.meta = s->metadata;
            t.flags = s->flags;
            std::string f = s->format;
            static const std::map<std::string, K> simple = {{"n",K::NA},{"b",K::BOOL},{"C",K::U8},{"c",K::I8},{"S",K::U16},{"s",K::I16},
                {"I",K::U32},{"i",K::I32},{"L",K::U64},{"l",K::I64},{"e",K::F16},{"f",K::F32},{"g",K::F64},{"u",K::STR},{"z",K::BIN},
                {"vu",K::SVIEW},{"vz",K::BVIEW},{"+l",K::LIST},{"+L",K::LLIST},{"+vl",K::LVIEW},{"+vL",K::LLVIEW},{"+s",K::STRUCT},{"+r",K::REE}};
            auto it = simple.find(f);
            if (it != simple.end()) t.k = it->second;
            else if (f.rfind("+w:", 0) == 0)
            {
                t.k = K::FSL;
                char* e; long v = strtol(f.c_str() + 3, &e, 10);
                if (*e || e == f.c_str() + 3 || v < 0) return fail("bad +w format " + f);
                t.fsl = int(v);
            }
            else if (f.rfind("+us:", 0) == 0 || f.rfind("+ud:", 0) == 0)
            {
                t.k = f[2] == 's' ? K::SUNION : K::DUNION;
                const char* p = f.c_str() + 4;
                while (*p)
                {
                    char* e; long v = strtol(p, &e, 10);
                    if (e == p || v < 0 || v > 127) return fail("bad union format " + f);
                    t.ids.push_back(int(v));
                    p = e;
                    if (*p == ',') { ++p; if (!*p) return fail("trailing comma in union format"); }
                    else if (*p) return fail("bad union format " + f);
                }
                if (int64_t(t.ids.size()) != s->n_children) return fail("union ids do not match children: " + f);
                std::set<int> u(t.ids.begin(), t.ids.end());
                if (u.size() != t.ids.size()) return fail("duplicate union ids");
            }
            else return fail("unknown format '" + f + "'");
            int64_t want = t.k == K::STRUCT || t.k == K::SUNION || t.k == K::DUNION ? s->n_children
                         : t.k == K::REE ? 2
                         : (t.k == K::LIST || t.k == K::LLIST || t.k == K::LVIEW || t.k == K::LLVIEW || t.k == K::FSL) ? 1 : 0;
            if (s->n_children != want) return fail("n_children " + std::to_string(s->n_children) + " for " + f);
            for (int64_t i = 0; i < s->n_children; ++i)
            {
                if (!s->children[i]) return fail("null child schema");
                auto c = parse(s->children[i], rd);
                if (!c) return std::nullopt;
                t.ch.push_back(*c);
            }
            if (t.k == K::REE)
            {
                t.key = t.ch[0].k;
                bool ok = rd->o.unsigned_run_ends ? (t.key == K::U16 || t.key == K::U32 || t.key == K::U64)
                                                  : (t.key == K::I16 || t.key == K::I32 || t.key == K::I64);
                if (!ok) return fail(std::string("bad run end type ") + kname(t.key));
            }
            if (s->dictionary)
            {
                if (!is_int(t.k)) return fail("dictionary key type is not an integer");
                auto d = parse(s->dictionary, rd);
                if (!d) return std::nullopt;
                TD x; x.k = K::DICT; x.key = t.k; x.ch = {*d}; x.name = t.name; x.meta = t.meta; x.flags = t.flags;
                return x;
            }
            return t;
        }
        static int64_t expect_buffers(const TD& t, const ArrowArray* a)
        {
            switch (t.k)
            {
                case K::NA: case K::REE: return 0;
                case K::STRUCT: case K::FSL: case K::SUNION: return 1;
                case K::STR: case K::BIN: case K::LVIEW: case K::LLVIEW: return 3;
                case K::SVIEW: case K::BVIEW: return std::max<int64_t>(a->n_buffers, 3);
                default: return 2;
            }
        }
        template <class T> static T at(const void* p, int64_t i) { T v; memcpy(&v, static_cast<const char*>(p) + i * int64_t(sizeof(T)), sizeof(T)); return v; }
        static int64_t int_at(K k, const void* p, int64_t i)
        {
            switch (k)
            {
                case K::U8: return at<uint8_t>(p, i); case K::I8: return at<int8_t>(p, i);
                case K::U16: return at<uint16_t>(p, i); case K::I16: return at<int16_t>(p, i);
                case K::U32: return at<uint32_t>(p, i); case K::I32: return at<int32_t>(p, i);
                case K::U64: return int64_t(at<uint64_t>(p, i)); default: return at<int64_t>(p, i);
            }
        }
        // decode elements [from, from+n) in array coordinates (0 <= from, from+n <= length)
        bool structure(const TD& t, const ArrowArray* a, const std::string& path)
        {
            auto bad = [&](const std::string& m) { err(path + ": " + m); return false; };
            if (!a) return bad("null array");
            if (!a->release) return bad("array released");
            if (a->length < 0) return bad("negative length");
            if (a->offset < 0) return bad("negative offset");
            if (a->null_count < -1) return bad("null_count < -1");
            if (a->null_count > a->length) return bad(vt::fmt("null_count %lld > length %lld", (long long)a->null_count, (long long)a->length));
            int64_t nb = expect_buffers(t, a);
            if (a->n_buffers != nb) return bad(vt::fmt("n_buffers %lld, expected %lld for %s", (long long)a->n_buffers, (long long)nb, kname(t.k)));
            if (nb > 0 && !a->buffers) return bad("buffers null");
            int64_t nc = t.k == K::DICT ? 0 : int64_t(t.ch.size());
            if (a->n_children != nc) return bad(vt::fmt("n_children %lld, expected %lld", (long long)a->n_children, (long long)nc));
            if (nc > 0 && !a->children) return bad("children null");
            if ((t.k == K::DICT) != (a->dictionary != nullptr)) return bad("dictionary presence mismatch");
            const int64_t end = a->offset + a->length;
            if (has_validity(t.k))
            {
                const void* v = a->buffers[0];
                if (!v && a->null_count != 0) return bad("validity buffer missing but null_count != 0");
                if (v && !readable(v, size_t((end + 7) / 8))) return bad("validity buffer too small");
            }
            if (t.k == K::SUNION || t.k == K::DUNION)
            {
                if (!readable(a->buffers[0], size_t(end))) return bad("type id buffer too small");
                if (t.k == K::DUNION && !readable(a->buffers[1], size_t(end) * 4)) return bad("union offsets too small");
            }
            K vk = t.k == K::DICT ? t.key : t.k;
            if (is_fixed(vk))
            {
                size_t need = vk == K::BOOL && !o.bool_bytes ? size_t((end + 7) / 8) : size_t(end) * width(vk);
                if (!readable(a->buffers[1], need)) return bad("data buffer too small");
            }
            auto offs = [&](auto tag) -> bool
            {
                using T = decltype(tag);
                if (end == 0 && !readable(a->buffers[1], sizeof(T))) return true;  // legacy: may be absent
                if (!readable(a->buffers[1], size_t(end + 1) * sizeof(T))) return bad("offsets buffer too small");
                T prev = at<T>(a->buffers[1], 0);
                if (prev < 0) return bad("negative offset value");
                for (int64_t i = 1; i <= end; ++i)
                {
                    T x = at<T>(a->buffers[1], i);
                    if (x < prev) return bad("offsets not monotone");
                    prev = x;
                }
                if (t.k == K::STR || t.k == K::BIN)
                {
                    if (!readable(a->buffers[2], size_t(prev))) return bad("character buffer too small");
                }
                else if (int64_t(prev) > a->children[0]->length) return bad("list offsets exceed child length");
                return true;
            };
            if (t.k == K::STR || t.k == K::BIN || t.k == K::LIST) { if (!offs(int32_t{})) return false; }
            if (t.k == K::LLIST) { if (!offs(int64_t{})) return false; }
            if (t.k == K::LVIEW || t.k == K::LLVIEW)
            {
                size_t w = t.k == K::LVIEW ? 4 : 8;
                if (!readable(a->buffers[1], size_t(end) * w) || !readable(a->buffers[2], size_t(end) * w)) return bad("list view buffers too small");
                for (int64_t i = a->offset; i < end; ++i)
                {
                    int64_t of = w == 4 ? at<int32_t>(a->buffers[1], i) : at<int64_t>(a->buffers[1], i);
                    int64_t sz = w == 4 ? at<int32_t>(a->buffers[2], i) : at<int64_t>(a->buffers[2], i);
                    if (of < 0 || sz < 0 || of + sz > a->children[0]->length) return bad("list view entry out of range");
                }
            }
            if (t.k == K::FSL && a->children[0]->length < end * t.fsl) return bad("fixed size list child too short");
            if (t.k == K::STRUCT || t.k == K::SUNION)
                for (int64_t i = 0; i < nc; ++i)
                    if (a->children[i]->length < end) return bad("child shorter than parent");
            if (t.k == K::DUNION || t.k == K::SUNION)
                for (int64_t i = a->offset; i < end; ++i)
                {
                    int id = at<int8_t>(a->buffers[0], i);
                    size_t c = 0;
                    while (c < t.ids.size() && t.ids[c] != id) ++c;
                    if (c == t.ids.size()) return bad(vt::fmt("unknown type id %d", id));
                    if (t.k == K::DUNION)
                    {
                        int32_t of = at<int32_t>(a->buffers[1], i);
                        if (of < 0 || of >= a->children[c]->length) return bad("union offset out of range");
                    }
                }
            for (int64_t i = 0; i < nc; ++i)
                if (!structure(t.ch[size_t(i)], a->children[i], path + "/" + std::to_string(i))) return false;
            if (t.k == K::DICT && !structure(t.ch[0], a->dictionary, path + "/dict")) return false;
            if (t.k == K::REE)
            {
                const ArrowArray* e = a->children[0];
                if (e->length != a->children[1]->length && e->length > a->children[1]->length) return bad("more run ends than values");
                if (e->null_count > 0) return bad("null run ends");
                int64_t prev = 0;
                for (int64_t i = 0; i < e->length; ++i)
                {
                    int64_t x = int_at(t.key, e->buffers[1], e->offset + i);
                    if (x <= prev) return bad("run ends not strictly increasing");
                    prev = x;
                }
                if (prev < end) return bad("run ends do not cover the array");
            }
            if (has_validity(t.k) && a->null_count >= 0)
            {
                int64_t nulls = 0;
                for (int64_t i = 0; i < a->length; ++i) if (!valid(a, i)) ++nulls;
                if (nulls != a->null_count) return bad(vt::fmt("null_count %lld but the bitmap has %lld nulls", (long long)a->null_count, (long long)nulls));
            }
            if (t.k == K::SVIEW || t.k == K::BVIEW)
            {
                int64_t nvar = a->n_buffers - 3;
                if (!readable(a->buffers[1], size_t(end) * 16)) return bad("views buffer too small");
                if (nvar > 0 && !readable(a->buffers[nb - 1], size_t(nvar) * 8)) return bad("variadic sizes buffer too small");
                for (int64_t i = 0; i < nvar; ++i)
                {
                    int64_t sz = at<int64_t>(a->buffers[nb - 1], i);
                    if (sz < 0 || !readable(a->buffers[2 + i], size_t(sz))) return bad("variadic buffer smaller than its declared size");
                }
                for (int64_t i = 0; i < a->length; ++i)
                {
                    if (!valid(a, i)) continue;
                    const char* v = static_cast<const char*>(a->buffers[1]) + (a->offset + i) * 16;
                    int32_t n = at<int32_t>(v, 0);
                    if (n < 0) return bad("negative view size");
                    if (n <= 12)
                    {
                        for (int32_t q = 4 + n; q < 16; ++q) if (v[q] != 0) return bad("inline view not zero padded");
                    }
                    else
                    {
                        int32_t b = at<int32_t>(v, 2), of = at<int32_t>(v, 3);
                        if (o.view_index2) b -= 2;
                        if (b < 0 || b >= nvar) return bad(vt::fmt("view buffer index %d out of range", b));
                        if (of < 0 || int64_t(of) + n > at<int64_t>(a->buffers[nb - 1], b)) return bad("view range out of buffer");
                        if (memcmp(v + 4, static_cast<const char*>(a->buffers[2 + b]) + of, 4) != 0) return bad("view prefix mismatch");
                    }
                }
            }
            return true;
        }
        static bool valid(const ArrowArray* a, int64_t i)
        {
            if (!a->buffers[0]) return true;
            int64_t p = a->offset + i;
            return (static_cast<const uint8_t*>(a->buffers[0])[p >> 3] >> (p & 7)) & 1;
        }
        LV elem(const TD& t, const ArrowArray* a, int64_t i)
        {
            const int64_t p = a->offset + i;
            if (t.k == K::NA) return null_lv();
            if (t.k == K::SUNION || t.k == K::DUNION)
            {
                int id = at<int8_t>(a->buffers[0], p);
                size_t c = 0;
                while (t.ids[c] != id) ++c;
                LV v = elem(t.ch[c], a->children[c], t.k == K::SUNION ? p : at<int32_t>(a->buffers[1], p));
                v.sel.insert(v.sel.begin(), int(c));
                return v;
            }
            if (t.k == K::REE)
            {
                const ArrowArray* e = a->children[0];
                int64_t q = 0;
                while (int_at(t.key, e->buffers[1], e->offset + q) <= p) ++q;
                return elem(t.ch[1], a->children[1], q);
            }
            if (!valid(a, i)) return null_lv();
            switch (t.k)
            {
                case K::DICT: return elem(t.ch[0], a->dictionary, int_at(t.key, a->buffers[1], p));
                case K::STR: case K::BIN:
                {
                    int32_t b = at<int32_t>(a->buffers[1], p), e = at<int32_t>(a->buffers[1], p + 1);
                    return scalar(kname(t.k), std::string_view(static_cast<const char*>(a->buffers[2]) + b, size_t(e - b)));
                }
                case K::SVIEW: case K::BVIEW:
                {
                    const char* v = static_cast<const char*>(a->buffers[1]) + p * 16;
                    int32_t n = at<int32_t>(v, 0);
                    if (n <= 12) return scalar(atom_tag(t.k), std::string_view(v + 4, size_t(n)));
                    int32_t b = at<int32_t>(v, 2) - (o.view_index2 ? 2 : 0);
                    return scalar(atom_tag(t.k), std::string_view(static_cast<const char*>(a->buffers[2 + b]) + at<int32_t>(v, 3), size_t(n)));
                }
                case K::LIST: case K::LLIST: case K::LVIEW: case K::LLVIEW: case K::FSL:
                {
                    int64_t b, e;
                    if (t.k == K::FSL) { b = p * t.fsl; e = b + t.fsl; }
                    else if (t.k == K::LIST) { b = at<int32_t>(a->buffers[1], p); e = at<int32_t>(a->buffers[1], p + 1); }
                    else if (t.k == K::LLIST) { b = at<int64_t>(a->buffers[1], p); e = at<int64_t>(a->buffers[1], p + 1); }
                    else if (t.k == K::LVIEW) { b = at<int32_t>(a->buffers[1], p); e = b + at<int32_t>(a->buffers[2], p); }
                    else { b = at<int64_t>(a->buffers[1], p); e = b + at<int64_t>(a->buffers[2], p); }
                    std::vector<LV> c;
                    for (int64_t q = b; q < e; ++q) c.push_back(elem(t.ch[0], a->children[0], q));
                    return list_lv(std::move(c));
                }
                case K::STRUCT:
                {
                    std::vector<LV> c;
                    for (size_t q = 0; q < t.ch.size(); ++q) c.push_back(elem(t.ch[q], a->children[q], p));
                    return struct_lv(std::move(c));
                }
                case K::BOOL:
                {
                    const uint8_t* d = static_cast<const uint8_t*>(a->buffers[1]);
                    uint8_t x = o.bool_bytes ? d[p] : uint8_t((d[p >> 3] >> (p & 7)) & 1);
                    return scalar_pod(K::BOOL, x);
                }
                default:
                    return scalar(kname(t.k), std::string_view(static_cast<const char*>(a->buffers[1]) + size_t(p) * width(t.k), width(t.k)));
            }
        }
        std::optional<Col> read(const ArrowArray* a, const ArrowSchema* s, TD* out = nullptr)
        {
            auto t = parse(s, this);
            if (!t) return std::nullopt;
            if (out) *out = *t;
            if (!structure(*t, a, "")) return std::nullopt;
            Col c(size_t(a->length));
            for (int64_t i = 0; i < a->length; ++i) c[size_t(i)] = elem(*t, a, i);
            return c;
        }
        std::string errors() const { std::string s; for (auto& e : errs) s += e + "; "; return s; }
    };
}
