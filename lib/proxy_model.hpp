// A model of the structure tree behind an arrow_proxy, and its comparison with the proxy's getters and views.
#pragma once
#include "formats.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"

namespace pm
{
    using namespace sc;
    // something attached to a tree from outside
    struct Src
    {
        fp::Tracker tr;
        ArrowArray a{};
        ArrowSchema s{};
        bool foreign = false, lent_a = false, lent_s = false, as_dictionary = false;
    };
    struct Bytes : std::string   // an absent buffer is not an empty one
    {
        bool null = true;
        Bytes() = default;
        Bytes(std::string s) : std::string(std::move(s)), null(false) {}
    };
    struct Node
    {
        bool own_a = false, own_s = false;    // created by the library: may be edited
        std::string format;
        std::optional<std::string> name, meta;
        int64_t flags = 0, length = 0, offset = 0, nulls = 0;
        bool nulls_known = true;
        bool fresh = true;                    // the views follow format, offset and buffers
        std::vector<Bytes> bytes;       // the library's buffers
        std::vector<const void*> ptrs;        // a producer's buffers
        std::vector<std::unique_ptr<Node>> ch;
        std::unique_ptr<Node> dict;
        std::shared_ptr<Src> src;
        size_t total() const { return size_t(length + offset); }
    };
    inline bool has_bm(const std::string& f) { return !(f == "n" || f == "+r" || f.rfind("+us", 0) == 0 || f.rfind("+ud", 0) == 0); }
    inline size_t width(const std::string& f)
    {
        if (f.size() == 1)
            switch (f[0])
            {
                case 'b': case 'c': case 'C': return 1;
                case 's': case 'S': case 'e': return 2;
                case 'i': case 'I': case 'f': return 4;
                case 'l': case 'L': case 'g': return 8;
                default: return 0;
            }
        return ff::fixed_width(f);
    }
    // sizes the buffers of `total` elements must be seen with; get(i) = address of buffer i
    template <class G> std::vector<size_t> extents(const std::string& f, size_t t, size_t nb, G&& get)
    {
        std::vector<size_t> v;
        auto put = [&](size_t i, size_t n) { v.push_back(get(i) ? n : 0); };
        auto last = [&](size_t w) -> size_t { const void* p = get(1); if (!p) return 0; if (w == 4) { int32_t x; memcpy(&x, static_cast<const char*>(p) + t * 4, 4); return size_t(x); } int64_t x; memcpy(&x, static_cast<const char*>(p) + t * 8, 8); return size_t(x); };
        if (f == "n" || f == "+r") return v;
        if (f.rfind("+us", 0) == 0) { put(0, t); return v; }
        if (f.rfind("+ud", 0) == 0) { put(0, t); put(1, t * 4); return v; }
        put(0, (t + 7) / 8);
        if (f == "+s" || f.rfind("+w", 0) == 0) return v;
        if (f == "u" || f == "z") { put(1, (t + 1) * 4); put(2, last(4)); }
        else if (f == "U" || f == "Z") { put(1, (t + 1) * 8); put(2, last(8)); }
        else if (f == "+l" || f == "+m") put(1, (t + 1) * 4);
        else if (f == "+L") put(1, (t + 1) * 8);
        else if (f == "+vl") { put(1, t * 4); put(2, t * 4); }
        else if (f == "+vL") { put(1, t * 8); put(2, t * 8); }
        else if (f == "vu" || f == "vz")
        {
            put(1, t * 16);
            for (size_t i = 2; i + 1 < nb; ++i) { int64_t x = 0; if (get(nb - 1)) memcpy(&x, static_cast<const char*>(get(nb - 1)) + (i - 2) * 8, 8); put(i, size_t(x)); }
            put(nb - 1, (nb - 3) * 8);
        }
        else put(1, t * width(f));
        return v;
    }
    inline size_t n_bufs(const std::string& f)
    {
        if (f == "n" || f == "+r") return 0;
        if (f.rfind("+us", 0) == 0 || f == "+s" || f.rfind("+w", 0) == 0) return 1;
        if (f == "u" || f == "z" || f == "U" || f == "Z" || f == "+vl" || f == "+vL" || f == "vu" || f == "vz") return 3;
        return 2;
    }
    inline std::vector<size_t> extents(const Node& n, const std::string& f, size_t t)
    {
        return extents(f, t, n.own_a ? n.bytes.size() : n.ptrs.size(), [&](size_t i) -> const void* { return n.own_a ? (n.bytes[i].null ? nullptr : n.bytes[i].data()) : n.ptrs[i]; });
    }
    // whether the library's buffers hold `t` elements of format f
    inline bool fits(const Node& n, const std::string& f, size_t t)
    {
        if (!n.own_a) return false;
        const size_t w = (f == "u" || f == "z") ? 4 : (f == "U" || f == "Z") ? 8 : 0;
        if (w && !n.bytes[1].null && n.bytes[1].size() < (t + 1) * w) return false;
        const auto e = extents(n, f, t);
        if (e.size() != n.bytes.size()) return false;
        for (size_t i = 0; i < e.size(); ++i) if (e[i] > n.bytes[i].size()) return false;
        return true;
    }
    inline bool bit(const std::string& b, size_t i) { return (uint8_t(b[i / 8]) >> (i % 8)) & 1; }
    inline void recount(Node& n)
    {
        n.nulls_known = true;
        if (n.format == "n") n.nulls = n.length;
        else if (has_bm(n.format))
        {
            n.nulls = 0;
            if (!n.bytes[0].null) for (int64_t i = n.offset; i < n.offset + n.length; ++i) n.nulls += !bit(n.bytes[0], size_t(i));
        }
    }
    inline std::optional<std::string> opt(const char* p) { return p ? std::optional<std::string>(p) : std::nullopt; }
    // the model of a tree, from its structures
    inline std::unique_ptr<Node> capture(sp::arrow_proxy& p)
    {
        auto n = std::make_unique<Node>();
        const ArrowArray& a = p.array();
        const ArrowSchema& s = p.schema();
        n->own_a = a.release == &sp::release_arrow_array;
        n->own_s = s.release == &sp::release_arrow_schema;
        n->format = s.format; n->name = opt(s.name); n->meta = opt(s.metadata);
        n->flags = s.flags; n->length = a.length; n->offset = a.offset; n->nulls = a.null_count;
        if (n->own_a) for (auto& b : p.get_array_private_data()->buffers()) n->bytes.push_back(b.data() ? Bytes(std::string(reinterpret_cast<const char*>(b.data()), b.size())) : Bytes());
        else for (int64_t i = 0; i < a.n_buffers; ++i) n->ptrs.push_back(a.buffers[i]);
        for (auto& c : p.children()) n->ch.push_back(capture(c));
        if (p.dictionary()) n->dict = capture(*p.dictionary());
        return n;
    }
    inline std::string g_trace;
    inline void verify(sp::arrow_proxy& p, const Node& n, const std::string& path = "root")
    {
        auto ck = [&](bool ok, const char* w, const std::string& d = "") { if (!ok) vt::violation(w, path + " (" + n.format + ") " + d + " after " + g_trace); vt::cover("facts compared"); return ok; };
        const ArrowArray& a = p.array();
        const ArrowSchema& s = p.schema();
        const sp::arrow_proxy& q = p;
        // schema
        ck(q.format() == n.format && s.format && n.format == s.format, "format", std::string(q.format()) + "/" + (s.format ? s.format : "(null)"));
        ck(q.name().has_value() == n.name.has_value() && (!n.name || *q.name() == *n.name) && opt(s.name) == n.name, "name", s.name ? s.name : "(null)");
        ck(q.metadata().has_value() == n.meta.has_value() && (!n.meta || *q.metadata() == *n.meta) && opt(s.metadata) == n.meta, "metadata", s.metadata ? s.metadata : "(null)");
        int64_t fl = 0;
        for (auto f : q.flags()) fl |= int64_t(f);
        ck(fl == n.flags && s.flags == n.flags, "flags", vt::fmt("%lld/%lld want %lld", (long long) fl, (long long) s.flags, (long long) n.flags));
        ck(q.data_type() == sp::format_to_data_type(n.format), "data-type");
        // array
        ck(int64_t(q.length()) == n.length && a.length == n.length, "length", vt::fmt("%lld want %lld", (long long) a.length, (long long) n.length));
        ck(int64_t(q.offset()) == n.offset && a.offset == n.offset, "offset");
        ck(q.null_count() == a.null_count, "null-count-getter");
        if (n.nulls_known) ck(a.null_count == n.nulls, "null-count", vt::fmt("%lld want %lld (length %lld offset %lld)", (long long) a.null_count, (long long) n.nulls, (long long) n.length, (long long) n.offset));
        const size_t nb = n.own_a ? n.bytes.size() : n.ptrs.size();
        ck(q.is_created_with_sparrow() == (n.own_a && n.own_s), "created-with-sparrow");
        ck((a.release == &sp::release_arrow_array) == n.own_a && (s.release == &sp::release_arrow_schema) == n.own_s && a.release && s.release, "release-callback");
        if (ck(q.n_buffers() == nb && a.n_buffers == int64_t(nb), "buffer-count", vt::fmt("%zu/%lld want %zu", q.n_buffers(), (long long) a.n_buffers, nb)))
        {
            for (size_t i = 0; i < nb; ++i)
            {
                if (!n.own_a) { ck(a.buffers[i] == n.ptrs[i], "foreign-buffer-pointer"); continue; }
                auto& pb = p.get_array_private_data()->buffers();
                if (!ck(pb.size() == nb, "private-buffer-count")) break;
                ck(pb[i].data() == a.buffers[i], "buffer-pointer", vt::fmt("buffer %zu", i));
                ck((a.buffers[i] == nullptr) == n.bytes[i].null, "buffer-absence", vt::fmt("buffer %zu %s", i, n.bytes[i].null ? "still there" : "absent"));
                ck(pb[i].size() == n.bytes[i].size() && (n.bytes[i].empty() || memcmp(a.buffers[i], n.bytes[i].data(), n.bytes[i].size()) == 0), "buffer-contents", vt::fmt("buffer %zu size %zu want %zu", i, pb[i].size(), n.bytes[i].size()));
            }
            if (n.fresh)
            {
                const auto e = extents(n, n.format, n.total());
                if (ck(q.buffers().size() == e.size(), "view-count", vt::fmt("%zu want %zu", q.buffers().size(), e.size())))
                    for (size_t i = 0; i < e.size(); ++i)
                    {
                        ck(q.buffers()[i].size() == e[i], "view-size", vt::fmt("buffer %zu: %zu want %zu", i, q.buffers()[i].size(), e[i]));
                        ck(e[i] == 0 || q.buffers()[i].data() == a.buffers[i], "view-pointer", vt::fmt("buffer %zu", i));
                    }
                vt::cover("views compared", e.size());
            }
        }
        // children and dictionary
        if (ck(q.n_children() == n.ch.size() && q.children().size() == n.ch.size() && a.n_children == int64_t(n.ch.size()) && s.n_children == int64_t(n.ch.size()), "child-count",
               vt::fmt("%zu/%zu/%lld/%lld want %zu", q.n_children(), q.children().size(), (long long) a.n_children, (long long) s.n_children, n.ch.size())))
            for (size_t i = 0; i < n.ch.size(); ++i)
                if (ck(a.children[i] == &q.children()[i].array() && s.children[i] == &q.children()[i].schema(), "child-pointer", vt::fmt("child %zu", i)))
                    verify(p.children()[i], *n.ch[i], path + "/" + std::to_string(i));
        if (ck(bool(q.dictionary()) == bool(n.dict) && bool(a.dictionary) == bool(n.dict) && bool(s.dictionary) == bool(n.dict), "dictionary"))
            if (n.dict && ck(a.dictionary == &q.dictionary()->array() && s.dictionary == &q.dictionary()->schema(), "dictionary-pointer")) verify(*p.dictionary(), *n.dict, path + "/dict");
        if (n.src && n.src->foreign)
        {
            ck(n.src->tr.none_released() && n.src->tr.errors.empty(), "attached-data-released");
            ck(n.src->tr.intact(), "attached-data-changed");
        }
    }
    // what must have happened to a tree nothing refers to any more
    inline void detached(Node& n, bool parent_gone = true)
    {
        if (n.src)
        {
            Src& s = *n.src;
            if (s.lent_a || s.lent_s)
            {
                if (s.lent_a && s.lent_s)
                {
                    vt::check(s.a.release && s.s.release, "lent-structures-released", g_trace);
                    if (s.a.release && s.s.release)
                    {
                        sp::arrow_proxy q(&s.a, &s.s);
                        const bool f = n.fresh;
                        n.fresh = true;
                        verify(q, n, "lent");
                        n.fresh = f;
                    }
                }
                else vt::check(s.s.release != nullptr, "lent-schema-released", g_trace);
                if (s.lent_a && s.a.release) s.a.release(&s.a);
                if (s.lent_s && s.s.release) s.s.release(&s.s);
                vt::cover("lent structures left alone");
            }
            else if (s.as_dictionary) { vt::check(!s.a.release && !s.s.release, "dictionary-not-released", g_trace); vt::cover("dictionaries released"); }
            if (s.foreign)
            {
                vt::check(s.tr.all_released(), "attached-data-not-released", g_trace + vt::fmt(" %d of %d arrays, %d of %d schemas", s.tr.array_releases, s.tr.arrays, s.tr.schema_releases, s.tr.schemas));
                for (auto& e : s.tr.errors) vt::violation("released-twice", e + " " + g_trace);
                vt::cover("foreign structures released once");
            }
        }
        for (auto& c : n.ch) detached(*c);
        if (n.dict) detached(*n.dict);
    }
    struct At { sp::arrow_proxy* p; Node* n; std::string path; };
    inline void collect(sp::arrow_proxy& p, Node& n, std::vector<At>& v, const std::string& path = "/")
    {
        v.push_back({&p, &n, path});
        for (size_t i = 0; i < n.ch.size(); ++i) collect(p.children()[i], *n.ch[i], v, path + std::to_string(i) + "/");
        if (n.dict) collect(*p.dictionary(), *n.dict, v, path + "d/");
    }
    inline size_t depth(const Node& n) { size_t d = 0; for (auto& c : n.ch) d = std::max(d, depth(*c)); if (n.dict) d = std::max(d, depth(*n.dict)); return d + 1; }
    inline std::string text(Rng& r)
    {
        switch (r.below(4))
        {
            case 0: return "";
            case 1: return std::string(1 + r.below(60), char('a' + r.below(26)));
            case 2: return "\xc3\xa9t\xc3\xa9 " + std::to_string(r.below(9));
            default: return "n" + std::to_string(r.below(99));
        }
    }
    inline std::string noise(Rng& r, size_t n) { std::string s(n, 0); for (auto& c : s) c = char(r.below(256)); return s; }
    inline sp::buffer<uint8_t> to_buffer(const std::string& s) { return sp::buffer<uint8_t>(reinterpret_cast<const uint8_t*>(s.data()), reinterpret_cast<const uint8_t*>(s.data()) + s.size()); }
    // a new tree to attach
    inline std::shared_ptr<Src> new_src(Rng& r)
    {
        auto x = std::make_shared<Src>();
        TD t = gen_t(r, int(r.below(3)));
        Col c = gen_col(t, gen_len(r) % 18, r, 30);
        x->foreign = r.chance(1, 3);
        if (x->foreign) { fp::ProdOpts po; po.bool_bytes = true; fp::Producer p(x->tr, r, po); p.schema(t, x->s); p.array(t, c, x->a); }
        else { auto [a, s] = sp::extract_arrow_structures(sb::build(t, c, r)); x->a = a; x->s = s; }
        return x;
    }
}
