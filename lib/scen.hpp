// Scenario building blocks: arrays of any layout obtained in every way the library offers, with their logical content
// and the release accounting of whatever stands behind them.
#pragma once
#include "foreign.hpp"
#include "sp_build.hpp"
#include "sp_read.hpp"
#include "sparrow/record_batch.hpp"
#include <typeinfo>

namespace sc
{
    using namespace am;
    namespace sp = sparrow;

    // what stands behind an array: a foreign producer, raw structures, or a typed array
    struct Source
    {
        fp::Tracker tr;
        ArrowArray a{};
        ArrowSchema s{};
        bool foreign = false, lent_a = false, lent_s = false;
        std::function<void()> drop;   // typed array owner
        void release()
        {
            if (lent_a && a.release) a.release(&a);
            if (lent_s && s.release) s.release(&s);
            if (drop) { drop(); drop = nullptr; }
        }
        ~Source() { release(); }
    };
    struct Obj
    {
        TD t;
        Col c;
        std::string how;
        std::vector<std::shared_ptr<Source>> owned;   // sources this object must release
        std::vector<std::shared_ptr<Source>> lent;    // sources that must outlive it
        std::shared_ptr<Obj> parent;                  // the object this one views
        bool shallow = false;                         // holds a typed array by pointer or shared pointer
        bool view = false;
        bool owns_a = true, owns_s = true;
        std::optional<sp::array> arr;                 // last: destroyed before what it refers to
        size_t size() const { return c.size(); }
    };
    using P = std::shared_ptr<Obj>;

    enum class How { BUILT, OWNED, LENT, HALF, REIMPORT, RELENT, POINTER, SHARED };
    inline const char* how_name(How h)
    {
        static const char* n[] = {"built", "import-owned", "import-lent", "import-half", "reimport-owned", "reimport-lent", "by-pointer", "by-shared-pointer"};
        return n[int(h)];
    }
    inline void nullable_flags(TD& t)
    {
        t.flags |= 2;
        for (auto& c : t.ch) nullable_flags(c);
    }
    // layouts the typed constructors can build as they are (names, metadata and flags of nested schemas are not kept)
    inline P obtain(const TD& t, const Col& c, Rng& r, How h, fp::ProdOpts po = {})
    {
        auto o = std::make_shared<Obj>();
        o->t = t; o->c = c; o->how = how_name(h);
        po.bool_bytes = true;
        auto import = [&](bool lend_a, bool lend_s)
        {
            auto s = std::make_shared<Source>();
            s->foreign = true; s->lent_a = lend_a; s->lent_s = lend_s;
            fp::Producer p(s->tr, r, po);
            p.schema(t, s->s);
            p.array(t, c, s->a);
            if (lend_a) { o->arr.emplace(&s->a, &s->s); o->lent.push_back(s); }
            else if (lend_s) { o->arr.emplace(std::move(s->a), &s->s); o->owned.push_back(s); o->lent.push_back(s); }
            else { o->arr.emplace(std::move(s->a), std::move(s->s)); o->owned.push_back(s); }
            o->owns_a = !lend_a; o->owns_s = !lend_s;
        };
        switch (h)
        {
            case How::BUILT: o->arr.emplace(sb::build(t, c, r)); break;
            case How::OWNED: import(false, false); break;
            case How::LENT: import(true, true); break;
            case How::HALF: import(false, true); break;
            case How::REIMPORT: case How::RELENT:
            {
                sp::array b = sb::build(t, c, r);
                auto [a, s] = sp::extract_arrow_structures(std::move(b));
                if (h == How::REIMPORT) o->arr.emplace(std::move(a), std::move(s));
                else
                {
                    auto src = std::make_shared<Source>();
                    src->a = a; src->s = s; src->lent_a = src->lent_s = true;
                    o->arr.emplace(&src->a, &src->s);
                    o->lent.push_back(src);
                    o->owns_a = o->owns_s = false;
                }
                break;
            }
            case How::POINTER: case How::SHARED:
                o->shallow = true;
                {
                    std::shared_ptr<void> keep;
                    o->arr.emplace(sb::build_wrapped(t, c, r, {}, h == How::POINTER ? sb::Wrap::POINTER : sb::Wrap::SHARED, &keep));
                    if (h == How::POINTER)
                    {
                        auto src = std::make_shared<Source>();
                        src->drop = [keep]() mutable { keep.reset(); };
                        o->lent.push_back(src);
                    }
                }
                break;
        }
        return o;
    }
    inline How gen_how(Rng& r)
    {
        return r.pick({How::BUILT, How::BUILT, How::BUILT, How::OWNED, How::OWNED, How::OWNED, How::LENT, How::LENT, How::HALF, How::REIMPORT, How::RELENT, How::POINTER, How::SHARED});
    }
    inline size_t gen_len(Rng& r)
    {
        if (g_large) return r.pick({1000, 4097, 32768, 65535, 65536, 65537, 66001, 70000});
        return r.pick({0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 33, 64, 65});
    }
    inline TD gen_t(Rng& r, int depth = -1, std::optional<K> top = std::nullopt)
    {
        TypeOpts to; to.names = true; to.ree_signed = true;
        return gen_type(r, to, depth < 0 ? int(1 + r.below(3)) : depth, top);
    }
    inline P gen_obj(Rng& r, int depth = -1, fp::ProdOpts po = {})
    {
        TD t = gen_t(r, depth);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        return obtain(t, c, r, gen_how(r), po);
    }

    inline ReadOpts strict()
    {
        ReadOpts o; o.bool_bytes = true; return o;
    }
    // decode the C structures an array exposes with the independent reader
    inline std::optional<Col> decode(sp::array& a, std::string& err, TD* t = nullptr)
    {
        Reader rd; rd.o = strict();
        auto c = rd.read(sp::get_arrow_array(a), sp::get_arrow_schema(a), t);
        if (!c) err = rd.errors();
        return c;
    }
    // all memory regions an array structure tree refers to
    struct Region { const char* p; size_t n; std::string what; };
    inline void regions(const ArrowArray* a, const ArrowSchema* s, std::vector<Region>& out, const std::string& path = "root")
    {
        auto add = [&](const void* p, size_t n, const char* w) { if (p && n) out.push_back({static_cast<const char*>(p), n, path + ":" + w}); };
        add(a->buffers, size_t(a->n_buffers) * 8, "buffer table");
        add(a->private_data, 1, "private data");
        add(s->private_data, 1, "schema private data");
        add(a->children, size_t(a->n_children) * 8, "child table");
        add(s->children, size_t(s->n_children) * 8, "schema child table");
        if (s->name) add(s->name, strlen(s->name) + 1, "name");
        if (s->metadata) add(s->metadata, strlen(s->metadata) + 1, "metadata");
        if (s->format) add(s->format, strlen(s->format) + 1, "format");
        for (int64_t i = 0; i < a->n_buffers; ++i) add(a->buffers[i], 1, "buffer");
        for (int64_t i = 0; i < a->n_children; ++i)
        {
            add(a->children[i], sizeof(ArrowArray), "child");
            add(s->children[i], sizeof(ArrowSchema), "child schema");
            regions(a->children[i], s->children[i], out, path + "/" + std::to_string(i));
        }
        if (a->dictionary)
        {
            add(a->dictionary, sizeof(ArrowArray), "dictionary");
            add(s->dictionary, sizeof(ArrowSchema), "dictionary schema");
            regions(a->dictionary, s->dictionary, out, path + "/dict");
        }
    }
    // empty string when the two arrays share no memory
    inline std::string shared_memory(sp::array& x, sp::array& y)
    {
        std::vector<Region> a, b;
        regions(sp::get_arrow_array(x), sp::get_arrow_schema(x), a);
        regions(sp::get_arrow_array(y), sp::get_arrow_schema(y), b);
        std::sort(a.begin(), a.end(), [](auto& l, auto& r) { return l.p < r.p; });
        for (auto& q : b)
        {
            auto it = std::upper_bound(a.begin(), a.end(), q.p, [](const char* p, const Region& r) { return p < r.p; });
            if (it != a.begin() && std::prev(it)->p + std::prev(it)->n > q.p) return std::prev(it)->what + " and " + q.what;
            if (it != a.end() && q.p + q.n > it->p) return it->what + " and " + q.what;
        }
        return "";
    }
    inline std::string short_str(const Obj& o) { return o.how + " " + td_str(o.t) + " " + col_str(o.c); }
}
// schema trees as text, for comparison
namespace sc
{
    inline std::string schema_sig(const ArrowSchema* s)
    {
        std::string o = std::string(s->format ? s->format : "(null)") + "|" + (s->name ? std::string("n:") + s->name : "-") + "|" + (s->metadata ? std::string("m:") + s->metadata : "-")
                        + "|" + std::to_string(s->flags);
        for (int64_t i = 0; i < s->n_children; ++i) o += "(" + schema_sig(s->children[i]) + ")";
        if (s->dictionary) o += "<" + schema_sig(s->dictionary) + ">";
        return o;
    }
    inline std::string schema_sig(sp::array& a) { return schema_sig(sp::get_arrow_schema(a)); }
    // the bytes of a structure tree: fields, tables and strings (not the buffers)
    inline void snapshot(const ArrowArray* a, std::string& out, bool root_too)
    {
        if (root_too) out.append(reinterpret_cast<const char*>(a), sizeof(*a));
        if (a->buffers) out.append(reinterpret_cast<const char*>(a->buffers), size_t(a->n_buffers) * 8);
        if (a->children) out.append(reinterpret_cast<const char*>(a->children), size_t(a->n_children) * 8);
        for (int64_t i = 0; i < a->n_children; ++i) snapshot(a->children[i], out, true);
        if (a->dictionary) snapshot(a->dictionary, out, true);
    }
    inline void snapshot(const ArrowSchema* s, std::string& out, bool root_too)
    {
        if (root_too) out.append(reinterpret_cast<const char*>(s), sizeof(*s));
        for (const char* x : {s->format, s->name, s->metadata}) if (x) out += std::string(x) + "\n";
        if (s->children) out.append(reinterpret_cast<const char*>(s->children), size_t(s->n_children) * 8);
        for (int64_t i = 0; i < s->n_children; ++i) snapshot(s->children[i], out, true);
        if (s->dictionary) snapshot(s->dictionary, out, true);
    }
    // typed arrays in three groups, so that a harness can compile its typed part in parallel
    template <class A> constexpr int group()
    {
        if constexpr (requires(A& a) { a.push_back(a[0]); }) return 1;
        else if constexpr (requires { typename A::keys_buffer_type; }) return 3;
        else return 2;
    }
    inline int group(const TD& t) { return t.k == K::DICT ? 3 : is_fixed(t.k) ? 1 : 2; }
    template <int G, class F> void visit_group(const sp::array& a, F&& f)
    {
        bool hit = false;
        a.visit([&](const auto& t) { if constexpr (group<std::decay_t<decltype(t)>>() == G) { hit = true; f(t); } });
        if (!hit) vt::violation("visit-presents-another-layout");
    }
    // address and type of the typed array a dynamic one presents
    inline const void* typed_ptr(const sp::array& a, const std::type_info*& ti)
    {
        return a.visit([&ti](const auto& t) -> const void* { ti = &typeid(t); return &t; });
    }
    // everything a typed array reports, read in several ways
    template <class A> Col read_all(const A& a, const char* what)
    {
        Col x = sr::read_index(a);
        Col y = sr::read_iter(a);
        if (!(x == y)) vt::violation(std::string("index-and-iteration-differ-") + what, col_str(x) + " vs " + col_str(y));
        return x;
    }
}
