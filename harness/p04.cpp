// P04: copies are deep, equal and independent of their source; assignment replaces; self-assignment changes nothing.
#include "views.hpp"
#include "world.hpp"
#include "formats.hpp"
#if VT_PART == 0
VT_MAIN_DEFS
#endif
using namespace sc;
namespace
{
    void expect(const Col& want, const Col& got, const std::string& what, const Obj& o)
    {
        if (!(want == got)) vt::violation(what, o.how + " " + td_str(o.t) + " want " + col_str(want) + " got " + col_str(got));
        vt::cover("elements compared", want.size());
    }
    void end_source(P& o)
    {
        auto lent = o->lent;
        o.reset();            // destroys the parent chain too
        for (auto& s : lent) s->release();
    }
}
void typed1(vt::Case&, const TD&);
void typed2(vt::Case&, const TD&);
void typed3(vt::Case&, const TD&);
#if VT_PART == 0
namespace
{
    void typed(vt::Case& cs)
    {
        TD t = gen_t(cs.rng);
        const int g = group(t);
        if (g == 1) typed1(cs, t);
        else if (g == 2) typed2(cs, t);
        else typed3(cs, t);
    }
    void full(sp::array& a, const Col& c, const std::string& what, const Obj& o)
    {
        expect(c, sr::read(a), what, o);
        expect(c, sr::read_visit_iter(a), what + "-iterated", o);
        std::string err;
        auto d = decode(a, err);
        if (!d) vt::violation(what + "-structures", o.how + " " + td_str(o.t) + ": " + err);
        else expect(c, *d, what + "-decoded", o);
        vt::cover("states read");
    }
    void scribble(Obj& o, Rng& r)
    {
        // overwrite whatever the foreign producer still holds
        for (auto* v : {&o.owned, &o.lent})
            for (auto& s : *v)
                for (auto& n : s->tr.nodes)
                    for (auto& b : n->blocks)
                    {
                        for (size_t i = 0; i < b.n; ++i) static_cast<unsigned char*>(b.p)[i] = (unsigned char) r.next();
                        vt::cover("producer blocks overwritten");
                    }
    }
    void scribble_structure(const ArrowArray* a, Rng& r, int depth = 0)
    {
        // the first byte of every buffer of the source's own memory
        for (int64_t i = 0; i < a->n_buffers; ++i) if (a->buffers[i] && a->length > 0 && i > 0)
            { auto* p = static_cast<unsigned char*>(const_cast<void*>(a->buffers[i])); *p = (unsigned char) ~*p; vt::cover("source buffers overwritten"); }
        for (int64_t i = 0; i < a->n_children; ++i) scribble_structure(a->children[i], r, depth + 1);
        if (a->dictionary) scribble_structure(a->dictionary, r, depth + 1);
    }
    // give the object another provenance: sliced, viewed, moved, re-imported
    P vary(P o, Rng& r)
    {
        const int k = int(r.below(6));
        auto n = std::make_shared<Obj>();
        if (k == 0 || k == 1)
        {
            const size_t a = r.below(o->size() + 1), b = a + r.below(o->size() - a + 1);
            n->t = o->t;
            n->c.assign(o->c.begin() + long(a), o->c.begin() + long(b));
            n->how = o->how + (k ? "/slice" : "/view");
            vt::label(std::string(k ? "slice|" : "slice_view|") + kname(o->t.k));
            if (k) n->arr.emplace(o->arr->slice(a, b));
            else { n->arr.emplace(o->arr->slice_view(a, b)); n->parent = o; n->view = true; }
            return n;
        }
        if (k == 2)
        {
            vt::label(std::string("move|") + kname(o->t.k));
            sp::array m(std::move(*o->arr));
            o->arr.emplace(std::move(m));
            o->how += "/moved";
        }
        else if (k == 3)
        {
            vt::label(std::string("moved-into|") + kname(o->t.k));
            sp::array m;
            m = std::move(*o->arr);
            o->arr = std::move(m);
            o->how += "/moved-into";
        }
        return o;
    }
    void dynamic(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("obtain");
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        P o = obtain(t, c, r, gen_how(r));
        o = vary(o, r);
        if (r.chance(1, 3)) o = vary(o, r);
        const std::string sig = schema_sig(*o->arr);
        const bool shallow = o->shallow;
        const std::string k = kname(t.k);
        vt::cover("provenance:" + o->how.substr(0, o->how.find('/')));
        vt::distinct(vt::fnv(o->how + td_str(t) + col_str(o->c)));
        if (r.chance(1, 50)) vt::sample(short_str(*o));
        std::optional<sp::array> cp;
        const int kind = int(r.below(4));
        if (kind == 0) { vt::label("copy|" + k); cp.emplace(*o->arr); }
        else if (kind == 1) { vt::label("assign-over-empty|" + k); cp.emplace(); *cp = *o->arr; }
        else if (kind == 2)
        {
            TD t2 = r.chance(1, 2) ? t : gen_t(r);
            Col c2 = gen_col(t2, gen_len(r), r, 20);
            vt::label("obtain-target|" + std::string(kname(t2.k)));
            P o2 = obtain(t2, c2, r, gen_how(r));
            vt::label("assign-over|" + k);
            *o2->arr = *o->arr;
            for (auto& s : o2->owned) vt::check(s->tr.array_releases == s->tr.arrays, "assigned-over-not-released");
            cp.emplace(std::move(*o2->arr));
            o2->arr.reset();
        }
        else
        {
            vt::label("copy-of-copy|" + k);
            sp::array a(*o->arr);
            cp.emplace(a);
            vt::check(shallow || shared_memory(a, *cp).empty(), "copy-of-copy-shares", shallow ? "" : shared_memory(a, *cp));
        }
        vt::label("compare|" + k);
        full(*cp, o->c, "copy", *o);
        full(*o->arr, o->c, "source-after-copy", *o);
        vt::check(schema_sig(*cp) == sig && schema_sig(*o->arr) == sig, "schema-changed", sig + " vs " + schema_sig(*cp));
        bool nan = false;
        for (auto& v : o->c) nan = nan || has_nan(v);
        if (!nan) vt::check(*cp == *o->arr, "copy-not-equal", short_str(*o));
        if (!shallow)
        {
            const std::string sh = shared_memory(*cp, *o->arr);
            vt::check(sh.empty(), "shared-memory", o->how + " " + td_str(t) + ": " + sh);
            vt::check(sp::owns_arrow_array(*cp) && sp::owns_arrow_schema(*cp), "copy-does-not-own");
            vt::cover("disjointness checks");
        }
        const Col col = o->c;
        Obj info; info.how = o->how; info.t = o->t;
        switch (r.below(shallow ? 2 : 5))
        {
            case 0:   // self-assignment
            {
                vt::label("self-assign|" + k);
                auto& ref = *cp;
                *cp = ref;
                full(*cp, col, "self-assigned", info);
                if (shallow) break;
                vt::label("self-assign-source|" + k);
                auto& ref2 = *o->arr;
                *o->arr = ref2;
                full(*o->arr, col, "self-assigned-source", info);
                break;
            }
            case 1:   // the copy dies first
                vt::label("destroy-copy|" + k);
                cp.reset();
                full(*o->arr, col, "source-after-copy-died", info);
                vt::cover("copies destroyed first");
                break;
            case 2: // the source dies first
                vt::label("destroy-source|" + k);
                end_source(o);
                full(*cp, col, "copy-after-source-died", info);
                vt::cover("sources destroyed first");
                break;
            case 3: // the source's memory is overwritten
                vt::label("overwrite-source|" + k);
                if (!o->owned.empty() || !o->lent.empty()) scribble(*o, r);
                else scribble_structure(sp::get_arrow_array(*o->arr), r);
                full(*cp, col, "copy-after-source-overwritten", info);
                break;
            default: // the copy is overwritten
            {
                vt::label("overwrite-copy|" + k);
                scribble_structure(sp::get_arrow_array(*cp), r);
                full(*o->arr, col, "source-after-copy-overwritten", info);
                break;
            }
        }
        if (o) { cp.reset(); end_source(o); }
    }
    void proxies(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("obtain");
        P o = gen_obj(r), o2 = gen_obj(r);
        const std::string k = kname(o->t.k);
        auto& p = sp::detail::array_access::get_arrow_proxy(*o->arr);
        vt::distinct(vt::fnv("proxy" + o->how + td_str(o->t) + col_str(o->c)));
        std::optional<sp::arrow_proxy> q;
        if (r.chance(1, 2)) { vt::label("proxy-copy|" + k); q.emplace(p); }
        else
        {
            vt::label("proxy-assign|" + k);
            q.emplace(sp::detail::array_access::get_arrow_proxy(*o2->arr));
            *q = p;
        }
        if (r.chance(1, 3)) { auto& ref = *q; *q = ref; }
        if (r.chance(1, 3)) { sp::arrow_proxy m(std::move(*q)); q.emplace(std::move(m)); }
        vt::check(q->owns_array() && q->owns_schema(), "proxy-copy-does-not-own");
        auto compare = [&](const char* when)
        {
            Reader rd; rd.o = strict();
            auto d = rd.read(&q->array(), &q->schema());
            if (!d) vt::violation(std::string("proxy-copy-structures-") + when, rd.errors());
            else expect(o->c, *d, std::string("proxy-copy-") + when, *o);
            vt::check(q->length() == o->c.size() && int64_t(q->null_count()) == int64_t(p.null_count()) && q->n_children() == p.n_children() && q->format() == p.format()
                      && q->name() == p.name() && q->metadata() == p.metadata() && q->flags() == p.flags(), std::string("proxy-copy-attributes-") + when);
            vt::check(q->buffers().size() == p.buffers().size() && q->children().size() == p.children().size() && (q->dictionary() == nullptr) == (p.dictionary() == nullptr),
                      std::string("proxy-copy-views-") + when);
            for (size_t i = 0; i < q->children().size(); ++i)
                vt::check(&q->children()[i].array() == q->array().children[i] && &q->children()[i].schema() == q->schema().children[i], "proxy-copy-child-view-stale");
            for (size_t i = 0; i < q->buffers().size(); ++i)
                vt::check(q->buffers()[i].empty() || static_cast<const void*>(q->buffers()[i].data()) == q->array().buffers[i], "proxy-copy-buffer-view-stale");
            vt::cover("proxy copies");
        };
        vt::label("proxy-compare|" + k);
        compare("now");
        const Col c = o->c;
        sp::arrow_proxy keep(*q);
        vt::label("proxy-source-died|" + k);
        Obj info; info.how = o->how; info.t = o->t;
        end_source(o);
        Reader rd; rd.o = strict();
        for (auto* x : {&*q, &keep})
        {
            auto d = rd.read(&x->array(), &x->schema());
            if (!d) vt::violation("proxy-copy-structures-after-source-died", rd.errors());
            else expect(c, *d, "proxy-copy-after-source-died", info);
            for (auto& b : x->buffers()) { unsigned s = 0; for (auto e : b) s += e; volatile unsigned sink = s; (void) sink; }
        }
        end_source(o2);
    }
    void batches(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("obtain");
        const size_t n = gen_len(r), m = 1 + r.below(4);
        std::vector<P> objs, objs2;
        auto mk = [&](std::vector<P>& v, size_t count)
        {
            std::vector<std::string> names; std::vector<sp::array> cols;
            for (size_t i = 0; i < count; ++i)
            {
                TD t = gen_t(r);
                How h; do h = gen_how(r); while (h == How::POINTER || h == How::SHARED);
                v.push_back(obtain(t, gen_col(t, n, r, 30), r, h));
                names.push_back("n" + std::to_string(r.below(3)) + std::to_string(i));
                if (r.chance(1, 2)) { cols.push_back(std::move(*v.back()->arr)); v.back()->arr.reset(); }
                else cols.push_back(*v.back()->arr);
            }
            return std::make_pair(names, sp::record_batch(std::vector<std::string>(names), std::move(cols)));
        };
        auto [names, rb] = mk(objs, m);
        std::optional<sp::record_batch> src(std::move(rb)), cp;
        if (r.chance(1, 2)) { vt::label("batch-copy"); cp.emplace(*src); }
        else
        {
            auto x = mk(objs2, 1 + r.below(4));
            cp.emplace(std::move(x.second));
            vt::label("batch-assign");
            *cp = *src;
        }
        if (r.chance(1, 3)) { vt::label("batch-self-assign"); auto& ref = *cp; *cp = ref; }
        if (r.chance(1, 3)) { vt::label("batch-move"); sp::record_batch z(std::move(*cp)); cp.emplace(std::move(z)); }
        auto compare = [&](const sp::record_batch& b, const char* what)
        {
            vt::check(b.nb_columns() == m && b.nb_rows() == n, std::string("batch-shape-") + what);
            if (b.nb_columns() != m) return;
            for (size_t i = 0; i < m; ++i)
            {
                vt::check(b.get_column_name(i) == names[i], std::string("batch-name-") + what);
                expect(objs[i]->c, sr::read(b.get_column(i)), std::string("batch-column-") + what, *objs[i]);
                expect(objs[i]->c, sr::read(b.get_column(names[i])), std::string("batch-column-by-name-") + what, *objs[i]);
            }
            vt::cover("batches compared");
        };
        vt::label("batch-compare");
        compare(*cp, "copy"); compare(*src, "source");
        for (size_t i = 0; i < m; ++i)
        {
            const std::string sh = shared_memory(const_cast<sp::array&>(cp->get_column(i)), const_cast<sp::array&>(src->get_column(i)));
            vt::check(sh.empty(), "batch-shares-memory", sh);
        }
        vt::distinct(vt::fnv("batch" + std::to_string(n) + td_str(objs[0]->t) + col_str(objs[0]->c)));
        if (r.chance(1, 2))
        {
            vt::label("batch-source-died");
            src.reset();
            for (auto& o : objs) { o->arr.reset(); for (auto& s : o->lent) s->release(); }
            compare(*cp, "after-source-died");
        }
        else
        {
            vt::label("batch-copy-died");
            cp.reset();
            compare(*src, "after-copy-died");
        }
        vt::label("batch-end");
        src.reset(); cp.reset();
        for (auto* v : {&objs, &objs2}) for (auto& o : *v) { if (o) end_source(o); }
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        if (cs.mode == "formats") { ff::proxy_case(cs.rng); return; }
        if (cs.mode == "views") { vw::history(cs, vw::COPY | vw::MUTATE); return; }
        const auto d = cs.rng.below(10);
        if (d < 5) dynamic(cs);
        else if (d < 8) typed(cs);
        else if (d < 9) proxies(cs);
        else batches(cs);
    });
}
#else
namespace
{
    template <class A> constexpr bool mutable_values = requires(A& a) { a.push_back(a[0]); };
    void typed(vt::Case& cs, const TD& t)
    {
        Rng& r = cs.rng;
        // t2: another type of the same typed class
        TD t2 = t;
        if (r.chance(2, 3)) { t2 = gen_t(r, -1, t.k); t2.key = t.key; }
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100})), c2 = gen_col(t2, gen_len(r), r, 30);
        const std::string k = kname(t.k);
        vt::distinct(vt::fnv(td_str(t) + col_str(c)));
        Obj info; info.t = t; info.how = "typed";
        // c as imported, sliced or built; c2 built: both hold the same typed class
        vt::label("obtain|" + k);
        How h; do h = gen_how(r); while (h == How::POINTER || h == How::SHARED);
        P o = obtain(t, c, r, h), o2 = obtain(t2, c2, r, How::BUILT);
        info.how = "typed " + o->how;
        visit_group<VT_PART>(*o->arr, [&](const auto& src)
        {
            using A = std::decay_t<decltype(src)>;
            std::optional<A> cp;
            const std::type_info* ti = nullptr;
            const void* other = typed_ptr(*o2->arr, ti);
            if (!vt::check(*ti == typeid(A), "visit-presents-another-type", td_str(t) + " " + td_str(t2))) return;
            const A& src2 = *static_cast<const A*>(other);
            switch (r.below(5))
            {
                case 0: vt::label("typed-copy|" + k); cp.emplace(src); break;
                case 1:
                    vt::label("typed-copy-assign|" + k);
                    cp.emplace(src2);
                    *cp = src;
                    vt::cover("typed assignments");
                    break;
                case 2:
                {
                    vt::label("typed-copy-move|" + k);
                    A x(src);
                    cp.emplace(std::move(x));
                    break;
                }
                case 3:
                {
                    vt::label("typed-move-assign|" + k);
                    A x(src2), y(src);
                    cp.emplace(x);
                    *cp = std::move(y);
                    expect(c2, read_all(x, "other"), "typed-other-copy", info);
                    vt::cover("typed assignments");
                    break;
                }
                default:
                {
                    vt::label("typed-self-assign|" + k);
                    cp.emplace(src);
                    auto& ref = *cp;
                    *cp = ref;
                }
            }
            expect(c, read_all(*cp, "copy"), "typed-copy", info);
            expect(c, read_all(src, "source"), "typed-source", info);
            vt::check(cp->size() == c.size(), "typed-size");
            vt::cover("typed copies");
            bool nan = false;
            for (auto& v : c) nan = nan || has_nan(v);
            if (!nan) vt::check(*cp == src, "typed-copy-not-equal", td_str(t) + " " + col_str(c));
            sp::array wrapped(std::move(*cp));
            std::string err;
            auto d = decode(wrapped, err);
            if (!d) vt::violation("typed-copy-structures", err);
            else expect(c, *d, "typed-copy-decoded", info);
            const std::string sh = shared_memory(wrapped, *o->arr);
            vt::check(sh.empty(), "typed-copy-shares", td_str(t) + ": " + sh);
            // the source dies or is overwritten
            if (r.chance(1, 2))
            {
                vt::label("typed-mutation|" + k);
                std::optional<A> m;
                m.emplace(src);
                A keep(*m);
                if constexpr (mutable_values<A>)
                {
                    for (size_t i = 0; i < m->size(); ++i) if (r.chance(1, 2))
                    {
                        if (r.chance(1, 3)) (*m)[i] = sp::nullval;
                        else { typename A::inner_value_type v{}; (*m)[i] = sp::make_nullable(v, true); }
                        vt::cover("element mutations");
                    }
                    for (size_t i = 0; i < r.below(4) && m->size(); ++i) m->pop_back(), m->push_back(sp::make_nullable(typename A::inner_value_type{}, r.chance(1, 2)));
                }
                expect(c, read_all(keep, "kept"), "copy-after-source-mutated", info);
                expect(c, read_all(src, "source"), "source-after-copy-mutated", info);
                m.reset();
                expect(c, read_all(keep, "kept"), "copy-after-source-destroyed", info);
            }
            cp.emplace(src);
        });
        vt::label("typed-source-dies|" + k);
        sp::array kept;
        visit_group<VT_PART>(*o->arr, [&](const auto& src) { auto x = src; kept = sp::array(std::move(x)); });
        end_source(o);
        expect(c, sr::read_visit_iter(kept), "typed-copy-after-source-died", info);
        expect(c, sr::read(kept), "typed-copy-after-source-died", info);
    }
}
#if VT_PART == 1
void typed1(vt::Case& cs, const TD& t) { typed(cs, t); }
#elif VT_PART == 2
void typed2(vt::Case& cs, const TD& t) { typed(cs, t); }
#else
void typed3(vt::Case& cs, const TD& t) { typed(cs, t); }
#endif
#endif
