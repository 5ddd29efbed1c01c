#include "views.hpp"
#if VT_PART == 0
void vw::history(vt::Case& cs, int focus)
{
    if (cs.rng.chance(1, 2)) history1(cs, focus); else history2(cs, focus);
}
#else
#include "laws.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"
using namespace sc;
using namespace vw;
namespace
{
#if VT_PART == 1
    using A = sp::string_view_array;
    constexpr K KK = K::SVIEW;
#else
    using A = sp::binary_view_array;
    constexpr K KK = K::BVIEW;
#endif
    using V = A::inner_value_type;
    struct O
    {
        Col c;
        std::string how;
        std::vector<std::shared_ptr<Source>> owned, lent;
        std::shared_ptr<O> parent;
        bool fixed = false;     // may not be edited: somebody else's memory is behind it
        bool stale = false;     // edited through its bitmap: the declared null count is that of before
        std::optional<A> a;
        ~O() { a.reset(); }
    };
    using PO = std::shared_ptr<O>;
    sp::arrow_proxy& px(A& a) { return sp::detail::array_access::get_arrow_proxy(a); }

    struct M
    {
        Rng& r;
        int f;
        TD t;
        std::vector<PO> objs;
        std::vector<std::shared_ptr<Source>> sources;
        std::string log;

        M(Rng& r, int f) : r(r), f(f) { t.k = KK; if (r.chance(1, 2)) t.name = "col"; if (r.chance(1, 3)) t.flags = 2; }
        void op(const char* x) { log += x; log += ' '; vt::label(std::string("views|") + x); vt::cover(std::string("op:") + x); }

        Col column()
        {
            Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 30, 50, 100}));
            vt::cover("elements", c.size());
            for (auto& v : c) if (v.null) vt::cover("nulls"); else if (atom_bytes(v).size() > 12) vt::cover("long values"); else vt::cover("inline values");
            return c;
        }
        void make()
        {
            auto o = std::make_shared<O>();
            o->c = column();
            const int h = int(r.below(5));
            if (h == 0)
            {
                op("build");
                o->how = "built";
                std::vector<std::string> own;
                std::vector<bool> valid;
                for (auto& v : o->c) { own.push_back(v.null ? (r.chance(1, 2) ? "" : "hidden and long enough") : std::string(atom_bytes(v))); valid.push_back(!v.null); }
                std::vector<V> vals;
                for (auto& s : own) vals.emplace_back(reinterpret_cast<V::const_pointer>(s.data()), s.size());
                o->a.emplace(vals, valid);
            }
            else
            {
                auto s = std::make_shared<Source>();
                s->foreign = true; s->lent_a = h >= 3; s->lent_s = h >= 2;
                fp::Producer p(s->tr, r);
                p.schema(t, s->s);
                p.array(t, o->c, s->a);
                sources.push_back(s);
                op(h == 1 ? "import-owned" : h == 2 ? "import-half" : "import-lent");
                if (h >= 3) { o->how = "lent"; o->a.emplace(sp::arrow_proxy(&s->a, &s->s)); o->lent = {s}; }
                else if (h == 2) { o->how = "half"; o->a.emplace(sp::arrow_proxy(std::move(s->a), &s->s)); o->owned = {s}; o->lent = {s}; }
                else { o->how = "owned"; o->a.emplace(sp::arrow_proxy(std::move(s->a), std::move(s->s))); o->owned = {s}; }
                o->fixed = true;
            }
            objs.push_back(o);
        }
        PO any() { return objs[r.below(objs.size())]; }
        bool viewed(const PO& o) { for (auto& x : objs) if (x->parent == o) return true; return false; }
        void same(const O& o, const Col& got, const char* what) { if (!(o.c == got)) vt::violation(what, o.how + " want " + col_str(o.c) + " got " + col_str(got) + " after " + log); }
        void check(const PO& o)
        {
            A& a = *o->a;
            const A& ca = a;
            if (!vt::check(ca.size() == o->c.size() && ca.empty() == o->c.empty(), "size", o->how + vt::fmt(" %zu want %zu after ", ca.size(), o->c.size()) + log)) return;
            if (f & (READ | SLICE | COPY))
            {
                same(*o, sr::read_index(ca), "index");
                same(*o, sr::read_iter(ca), "iteration");
                if (!o->c.empty())
                {
                    vt::check(sr::of_element(ca.front()) == o->c.front() && sr::of_element(ca.back()) == o->c.back(), "front-or-back", log);
                    for (size_t i = 0; i < o->c.size(); ++i) if (!(sr::of_element(ca.at(i)) == o->c[i])) vt::violation("at", log);
                    bool thrown = false;
                    try { (void) ca.at(o->c.size() + r.below(3)); } catch (const std::out_of_range&) { thrown = true; }
                    vt::check(thrown, "at-past-the-end", log);
                }
                vt::check(px(a).data_type() == (KK == K::SVIEW ? sp::data_type::STRING_VIEW : sp::data_type::BINARY_VIEW), "data-type");
                vt::cover("windows read");
            }
            if (f & LAWS)
            {
                bt::Problems p;
                typed(ca, o->c, r, p);
                p.report("", o->how + " after " + log);
            }
            if ((f & DECODE) && !o->stale)
            {
                Reader rd; rd.o = strict();
                auto d = rd.read(&px(a).array(), &px(a).schema());
                if (!d) vt::violation("rejected", o->how + " " + rd.errors() + " after " + log);
                else same(*o, *d, "decoded");
                vt::cover("structures decoded");
            }
        }
        PO add(const char* how, const O& from)
        {
            auto o = std::make_shared<O>();
            o->c = from.c; o->how = from.how + "/" + how; o->stale = from.stale;
            objs.push_back(o);
            return o;
        }
        void drop(size_t i)
        {
            PO o = objs[i];
            objs.erase(objs.begin() + long(i));
            if (viewed(o)) { objs.insert(objs.begin() + long(i), o); return; }
            op("destroy");
            auto owned = o->owned; 
            o.reset();
            for (auto& s : owned)
            {
                vt::check(s->tr.array_releases == s->tr.arrays, "owned-array-not-released", log);
                if (!s->lent_s) vt::check(s->tr.schema_releases == s->tr.schemas, "owned-schema-not-released", log);
                else vt::check(s->tr.schema_releases == 0, "lent-schema-released", log);
            }
        }
        void step()
        {
            if (objs.empty() || (objs.size() < 6 && r.chance(1, 5))) { make(); check(objs.back()); return; }
            PO o = any();
            switch (r.below(10))
            {
                case 0: case 1: { op("copy"); auto n = add("copy", *o); n->a.emplace(*o->a); check(n); check(o); break; }
                case 2:
                {
                    if (viewed(o)) return;
                    op("move");
                    A m(std::move(*o->a));
                    o->a.emplace(std::move(m));
                    check(o);
                    break;
                }
                case 3:
                {
                    PO q = any();
                    if (q == o || viewed(q)) { if (q == o) { op("assign-itself"); A& self = *o->a; *o->a = self; check(o); } return; }
                    op("assign");
                    // the former content is released, the new one is a deep copy
                    auto owned = q->owned;
                    *q->a = *o->a;
                    q->owned.clear(); q->lent.clear(); q->parent.reset(); q->fixed = false;
                    q->c = o->c; q->stale = o->stale; q->how = o->how + "/assigned";
                    for (auto& s : owned) vt::check(s->tr.array_releases == s->tr.arrays, "assigned-over-not-released", log);
                    check(q); check(o);
                    break;
                }
                case 4:
                {
                    PO q = any();
                    if (q == o || viewed(q) || viewed(o)) return;
                    op("move-assign");
                    *q->a = std::move(*o->a);
                    q->owned = std::move(o->owned); q->lent = std::move(o->lent); q->parent = o->parent; q->fixed = o->fixed; q->stale = o->stale; q->c = o->c; q->how = o->how + "/moved";
                    o->owned.clear(); o->parent.reset();
                    for (size_t i = 0; i < objs.size(); ++i) if (objs[i] == o) { objs.erase(objs.begin() + long(i)); break; }
                    o.reset();
                    check(q);
                    break;
                }
                case 5: case 6:
                {
                    const size_t n = o->c.size(), x = r.chance(1, 4) ? (r.chance(1, 2) ? 0 : n) : r.below(n + 1), y = r.chance(1, 4) ? n : x + r.below(n - x + 1);
                    const bool view = r.chance(1, 2);
                    op(view ? "slice-view" : "slice");
                    PO s = add(view ? "view" : "slice", *o);
                    s->c = Col(o->c.begin() + long(x), o->c.begin() + long(y));
                    if (view) { s->a.emplace(o->a->slice_view(x, y)); s->parent = o; s->fixed = true; }
                    else s->a.emplace(o->a->slice(x, y));
                    if (x == y) vt::cover("empty windows");
                    check(s); check(o);
                    break;
                }
                case 7:
                {
                    if (!(f & MUTATE) || o->fixed || viewed(o) || o->c.empty() || px(*o->a).array().buffers[0] == nullptr) return;
                    op("set-null");
                    const size_t i = r.below(o->c.size());
                    if (o->c[i].null) return;
                    auto ref = (*o->a)[i];
                    ref = sp::nullval;
                    o->c[i] = null_lv();
                    o->stale = true;
                    for (auto& x : objs) check(x);
                    break;
                }
                case 8:
                {
                    if (!(f & EQUAL)) return;
                    if constexpr (comparable<A>)
                    {
                    PO q = any();
                    op("compare");
                    const bool eq = std::as_const(*o->a) == std::as_const(*q->a);
                    vt::check(eq == (o->c == q->c), "equality", o->how + " " + col_str(o->c) + " and " + q->how + " " + col_str(q->c));
                    vt::cover(eq ? "equal answers" : "unequal answers");
                    // another encoding of the same values
                    auto s = std::make_shared<Source>();
                    fp::Producer p(s->tr, r);
                    p.schema(t, s->s); 
                    Col c2 = o->c;
                    bool want = true;
                    if (!c2.empty() && r.chance(1, 2)) { const size_t i = r.below(c2.size()); LV v = gen_value(t, r, 20); want = v == c2[i]; c2[i] = v; }
                    p.array(t, c2, s->a);
                    {
                        const A other(sp::arrow_proxy(std::move(s->a), std::move(s->s)));
                        vt::check((other == std::as_const(*o->a)) == want, "equality-of-another-encoding", col_str(o->c) + " and " + col_str(c2));
                    }
                    }
                    break;
                }
                default: o.reset(); drop(r.below(objs.size()));
            }
        }
        void finish()
        {
            for (auto& o : objs) check(o);
            while (!objs.empty()) { const size_t n = objs.size(); drop(r.below(n)); }
            vt::label("views|end");
            for (auto& s : sources)
            {
                if (s->lent_a) vt::check(s->tr.array_releases == 0 && s->a.release != nullptr, "lent-array-released", log);
                if (s->lent_s) vt::check(s->tr.schema_releases == 0 && s->s.release != nullptr, "lent-schema-released", log);
                if (s->lent_a || s->lent_s)
                {
                    std::string where;
                    if (!s->tr.intact(&where)) vt::violation("lent-memory-changed", where + " after " + log);
                }
                s->release();
                vt::check(s->tr.all_released() && s->tr.errors.empty(), "release-accounting", log);
                vt::cover("sources released");
            }
        }
    };
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void vw::CAT(history, VT_PART)(vt::Case& cs, int focus)
{
    M m(cs.rng, focus);
    const size_t steps = 1 + cs.rng.below(14);
    for (size_t i = 0; i < steps; ++i) m.step();
    m.finish();
    vt::distinct(vt::fnv(m.log + std::to_string(cs.rng.next())));
    if (cs.index % 64 == 0) vt::sample(m.log);
}
#endif
