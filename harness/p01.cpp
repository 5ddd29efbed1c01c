// P01: Arrow C structures are released exactly once, lent ones never, nothing leaks.
#include "views.hpp"
#include "world.hpp"
#include "formats.hpp"
VT_MAIN_DEFS
using namespace sc;
namespace
{
    using S = std::shared_ptr<Source>;
    S foreign(Rng& r, bool lent)
    {
        auto s = std::make_shared<Source>();
        s->foreign = true; s->lent_a = s->lent_s = lent;
        fp::ProdOpts po; po.bool_bytes = true;
        fp::Producer p(s->tr, r, po);
        TD t = gen_t(r, int(r.below(2)));
        Col c = gen_col(t, r.below(4), r, 20);
        p.schema(t, s->s);
        p.array(t, c, s->a);
        return s;
    }
    bool released(const S& s) { return s->tr.all_released(); }
    bool untouched(const S& s) { return s->tr.none_released(); }

    // children and dictionaries attached to, replaced in and removed from structures through the proxy
    struct Slot { S s; bool owned; };
    struct Node
    {
        std::optional<sp::arrow_proxy> p;
        std::vector<Slot> kids;          // s is null for children that are copies
        S dict; bool has_dict = false;
    };
    void proxies(vt::Case& cs)
    {
        Rng& r = cs.rng;
        std::vector<std::unique_ptr<Node>> nodes;
        std::vector<S> all;              // keeps lent structures alive
        std::vector<std::pair<S, bool*>> x;
        uint64_t hist = 7;
        auto keep = [&](S s) { all.push_back(s); return s; };
        auto fresh = [&]
        {
            auto n = std::make_unique<Node>();
            ArrowArray a = sp::make_arrow_array(0, 0, 0, sp::arrow_array_private_data::BufferType(1), 0, nullptr, nullptr);
            ArrowSchema s = sp::make_arrow_schema(std::string_view("+s"), std::nullopt, std::nullopt, std::nullopt, 0, nullptr, nullptr);
            n->p.emplace(std::move(a), std::move(s));
            nodes.push_back(std::move(n));
        };
        auto dead = [](std::vector<Slot>& v, const char* how)
        {
            for (auto& k : v)
            {
                if (k.s && k.owned) vt::check(released(k.s), std::string("owned-child-not-released-") + how);
                if (k.s && !k.owned) vt::check(untouched(k.s), std::string("lent-child-released-") + how);
            }
        };
        auto gone = [&](Node& was, const char* how)
        {
            dead(was.kids, how);
            if (was.dict) vt::check(released(was.dict), std::string("dictionary-not-released-") + how);
        };
        fresh();
        const size_t steps = 1 + r.below(16);
        for (size_t st = 0; st < steps; ++st)
        {
            if (nodes.empty()) fresh();
            const size_t ni = r.below(nodes.size());
            Node& n = *nodes[ni];
            const int op = int(r.below(12));
            static const char* names[] = {"add_child*", "add_child&&", "add_children*", "add_children&&", "set_child*", "set_child&&", "pop_children",
                                          "set_dictionary", "copy", "move", "assign", "destroy"};
            vt::label(std::string("proxy|") + names[op]);
            vt::cover(std::string("proxy:") + names[op]);
            { vt::LedgerPause lp; hist = vt::fnv(names[op], hist + n.kids.size() * 31 + ni); }
            switch (op)
            {
                case 0: { S s = keep(foreign(r, true)); n.p->add_child(&s->a, &s->s); n.kids.push_back({s, false}); break; }
                case 1:
                {
                    S s = foreign(r, false); n.p->add_child(std::move(s->a), std::move(s->s));
                    vt::check(!s->a.release && !s->s.release, "source-of-moved-child-not-marked-released");
                    n.kids.push_back({s, true}); break;
                }
                case 2:
                {
                    std::vector<sp::arrow_array_and_schema_pointers> v;
                    for (size_t i = r.below(4); i > 0; --i) { S s = keep(foreign(r, true)); v.push_back({&s->a, &s->s}); n.kids.push_back({s, false}); }
                    n.p->add_children(v); break;
                }
                case 3:
                {
                    std::vector<sp::arrow_array_and_schema> v;
                    for (size_t i = r.below(4); i > 0; --i) { S s = foreign(r, false); v.push_back({s->a, s->s}); n.kids.push_back({s, true}); }
                    n.p->add_children(std::move(v)); break;
                }
                case 4: case 5:
                {
                    if (n.kids.empty()) break;
                    const size_t i = r.below(n.kids.size());
                    S s = op == 4 ? keep(foreign(r, true)) : foreign(r, false);
                    if (op == 4) n.p->set_child(i, &s->a, &s->s);
                    else n.p->set_child(i, std::move(s->a), std::move(s->s));
                    std::vector<Slot> old{n.kids[i]};
                    n.kids[i] = {s, op == 5};
                    dead(old, "by-replacement");
                    break;
                }
                case 6:
                {
                    const size_t k = r.below(n.kids.size() + 1);
                    n.p->pop_children(k);
                    std::vector<Slot> old(n.kids.end() - long(k), n.kids.end());
                    n.kids.resize(n.kids.size() - k);
                    dead(old, "by-removal");
                    break;
                }
                case 7:
                {
                    S s = keep(foreign(r, false));
                    n.p->set_dictionary(&s->a, &s->s);
                    if (n.dict) vt::check(released(n.dict), "replaced-dictionary-not-released");
                    n.dict = s; n.has_dict = true;
                    break;
                }
                case 8: case 10:
                {
                    if (op == 8 && nodes.size() >= 4) break;
                    auto c = std::make_unique<Node>();
                    for (size_t i = 0; i < n.kids.size(); ++i) c->kids.push_back({nullptr, true});
                    c->has_dict = n.has_dict;
                    if (op == 8) { c->p.emplace(*n.p); nodes.push_back(std::move(c)); }
                    else
                    {
                        Node& d = *nodes[r.below(nodes.size())];
                        if (&d == &n) { auto& self = *n.p; *n.p = self; break; }
                        *d.p = *n.p;
                        gone(d, "by-assignment");
                        d.kids = c->kids; d.dict = nullptr; d.has_dict = c->has_dict;
                    }
                    break;
                }
                case 9: { sp::arrow_proxy m(std::move(*n.p)); n.p.emplace(std::move(m)); break; }
                default:
                {
                    auto d = std::move(nodes[ni]);
                    nodes.erase(nodes.begin() + long(ni));
                    if (r.chance(1, 2))
                    {
                        ArrowArray a = d->p->extract_array();
                        ArrowSchema s = d->p->extract_schema();
                        d->p.reset();
                        for (auto& k : d->kids) if (k.s) vt::check(untouched(k.s), "child-released-by-extraction");
                        a.release(&a); s.release(&s);
                        vt::check(!a.release && !s.release, "release-does-not-mark-released");
                    }
                    else d->p.reset();
                    gone(*d, "by-destruction");
                    break;
                }
            }
            for (auto& m : nodes)
            {
                vt::check(m->p->n_children() == m->kids.size() && m->p->children().size() == m->kids.size(), "number-of-children");
                for (size_t i = 0; i < m->kids.size(); ++i)
                {
                    auto& k = m->kids[i];
                    if (k.s) vt::check(untouched(k.s), "child-released-while-attached");
                    vt::check(m->p->array().children[i]->release && m->p->schema().children[i]->release, "attached-child-marked-released");
                }
                if (m->dict) vt::check(untouched(m->dict), "dictionary-released-while-attached");
            }
            vt::cover("proxy states");
        }
        vt::label("proxy|final");
        for (auto& m : nodes) { m->p.reset(); gone(*m, "at-the-end"); }
        nodes.clear();
        for (auto& s : all) { s->release(); vt::check(released(s) && s->tr.errors.empty(), "proxy-release-accounting"); vt::cover("structures accounted", uint64_t(s->tr.arrays + s->tr.schemas)); }
        vt::distinct(hist);
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "formats") { ff::proxy_case(cs.rng); return; }
        if (cs.mode == "views") { vw::history(cs, vw::OWN); return; }
        if (cs.mode == "proxy") { proxies(cs); return; }
        sc::World w(cs.rng);
        const size_t steps = 1 + cs.rng.below(14);
        for (size_t i = 0; i < steps; ++i)
        {
            w.step();
            w.check_sources();
            if (!w.objs.empty()) w.check_obj(w.any(), false);
            w.check_batches();
        }
        for (auto& o : w.objs) w.check_obj(o, false);
        vt::distinct(w.hist);
        vt::sample(w.log);
        w.clear();
    });
}
