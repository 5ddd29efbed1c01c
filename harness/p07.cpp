// P07: no access outside the buffers a conforming producer declared.
#include "views.hpp"
#include "world.hpp"
#include "formats.hpp"
#include "battery.hpp"
VT_MAIN_DEFS
using namespace sc;
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "formats") { ff::proxy_case(cs.rng); return; }
        if (cs.mode == "views") { vw::history(cs, vw::READ | vw::LAWS | vw::EQUAL); return; }
        Rng& r = cs.rng;
        if (cs.mode == "bits")
        {
            // Arrow's boolean layout: one bit per value
            TD t; t.k = K::BOOL;
            Col c = gen_col(t, 9 + r.below(60), r, 0);
            fp::Tracker tr;
            fp::ProdOpts po; po.offsets = false;
            fp::Producer prod(tr, r, po);
            ArrowArray a; ArrowSchema s;
            prod.schema(t, s); prod.array(t, c, a);
            vt::distinct(vt::fnv(col_str(c)));
            vt::label("boolean layout|bit-packed");
            sp::array arr(std::move(a), std::move(s));
            unsigned sum = 0;
            arr.visit([&](const auto& x)
            {
                if constexpr (std::same_as<std::decay_t<decltype(x)>, sp::primitive_array<bool>>)
                    for (size_t i = 0; i < x.size(); ++i) { const auto e = x[i]; unsigned char b; memcpy(&b, &e.get(), 1); sum += b; }
            });
            volatile unsigned sink = sum; (void) sink;
            return;
        }
        vt::label("produce");
        TD t = gen_t(r, int(r.below(4)));
        Col c = gen_col(t, r.pick({0, 0, 1, 2, 3, 5, 7, 8, 9, 13, 16, 17, 33, 64, 65}), r, r.pick({0, 10, 50, 100}));
        const std::string k = kname(t.k);
        fp::Tracker tr;
        fp::ProdOpts po; po.bool_bytes = true;
        fp::Producer prod(tr, r, po);
        ArrowArray a; ArrowSchema s;
        prod.schema(t, s);
        prod.array(t, c, a);
        for (auto& n : tr.nodes)
        {
            vt::cover("exact blocks", n->blocks.size());
            for (auto* p : n->ptrs) if (!p) vt::cover("absent buffers");
        }
        vt::distinct(vt::fnv(td_str(t) + col_str(c)));
        vt::cover("layout:" + k);
        if (r.chance(1, 50)) vt::sample(td_str(t) + " " + col_str(c));
        const bool lend = r.chance(1, 3);
        {
            vt::label("import|" + k);
            std::optional<sp::array> arr;
            if (lend) arr.emplace(&a, &s); else arr.emplace(std::move(a), std::move(s));
            vt::label("read|" + k);
            bt::Problems p;
            bt::exercise(*arr, c, r, p, true);
            p.report("", td_str(t));
            if (r.chance(1, 3))
            {
                vt::label("move|" + k);
                sp::array m(std::move(*arr)), z;
                z = std::move(m);
                arr.emplace(std::move(z));
                World::same(c, sr::read(*arr), "moved", Obj{});
            }
            if (r.chance(1, 3))
            {
                vt::label("compare|" + k);
                // another encoding of the same values, and one differing
                fp::Tracker tr2;
                fp::Producer prod2(tr2, r, po);
                ArrowArray a2; ArrowSchema s2;
                Col c2 = c;
                if (!c2.empty() && r.chance(1, 2)) c2.pop_back();
                prod2.schema(t, s2); prod2.array(t, c2, a2);
                sp::array other(std::move(a2), std::move(s2));
                volatile bool e = *arr == other; (void) e;
                vt::cover("comparisons");
            }
        }
        if (lend) { a.release(&a); s.release(&s); }
        vt::check(tr.all_released() && tr.errors.empty(), "release-accounting");
    });
}
