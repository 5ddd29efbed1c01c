// P14: all ways of walking an array agree.
#include "views.hpp"
#include "world.hpp"
#include "battery.hpp"
VT_MAIN_DEFS
using namespace sc;
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        if (cs.mode == "views") { vw::history(cs, vw::LAWS | vw::SLICE); return; }
        Rng& r = cs.rng;
        vt::label("obtain");
        P o = gen_obj(r, int(r.below(4)));
        const std::string k = kname(o->t.k);
        vt::cover("layout:" + k);
        vt::cover("provenance:" + o->how);
        vt::distinct(vt::fnv(o->how + td_str(o->t) + col_str(o->c)));
        if (r.chance(1, 50)) vt::sample(short_str(*o));
        if (r.chance(1, 3))
        {
            vt::label("slice|" + k);
            const size_t a = r.below(o->size() + 1), b = a + r.below(o->size() - a + 1);
            P n = std::make_shared<Obj>();
            n->t = o->t; n->c = Col(o->c.begin() + long(a), o->c.begin() + long(b)); n->how = o->how + "/slice";
            if (r.chance(1, 2)) n->arr.emplace(o->arr->slice(a, b));
            else { n->arr.emplace(o->arr->slice_view(a, b)); n->how += "-view"; }
            n->parent = o;
            o = n;
        }
        vt::label("walk|" + k);
        bt::Problems p;
        bt::exercise(*o->arr, o->c, r, p, r.chance(1, 4));
        p.report("", o->how + " " + td_str(o->t));
    });
}
