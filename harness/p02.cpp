// P02: imported Arrow data reads back exactly as produced.
#include "views.hpp"
#include "foreign.hpp"
#include "sp_read.hpp"
VT_MAIN_DEFS
using namespace am;
namespace sp = sparrow;

static void cmp(const Col& want, const Col& got, const char* what, const TD& t)
{
    if (!(want == got)) vt::violation(std::string("differs-by-") + what, td_str(t) + " want " + col_str(want) + " got " + col_str(got));
}

// Arrow's boolean layout: one bit per value
static void bits(vt::Case& cs)
{
    Rng& r = cs.rng;
    TD t; t.k = K::BOOL;
    const size_t n = r.pick({0, 1, 2, 7, 8, 9, 17, 33, 65});
    const Col c = gen_col(t, n, r, r.pick({0, 10, 50, 100}));
    fp::Tracker tr;
    {
        fp::ProdOpts po; po.bool_room = true;
        fp::Producer p(tr, r, po);
        ArrowSchema s; ArrowArray a;
        p.schema(t, s); p.array(t, c, a);
        vt::label("boolean layout|bit-packed");
        vt::distinct(vt::fnv(col_str(c)));
        vt::cover("bit-packed booleans", n);
        sp::array arr(std::move(a), std::move(s));
        if (!vt::check(arr.size() == n, "size")) return;
        const sp::primitive_array<bool>* typed = nullptr;
        arr.visit([&](const auto& x) { if constexpr (std::same_as<std::decay_t<decltype(x)>, sp::primitive_array<bool>>) typed = &x; });
        if (!vt::check(typed != nullptr, "layout")) return;
        // a byte of packed bits is not a bool: look at the bytes the elements refer to
        bool wrong = false;
        for (size_t i = 0; i < n; ++i)
        {
            const auto e = (*typed)[i];
            vt::check(e.has_value() == !c[i].null, "nullness");
            unsigned char byte;
            memcpy(&byte, &e.get(), 1);
            if (!c[i].null && byte != (unsigned char) atom_bytes(c[i])[0]) wrong = true;
        }
        if (wrong) vt::violation("misread", col_str(c));
    }
    vt::check(tr.all_released() && tr.errors.empty(), "release-accounting");
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "views") { vw::history(cs, vw::READ); return; }
        if (cs.mode == "bits") { bits(cs); return; }
        g_large = cs.mode == "large";
        Rng& r = cs.rng;
        TypeOpts to; to.names = true;
        TD t = gen_type(r, to, int(1 + r.below(3)));
        const size_t n = g_large ? r.pick({1000, 4097, 32768, 65535, 65536, 65537, 66001, 70000}) : r.pick({0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 33, 64, 65});
        Col c = gen_col(t, n, r, r.pick({0, 10, 50, 100}));
        fp::Tracker tr;
        {
            fp::ProdOpts po; po.bool_bytes = true;
            fp::Producer p(tr, r, po);
            ArrowSchema s; ArrowArray a;
            p.schema(t, s);
            p.array(t, c, a);
            const bool lend = r.chance(1, 3);
            vt::label(std::string("import|") + kname(t.k));
            vt::distinct(vt::fnv(td_str(t) + col_str(c)));
            vt::sample(td_str(t) + " = " + col_str(c));
            vt::cover("elements", n);
            for (auto& v : c) if (v.null) vt::cover("nulls");
            vt::cover(std::string("layout:") + kname(t.k));
            {
                sp::array arr = lend ? sp::array(&a, &s) : sp::array(std::move(a), std::move(s));
                vt::check(arr.size() == n, "size", vt::fmt("%zu want %zu", arr.size(), n));
                vt::check(arr.empty() == (n == 0), "empty");
                cmp(c, sr::read(arr), "index", t);
                vt::label(std::string("iterate|") + kname(t.k));
                cmp(c, sr::read_visit_iter(arr), "iteration", t);
                if (n) { cmp(Col{c[0]}, Col{sr::of_element(arr.front())}, "front", t); cmp(Col{c.back()}, Col{sr::of_element(arr.back())}, "back", t); }
                for (size_t i = 0; i < n; ++i) cmp(Col{c[i]}, Col{sr::of_element(arr.at(i))}, "at", t);
            }
            if (lend) { a.release(&a); s.release(&s); }
        }
        vt::check(tr.all_released() && tr.errors.empty(), "release-accounting");
    });
}
