// P03: what the library exports is accepted and decoded to the right values by a strict, independent C data reader.
#include "views.hpp"
#include "world.hpp"
VT_MAIN_DEFS
using namespace sc;
namespace
{
    void judge(sp::array& a, const TD& t, const Col& c, const char* what)
    {
        std::string err;
        const ArrowArray* aa = sp::get_arrow_array(a);
        const ArrowSchema* as = sp::get_arrow_schema(a);
        vt::check(aa->release && as->release, std::string("live-structure-marked-released-") + what);
        auto d = decode(a, err);
        if (!d) vt::violation(std::string("rejected-") + what, td_str(t) + " " + err);
        else if (!(*d == c)) vt::violation(std::string("decoded-") + what, td_str(t) + " want " + col_str(c) + " got " + col_str(*d));
        vt::cover("structures decoded");
        vt::cover("elements decoded", c.size());
    }
    void built(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("build");
        TD t = gen_t(r, int(r.below(4)));
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        vt::label(std::string("built|") + kname(t.k));
        vt::cover(std::string("layout:") + kname(t.k));
        sp::array a = sb::build(t, c, r);
        judge(a, t, c, "built");
        size_t lo = 0;
        for (size_t i = 0; i < 3; ++i)
        {
            const int op = int(r.below(4));
            if (op == 0)
            {
                vt::label(std::string("copied|") + kname(t.k));
                sp::array b(a);
                judge(b, t, c, "copied");
                judge(a, t, c, "after-copying");
                if (r.chance(1, 2)) a = std::move(b);
                else a = b;
                judge(a, t, c, "assigned");
            }
            else if (op == 1)
            {
                vt::label(std::string("sliced|") + kname(t.k));
                size_t x = r.below(c.size() + 1), y = x + r.below(c.size() - x + 1);
                sp::array b = a.slice(x, y);
                Col d(c.begin() + long(x), c.begin() + long(y));
                judge(b, t, d, "sliced");
                {
                    sp::array v = a.slice_view(x, y);
                    judge(v, t, d, "slice-view");
                }
                judge(a, t, c, "after-slicing");
                a = std::move(b); c = d; lo += x;
                judge(a, t, c, "moved");
            }
            else if (op == 2)
            {
                vt::label(std::string("extracted|") + kname(t.k));
                auto [x, y] = sp::extract_arrow_structures(std::move(a));
                Reader rd; rd.o = strict();
                auto d = rd.read(&x, &y);
                if (!d) vt::violation("rejected-extracted", rd.errors());
                else if (!(*d == c)) vt::violation("decoded-extracted", td_str(t) + " want " + col_str(c) + " got " + col_str(*d));
                a = sp::array(std::move(x), std::move(y));
            }
            else
            {
                vt::label(std::string("wrapped|") + kname(t.k));
                // as a column of a struct and as the child of a list
                const size_t n = c.size();
                Col sc_;
                std::vector<sp::array> ch;
                std::vector<bool> valid;
                for (size_t j = 0; j < n; ++j) valid.push_back(r.chance(3, 4));
                ch.push_back(a);
                for (size_t j = 0; j < n; ++j) sc_.push_back(valid[j] ? struct_lv({c[j]}) : null_lv());
                TD st; st.k = K::STRUCT; st.ch = {t};
                sp::array b(sp::struct_array(std::move(ch), valid));
                judge(b, st, sc_, "wrapped");
                a = std::move(b); c = sc_; t = st;
            }
        }
        vt::distinct(vt::fnv(td_str(t) + col_str(c)));
        if (r.chance(1, 50)) vt::sample(td_str(t) + " " + col_str(c));
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        if (cs.mode == "views") { vw::history(cs, vw::DECODE); return; }
        if (cs.mode == "bits")
        {
            // Arrow's boolean layout: one bit per value
            TD t; t.k = K::BOOL;
            const Col c = gen_col(t, gen_len(cs.rng), cs.rng, cs.rng.pick({0, 10, 50, 100}));
            vt::label("boolean layout|exported");
            sp::array a = sb::build(t, c, cs.rng);
            Reader rd;
            auto d = rd.read(sp::get_arrow_array(a), sp::get_arrow_schema(a));
            vt::cover("structures decoded");
            vt::distinct(vt::fnv(col_str(c)));
            if (!d) vt::violation("rejected", rd.errors());
            else if (!(*d == c)) vt::violation("misread", "want " + col_str(c) + " got " + col_str(*d));
            return;
        }
        if (cs.mode == "build" || g_large) { built(cs); return; }
        World w(cs.rng);
        const size_t steps = 1 + cs.rng.below(12);
        for (size_t i = 0; i < steps; ++i)
        {
            w.step();
            if (!w.objs.empty()) { w.check_obj(w.objs.back(), true); w.check_obj(w.any(), true); }
            for (auto& b : w.batches)
                for (size_t k = 0; k < b.cols.size(); ++k)
                {
                    sp::array& col = const_cast<sp::array&>(b.rb->get_column(k));
                    std::string err;
                    auto d = decode(col, err);
                    if (!d) vt::violation("batch-column-rejected", err);
                    else World::same(b.cols[k]->c, *d, "batch-column-decoded", *b.cols[k]);
                    vt::cover("structures decoded");
                }
        }
        vt::distinct(w.hist);
        vt::sample(w.log);
        w.clear();
    });
}
