// P05: a slice shows exactly the requested window.
#if VT_PART == 0
#include "views.hpp"
#include "world.hpp"
VT_MAIN_DEFS
#else
#include "scen.hpp"
#endif
using namespace sc;
void typed_slice1(sp::array&, size_t, size_t, const Col&, bool, bool, const Obj&);
void typed_slice2(sp::array&, size_t, size_t, const Col&, bool, bool, const Obj&);
namespace
{
    void expect(const Col& want, const Col& got, const std::string& what, const Obj& o)
    {
        if (!(want == got)) vt::violation(what, o.how + " " + td_str(o.t) + " want " + col_str(want) + " got " + col_str(got));
        vt::cover("elements compared", want.size());
    }
}
#if VT_PART == 0
namespace
{
    void full(sp::array& a, const Col& c, const std::string& what, const Obj& o)
    {
        if (!vt::check(a.size() == c.size(), what + "-size", vt::fmt("%zu want %zu", a.size(), c.size()))) return;
        vt::check(a.empty() == c.empty(), what + "-empty");
        expect(c, sr::read(a), what, o);
        expect(c, sr::read_visit_iter(a), what + "-iterated", o);
        if (!c.empty())
        {
            expect(Col{c.front()}, Col{sr::element(a.front())}, what + "-front", o);
            expect(Col{c.back()}, Col{sr::element(a.back())}, what + "-back", o);
        }
        std::string err;
        auto d = decode(a, err);
        if (!d) vt::violation(what + "-structures", o.how + " " + td_str(o.t) + ": " + err);
        else expect(c, *d, what + "-decoded", o);
        vt::cover("windows read");
    }
    // producer memory and structures, byte for byte
    std::string bytes_of(sp::array& a)
    {
        std::string s(reinterpret_cast<const char*>(sp::get_arrow_array(a)), sizeof(ArrowArray));
        s.append(reinterpret_cast<const char*>(sp::get_arrow_schema(a)), sizeof(ArrowSchema));
        return s;
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        if (cs.mode == "views") { vw::history(cs, vw::SLICE | vw::DECODE); return; }
        Rng& r = cs.rng;
        vt::label("obtain");
        TD t = gen_t(r, int(r.below(4)));
        Col c = gen_col(t, cs.mode == "large" ? gen_len(r) : r.pick({0, 1, 2, 3, 5, 8, 9, 16, 17, 24, 33, 64, 65, 70}), r, r.pick({0, 10, 50, 100}));
        const std::string k = kname(t.k);
        vt::label("obtain|" + k);
        P root = obtain(t, c, r, gen_how(r));
        vt::cover("layout:" + k);
        vt::cover("provenance:" + root->how);
        uint64_t h = vt::fnv(root->how + td_str(t) + std::to_string(c.size()));
        P cur = root;
        const size_t depth = 1 + r.below(4);
        const std::string sig = schema_sig(*root->arr);
        std::vector<P> alive{root};
        for (size_t d = 0; d < depth; ++d)
        {
            const size_t n = cur->size();
            size_t a, b;
            switch (r.below(6))
            {
                case 0: a = 0; b = n; break;
                case 1: a = b = r.below(n + 1); break;
                case 2: a = r.below(n + 1); b = n; break;
                case 3: a = 0; b = r.below(n + 1); break;
                default: a = r.below(n + 1); b = a + r.below(n - a + 1);
            }
            if (a == b) vt::cover("empty windows");
            const bool view = r.chance(1, 2), drop = !view && r.chance(1, 3);
            Col w(cur->c.begin() + long(a), cur->c.begin() + long(b));
            const std::string op = view ? "slice_view" : "slice";
            h = vt::fnv(op + std::to_string(a) + "," + std::to_string(b), h);
            vt::label(op + "|" + k);
            const std::string before = bytes_of(*cur->arr);
            const int64_t known = sp::get_arrow_array(*cur->arr)->null_count;
            auto n_ = std::make_shared<Obj>();
            n_->t = t; n_->c = w; n_->how = cur->how + "/" + op + vt::fmt("(%zu,%zu)", a, b);
            n_->arr.emplace(view ? cur->arr->slice_view(a, b) : cur->arr->slice(a, b));
            n_->view = view;
            if (view) n_->parent = cur;
            vt::check(bytes_of(*cur->arr) == before, "slicing-changed-the-source-structures");
            full(*n_->arr, w, op, *n_);
            vt::check(known < 0 || sp::get_arrow_array(*n_->arr)->null_count >= 0, op + "-forgets-the-null-count");
            vt::check(schema_sig(*n_->arr) == sig, op + "-schema");
            if (group(t) < 3)
            {
                vt::label("typed-" + op + "|" + k);
                (group(t) == 1 ? typed_slice1 : typed_slice2)(*cur->arr, a, b, w, view, drop, *n_);
            }
            vt::label("source-after-" + op + "|" + k);
            full(*cur->arr, cur->c, "source-after-" + op, *cur);
            if (!view)
            {
                const std::string sh = shared_memory(*n_->arr, *cur->arr);
                vt::check(sh.empty(), "copying-slice-shares-memory", sh);
                if (drop)
                {
                    // the source and everything before it dies
                    vt::label("source-dies|" + k);
                    P last = cur;
                    cur.reset();
                    alive.clear();
                    root.reset();
                    auto lent = last->lent;
                    last.reset();
                    for (auto& s : lent) s->release();
                    full(*n_->arr, w, "slice-after-source-died", *n_);
                    vt::cover("sources gone before the slice");
                }
            }
            cur = n_;
            alive.push_back(cur);
            // all earlier windows still read the same
            vt::label("earlier-windows|" + k);
            for (auto& p : alive) expect(p->c, sr::read(*p->arr), "earlier-window", *p);
        }
        for (auto& p : alive)
            for (auto* v : {&p->owned, &p->lent})
                for (auto& s : *v) { std::string where; vt::check(s->tr.intact(&where), "producer-memory-changed", where); }
        vt::distinct(h);
        if (r.chance(1, 50)) vt::sample(cur->how + " " + td_str(t));
        vt::label("end|" + k);
        while (!alive.empty()) alive.pop_back();
        if (root) root->lent.size();
    });
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(typed_slice, VT_PART)(sp::array& src, size_t a, size_t b, const Col& w, bool view, bool keep, const Obj& o)
{
    visit_group<VT_PART>(src, [&](const auto& t)
    {
        using A = std::decay_t<decltype(t)>;
        if constexpr (requires { t.slice(a, b); })
        {
            const A s = view ? t.slice_view(a, b) : t.slice(a, b);
            vt::check(s.size() == w.size(), "typed-slice-size");
            expect(w, sr::read_index(s), "typed-slice", o);
            expect(w, sr::read_iter(s), "typed-slice-iterated", o);
            Col rev;
            for (auto it = s.crbegin(); it != s.crend(); ++it) rev.push_back(sr::of_element(*it));
            std::reverse(rev.begin(), rev.end());
            expect(w, rev, "typed-slice-reversed", o);
            size_t i = 0, nulls = 0;
            for (bool v : s.bitmap()) { vt::check(i < w.size() && v == !w[i].null, "typed-slice-bitmap"); ++i; nulls += !v; }
            vt::check(i == w.size(), "typed-slice-bitmap-size");
            vt::check(size_t(std::ranges::distance(s.values())) == w.size(), "typed-slice-values-size");
            if (keep)
            {
                A copy(s);
                const A s2 = copy.slice(0, w.size());
                expect(w, sr::read_iter(s2), "typed-slice-of-copy", o);
            }
            vt::cover("typed slices");
        }
    });
}
#endif
