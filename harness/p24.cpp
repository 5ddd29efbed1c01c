// P24: threads reading, comparing, copying, slicing and viewing shared arrays; a race detector watches every access,
// and every thread must see what a single reader sees.
#include "battery.hpp"
#include "scen.hpp"
using namespace sc;
using bt::Problems;
template <class A> concept mutable_array = requires(A& a) { a.push_back(a[0]); a.pop_back(); };
// a private typed copy, changed freely
void mutate1(const sp::array&, const Col&, Rng&, Problems&);
void mutate2(const sp::array&, const Col&, Rng&, Problems&);
void mutate3(const sp::array&, const Col&, Rng&, Problems&);
#if VT_PART == 0
#include <atomic>
#include <thread>
#include "sparrow/builder/builder.hpp"
VT_MAIN_DEFS
extern "C" void __tsan_on_report(void*) { fprintf(stderr, "VT-CASE %llu\n", (unsigned long long) vt::ctx().current); }
namespace
{
    struct Lent   // C structures many threads import without owning them
    {
        TD t; Col c; Source src;
    };
    struct World
    {
        std::vector<P> objs;
        std::vector<std::unique_ptr<Lent>> lent;
        std::optional<sp::record_batch> rb, rb2;
        std::vector<std::string> names;
        std::vector<P> cols;
        std::atomic<int> ready{0};
        std::atomic<bool> go{false};
    };
    struct Worker
    {
        Rng r;
        Problems p;
        std::map<std::string, uint64_t> counts;
        std::map<std::pair<size_t, size_t>, std::vector<bool>> answers;   // of a == b
        std::vector<sp::array> kept;                                       // outlive the thread
        std::string trace;
        explicit Worker(uint64_t s) : r(s) {}
    };
    bool nan_free(const Col& c) { for (auto& v : c) if (has_nan(v)) return false; return true; }
    void pause(Rng& r)
    {
        switch (r.below(6))
        {
            case 0: std::this_thread::yield(); break;
            case 1: usleep(unsigned(r.below(40))); break;
            default: break;
        }
    }
    void private_change(const sp::array& a, const TD& t, const Col& c, Rng& r, Problems& p)
    {
        (group(t) == 1 ? mutate1 : group(t) == 2 ? mutate2 : mutate3)(a, c, r, p);
    }
    void touch(const sp::arrow_proxy& q, Problems& p)
    {
        (void) q.format(); (void) q.name(); (void) q.metadata(); (void) q.flags(); (void) q.length(); (void) q.null_count(); (void) q.offset(); (void) q.data_type();
        p(q.n_buffers() == q.buffers().size(), "proxy-buffer-count");
        p(q.n_children() == q.children().size(), "proxy-children-count");
        for (auto& b : q.buffers()) { unsigned s = 0; for (auto e : b) s += e; volatile unsigned sink = s; (void) sink; }
        for (auto& ch : q.children()) touch(ch, p);
        if (q.dictionary()) touch(*q.dictionary(), p);
    }
    void step(World& w, Worker& k)
    {
        Rng& r = k.r;
        Problems& p = k.p;
        auto& o = *w.objs[r.below(w.objs.size())];
        const sp::array& a = *o.arr;
        const size_t n = o.c.size(), b = r.below(n + 1), e = b + r.below(n - b + 1);
        const Col win(o.c.begin() + long(b), o.c.begin() + long(e));
        const unsigned op = unsigned(r.below(20));
        k.trace += char('a' + op);
        auto did = [&](const char* s) { ++k.counts[s]; };
        switch (op)
        {
            case 0: did("op:exercise"); bt::exercise(a, o.c, r, p, !o.shallow && r.chance(1, 2)); break;
            case 1: did("op:read"); p.same(o.c, sr::read(a), "read"); break;
            case 2: did("op:visit"); p.same(o.c, sr::read_visit_iter(a), "visited"); break;
            case 3: case 4:
            {
                did("op:compare");
                const size_t i = r.below(w.objs.size()), j = r.below(w.objs.size());
                k.answers[{i, j}].push_back(*w.objs[i]->arr == *w.objs[j]->arr);
                break;
            }
            case 5: { did("op:copy"); sp::array c(a); p.same(o.c, sr::read(c), "copy"); if (!o.shallow) { sp::array d; d = c; sp::array m(std::move(c)); p.same(o.c, sr::read(m), "moved copy"); p.same(o.c, sr::read(d), "assigned copy"); } break; }
            case 6: { did("op:slice"); sp::array c = a.slice(b, e); p.same(win, sr::read(c), "slice"); if (r.chance(1, 2)) bt::walk(c, win, r, p); break; }
            case 7: case 8: { did("op:slice_view"); sp::array c = a.slice_view(b, e); p.same(win, sr::read(c), "view"); if (r.chance(1, 2)) bt::walk(c, win, r, p); if (r.chance(1, 2)) { sp::array d(c); p.same(win, sr::read_visit_iter(d), "copy of a view"); } break; }
            case 9: { did("op:private mutation"); if (o.shallow) { sp::array s = a.slice(0, n); private_change(s, o.t, o.c, r, p); } else private_change(a, o.t, o.c, r, p); break; }
            case 10:
            {
                did("op:proxy");
                const auto& px = sp::detail::array_access::get_arrow_proxy(a);
                touch(px, p);
                sp::arrow_proxy v = px.view();
                touch(v, p);
                sp::arrow_proxy s = px.slice_view(b, e);
                touch(s, p);
                if (r.chance(1, 2)) { sp::arrow_proxy c(px); touch(c, p); sp::arrow_proxy d = px.slice(b, e); touch(d, p); }
                break;
            }
            case 11:
            {
                did("op:batch");
                const size_t i = r.below(w.names.size());
                p(w.rb->contains_column(w.names[i]) && !w.rb->contains_column("no such name"), "batch-contains");
                p(w.rb->nb_columns() == w.names.size() && std::ranges::equal(w.rb->names(), w.names), "batch-names");
                p.same(w.cols[i]->c, sr::read(w.rb->get_column(w.names[i])), "batch-by-name");
                p.same(w.cols[i]->c, sr::read(w.rb->get_column(i)), "batch-by-index");
                size_t q = 0;
                for (const auto& col : w.rb->columns()) { p(col.size() == w.cols[q]->c.size(), "batch-columns"); ++q; }
                break;
            }
            case 12:
            {
                did("op:batch copy");
                sp::record_batch c(*w.rb);
                const size_t i = r.below(w.names.size());
                p.same(w.cols[i]->c, sr::read(c.get_column(w.names[i])), "copied batch");
                k.answers[{999, 0}].push_back(*w.rb == *w.rb2);
                k.answers[{999, 1}].push_back(c == *w.rb2);
                break;
            }
            case 13: case 14:
            {
                if (w.lent.empty()) break;
                did("op:lend");
                Lent& l = *w.lent[r.below(w.lent.size())];
                sp::array v(&l.src.a, &l.src.s);
                p.same(l.c, sr::read(v), "lent");
                const size_t n2 = l.c.size(), x = r.below(n2 + 1), y = x + r.below(n2 - x + 1);
                const Col w2(l.c.begin() + long(x), l.c.begin() + long(y));
                if (r.chance(1, 2)) { sp::array s = v.slice_view(x, y); p.same(w2, sr::read(s), "view of lent"); }
                if (r.chance(1, 2)) { sp::array s = v.slice(x, y); p.same(w2, sr::read(s), "slice of lent"); }
                if (r.chance(1, 2)) { sp::array s(v); bt::walk(s, l.c, r, p); private_change(s, l.t, l.c, r, p); }
                if (r.chance(1, 3)) bt::walk(v, l.c, r, p);
                break;
            }
            case 15:
            {
                did("op:decode");   // a consumer of the exported structures
                Reader rd; rd.o = strict();
                auto c = rd.read(sp::get_arrow_array(const_cast<sp::array&>(a)), sp::get_arrow_schema(const_cast<sp::array&>(a)));
                if (p(bool(c), "exported-structures", c ? "" : rd.errors())) p.same(o.c, *c, "decoded");
                break;
            }
            case 16:
            {
                did("op:private array");   // shares nothing with the others but the library's own state
                TD t = gen_t(r, int(r.below(3)));
                Col c = gen_col(t, r.below(20), r, 30);
                P q = obtain(t, c, r, r.pick({How::BUILT, How::OWNED, How::LENT, How::HALF, How::REIMPORT, How::RELENT}));
                bt::exercise(*q->arr, c, r, p, true);
                break;
            }
            case 17:
            {
                did("op:builder");
                std::vector<sp::nullable<std::string>> v;
                for (size_t i = 0; i < r.below(12); ++i) v.push_back(r.chance(1, 4) ? sp::nullable<std::string>() : sp::nullable<std::string>(std::string(r.below(30), char('a' + r.below(26)))));
                sp::array x(sp::build(v));
                p(x.size() == v.size(), "built");
                std::vector<std::vector<int>> l(r.below(6));
                for (auto& q : l) q.resize(r.below(4), 3);
                sp::array y(sp::build(l));
                p(y.size() == l.size(), "built list");
                break;
            }
            case 18:
            {
                did("op:kept copy");
                if (!o.shallow) { k.kept.push_back(r.chance(1, 2) ? sp::array(a) : a.slice_view(b, e)); if (k.kept.size() > 3) k.kept.erase(k.kept.begin()); }
                break;
            }
            default:
            {
                did("op:elements");   // element by element, nested values taken apart
                for (size_t i = b; i < e; ++i) { const LV v = sr::element(a[i]); p(v == o.c[i], "element"); if (r.chance(1, 8)) pause(r); }
                p(a.size() == n && a.empty() == (n == 0), "size");
                break;
            }
        }
        pause(r);
    }
    void run_case(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("threads");
        World w;
        const size_t no = 1 + r.below(3);
        for (size_t i = 0; i < no; ++i)
        {
            if (i && r.chance(1, 3))   // the same contents once more, obtained differently
            {
                auto& q = *w.objs[r.below(w.objs.size())];
                w.objs.push_back(obtain(q.t, q.c, r, gen_how(r)));
            }
            else w.objs.push_back(gen_obj(r));
        }
        for (size_t i = 0; i < r.below(3); ++i)
        {
            auto l = std::make_unique<Lent>();
            l->t = gen_t(r);
            l->c = gen_col(l->t, gen_len(r), r, 30);
            if (r.chance(1, 2))
            {
                sp::array b = sb::build(l->t, l->c, r);
                auto [x, s] = sp::extract_arrow_structures(std::move(b));
                l->src.a = x; l->src.s = s;
            }
            else
            {
                l->src.foreign = true;
                fp::ProdOpts po; po.bool_bytes = true;
                fp::Producer pr(l->src.tr, r, po);
                pr.schema(l->t, l->src.s);
                pr.array(l->t, l->c, l->src.a);
            }
            l->src.lent_a = l->src.lent_s = true;
            w.lent.push_back(std::move(l));
        }
        {
            const size_t rows = gen_len(r), nc = 1 + r.below(3);
            std::vector<sp::array> x, y;
            for (size_t i = 0; i < nc; ++i)
            {
                TD t = gen_t(r, int(r.below(3)));
                w.cols.push_back(obtain(t, gen_col(t, rows, r, 30), r, How::BUILT));
                w.names.push_back("col" + std::to_string(i));
                x.push_back(*w.cols[i]->arr);
                y.push_back(*w.cols[i]->arr);
            }
            w.rb.emplace(w.names, std::move(x));
            w.rb2.emplace(w.names, std::move(y));
        }
        const size_t nt = 2 + r.below(3), steps = 3 + r.below(8);
        std::vector<std::unique_ptr<Worker>> ks;
        for (size_t i = 0; i < nt; ++i) ks.push_back(std::make_unique<Worker>(r.next()));
        std::vector<std::thread> th;
        for (auto& k : ks)
            th.emplace_back([&w, k = k.get(), steps]
            {
                w.ready.fetch_add(1, std::memory_order_relaxed);
                while (!w.go.load(std::memory_order_acquire)) std::this_thread::yield();
                try { for (size_t i = 0; i < steps; ++i) step(w, *k); }
                catch (const std::exception& e) { k->p(false, std::string("exception in a thread: ") + typeid(e).name(), e.what()); }
            });
        while (w.ready.load(std::memory_order_relaxed) < int(nt)) std::this_thread::yield();
        w.go.store(true, std::memory_order_release);
        for (auto& t : th) t.join();
        // what a single reader sees
        std::string sched, ctx;
        for (auto& o : w.objs) ctx += short_str(*o).substr(0, 120) + "; ";
        std::map<std::pair<size_t, size_t>, bool> truth;
        for (auto& k : ks)
        {
            k->p.report("", ctx + k->trace);
            for (auto& [s, n] : k->counts) vt::cover(s, n);
            sched += k->trace + "/";
            for (auto& [ij, v] : k->answers)
            {
                auto it = truth.find(ij);
                if (it == truth.end())
                    it = truth.emplace(ij, ij.first == 999 ? (ij.second ? sp::record_batch(*w.rb) == *w.rb2 : *w.rb == *w.rb2) : *w.objs[ij.first]->arr == *w.objs[ij.second]->arr).first;
                for (bool x : v) vt::check(x == it->second, "comparison-differs-from-a-single-reader", ctx);
                vt::cover("comparisons between threads", v.size());
            }
        }
        Problems p;
        for (auto& o : w.objs)
        {
            p.same(o->c, sr::read(*o->arr), "contents-after-threads");
            for (auto& v : {o->owned, o->lent})
                for (auto& s : v)
                {
                    for (auto& e : s->tr.errors) vt::violation("released-twice", e);
                    if (s->foreign) { vt::check(s->tr.none_released(), "released-by-a-reader", ctx); vt::check(s->tr.intact(), "bytes-changed-by-a-reader", ctx); }
                }
        }
        for (auto& l : w.lent)
        {
            sp::array v(&l->src.a, &l->src.s);
            p.same(l->c, sr::read(v), "lent-contents-after-threads");
            if (l->src.foreign) { vt::check(l->src.tr.none_released(), "released-by-a-reader"); vt::check(l->src.tr.intact(), "bytes-changed-by-a-reader"); }
        }
        p.report("", ctx);
        vt::cover("threads", nt);
        vt::cover("thread steps", nt * steps);
        for (auto& o : w.objs) vt::cover(std::string("layout:") + kname(o->t.k));
        vt::distinct(vt::fnv(sched + ctx));
        vt::sample(ctx + sched);
    }
}
int main(int argc, char** argv) { return vt::run(argc, argv, run_case); }
#else
namespace
{
    void change(const sp::array& a, const Col& c, Rng& r, Problems& p)
    {
        visit_group<VT_PART>(a, [&](const auto& src)
        {
            using A = std::decay_t<decltype(src)>;
            A m(src);
            if constexpr (mutable_array<A>)
            {
                for (size_t i = 0; i < m.size(); ++i) if (r.chance(1, 2))
                {
                    if (r.chance(1, 3)) m[i] = sp::nullval;
                    else m[i] = sp::make_nullable(typename A::inner_value_type{}, true);
                }
                for (size_t i = 0; i < r.below(6); ++i) m.push_back(sp::make_nullable(typename A::inner_value_type{}, r.chance(1, 2)));
                while (m.size() && r.chance(3, 4)) m.pop_back();
            }
            p.same(c, sr::read_index(src), "source of a changed copy");
        });
    }
}
#if VT_PART == 1
void mutate1(const sp::array& a, const Col& c, Rng& r, Problems& p) { change(a, c, r, p); }
#elif VT_PART == 2
void mutate2(const sp::array& a, const Col& c, Rng& r, Problems& p) { change(a, c, r, p); }
#else
void mutate3(const sp::array& a, const Col& c, Rng& r, Problems& p) { change(a, c, r, p); }
#endif
#endif
