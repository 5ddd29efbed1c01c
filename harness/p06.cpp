// P06: reading or viewing never writes to the producer's memory.
#include "world.hpp"
#include "battery.hpp"
VT_MAIN_DEFS
using namespace sc;
namespace
{
    // bytes of every buffer of a tree
    void bytes(const sp::arrow_proxy& p, std::string& out)
    {
        for (auto& b : p.buffers()) { out.append(reinterpret_cast<const char*>(b.data()), b.size()); out += '|'; }
        for (auto& c : p.children()) bytes(c, out);
        if (p.dictionary()) bytes(*p.dictionary(), out);
    }
    // the library as the producer: structures it created, owned by an array or lent to several
    void own(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::label("produce-own");
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        const std::string k = kname(t.k);
        P o = obtain(t, c, r, r.pick({How::BUILT, How::REIMPORT, How::RELENT, How::RELENT}));
        ArrowArray* x = sp::get_arrow_array(*o->arr);
        ArrowSchema* y = sp::get_arrow_schema(*o->arr);
        auto state = [&] { std::string s; snapshot(x, s, true); snapshot(y, s, true); bytes(sp::detail::array_access::get_arrow_proxy(static_cast<const sp::array&>(*o->arr)), s); return s; };
        const std::string before = state();
        auto unchanged = [&](const char* when) { vt::check(state() == before, std::string("own-structures-changed-") + when, short_str(*o)); vt::cover("own structures compared"); };
        vt::distinct(vt::fnv(short_str(*o)));
        vt::label("own|" + k);
        for (size_t i = 0; i < 1 + r.below(4); ++i)
        {
            const size_t n = c.size(), lo = r.below(n + 1), hi = lo + r.below(n - lo + 1);
            const Col w(c.begin() + long(lo), c.begin() + long(hi));
            switch (r.below(7))
            {
                case 0: { bt::Problems p; bt::exercise(*o->arr, c, r, p, r.chance(1, 2)); p.report("", td_str(t)); unchanged("by-reading"); break; }
                case 1: { sp::array v = o->arr->slice_view(lo, hi); unchanged("by-viewing"); sp::array v2(v); World::same(w, sr::read(v2), "view", *o); unchanged("by-copying-a-view"); break; }
                case 2: { sp::array v = o->arr->slice(lo, hi); World::same(w, sr::read(v), "slice", *o); unchanged("by-slicing"); break; }
                case 3: { sp::array v(x, y); unchanged("by-lending"); sp::array u(x, y); World::same(c, sr::read(v), "lent", *o); sp::array q = u.slice_view(lo, hi); World::same(w, sr::read(q), "view of lent", *o); unchanged("by-lending-twice"); break; }
                case 4: { sp::array v(*o->arr), u; u = v; World::same(c, sr::read(u), "copy", *o); unchanged("by-copying"); break; }
                case 5:
                {
                    const auto& px = sp::detail::array_access::get_arrow_proxy(static_cast<const sp::array&>(*o->arr));
                    sp::arrow_proxy v = px.view(), d(px), s = px.slice(lo, hi), sv = px.slice_view(lo, hi), l(x, y);
                    vt::check(v.length() == n && d.length() == n && s.length() == hi - lo && sv.length() == hi - lo && l.length() == n, "proxy-length");
                    unchanged("by-proxies");
                    break;
                }
                default: { sp::record_batch rb(std::vector<std::string>{"x"}, std::vector<sp::array>{*o->arr}); World::same(c, sr::read(rb.get_column("x")), "column", *o); unchanged("by-a-batch"); break; }
            }
        }
        vt::label("own-dropped|" + k);
        unchanged("by-dropping-views");
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "own") return own(cs);
        Rng& r = cs.rng;
        vt::label("produce");
        TD t = gen_t(r);
        Col c = gen_col(t, r.pick({0, 1, 2, 3, 5, 7, 8, 9, 13, 17, 33}), r, r.pick({0, 10, 50, 100}));
        const std::string k = kname(t.k);
        fp::Tracker tr;
        fp::ProdOpts po; po.bool_bytes = true; po.read_only = true;
        fp::Producer prod(tr, r, po);
        // the root structures live in a page of their own
        char* page = static_cast<char*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        auto* a = new (page) ArrowArray{};
        auto* s = new (page + 512) ArrowSchema{};
        prod.schema(t, *s);
        prod.array(t, c, *a);
        for (auto& n : tr.nodes) for (auto& b : n->blocks) vt::cover("protected bytes", b.n);
        const int mode = int(r.below(3));   // lent, half, owned
        vt::distinct(vt::fnv(td_str(t) + col_str(c) + char('0' + mode)));
        if (r.chance(1, 50)) vt::sample(td_str(t) + " " + col_str(c));
        std::string before;
        snapshot(a, before, mode == 0);
        snapshot(s, before, mode != 2);
        std::string again;
        auto unchanged = [&](ArrowArray* x, ArrowSchema* y, const char* when)
        {
            again.clear();
            snapshot(x, again, mode == 0);
            snapshot(y, again, mode != 2);
            vt::check(again == before, std::string("structures-changed-") + when, td_str(t));
            std::string where;
            vt::check(tr.intact(&where), std::string("buffers-changed-") + when, where);
            vt::cover("snapshots compared");
        };
        {
            vt::label("import|" + k);
            std::optional<sp::array> arr;
            if (mode == 0) { mprotect(page, 4096, PROT_READ); vt::cover("protected root structures"); arr.emplace(a, s); }
            else if (mode == 1) arr.emplace(std::move(*a), s);
            else arr.emplace(std::move(*a), std::move(*s));
            ArrowArray* x = sp::get_arrow_array(*arr);
            ArrowSchema* y = sp::get_arrow_schema(*arr);
            unchanged(x, y, "by-import");
            vt::label("read|" + k);
            bt::Problems p;
            bt::exercise(*arr, c, r, p, true);
            p.report("", td_str(t));
            unchanged(x, y, "by-reading");
            vt::label("view-chain|" + k);
            {
                const size_t n = c.size(), lo = r.below(n + 1), hi = lo + r.below(n - lo + 1);
                sp::array v = arr->slice_view(lo, hi);
                unchanged(x, y, "by-viewing");
                const size_t m = hi - lo, lo2 = r.below(m + 1), hi2 = lo2 + r.below(m - lo2 + 1);
                sp::array w = v.slice_view(lo2, hi2);
                Col cw(c.begin() + long(lo + lo2), c.begin() + long(lo + hi2));
                bt::Problems q;
                bt::exercise(w, cw, r, q, r.chance(1, 2));
                q.report("view-", td_str(t));
                auto& px = sp::detail::array_access::get_arrow_proxy(*arr);
                sp::arrow_proxy pv = px.view(), pc(px), ps = px.slice(lo, hi);
                vt::check(pv.length() == n && pc.length() == n && ps.length() == m, "proxy-length");
                unchanged(x, y, "by-viewing-twice");
            }
            unchanged(x, y, "by-dropping-views");
            if (r.chance(1, 3))
            {
                vt::label("as-column|" + k);
                sp::record_batch rb(std::vector<std::string>{"x"}, std::vector<sp::array>{*arr});
                World::same(c, sr::read(rb.get_column("x")), "column", Obj{});
            }
            if (r.chance(1, 3) && mode == 2)
            {
                vt::label("moved|" + k);
                sp::array m(std::move(*arr));
                arr.emplace(std::move(m));
                unchanged(sp::get_arrow_array(*arr), sp::get_arrow_schema(*arr), "by-moving");
            }
        }
        vt::label("release");
        mprotect(page, 4096, PROT_READ | PROT_WRITE);
        if (mode == 0) a->release(a);
        if (mode != 2) s->release(s);
        vt::check(tr.all_released() && tr.errors.empty(), "release-accounting");
        munmap(page, 4096);
    });
}
