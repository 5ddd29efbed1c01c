#include "battery.hpp"
#include "scen.hpp"
#if VT_PART > 0
#include "laws.hpp"
#else
using namespace am;
#endif
#if VT_PART == 0
void bt::walk(const sparrow::array& a, const Col& want, Rng& r, Problems& p)
{
    bool dict = false;
    // the schema decides which layout a visitor must be presented
    const ArrowSchema* s = sparrow::get_arrow_schema(const_cast<sparrow::array&>(a));
    dict = s->dictionary != nullptr;
    const std::string f = s->format;
    const int g = dict ? 3 : (f.size() == 1 && f != "n" && f != "u" ? 1 : 2);
    if (g == 1) walk1(a, want, r, p);
    else if (g == 2) walk2(a, want, r, p);
    else walk3(a, want, r, p);
}
void bt::exercise(const sparrow::array& a, const Col& want, Rng& r, Problems& p, bool deep)
{
    const size_t n = want.size();
    if (!p(a.size() == n, "size", vt::fmt("%zu want %zu", a.size(), n))) return;
    p(a.empty() == (n == 0), "empty");
    p.same(want, sr::read(a), "index");
    Col c;
    for (size_t i = 0; i < n; ++i) c.push_back(sr::element(a.at(i)));
    p.same(want, c, "at");
    if (n) { p(sr::element(a.front()) == want.front(), "array-front"); p(sr::element(a.back()) == want.back(), "array-back"); }
    p.same(want, sr::read_visit_iter(a), "visited-iteration");
    walk(a, want, r, p);
    bool nan = false;
    for (auto& v : want) nan = nan || has_nan(v);
    if (!nan) p(a == a && !(a != a), "not-equal-to-itself");
    auto& px = sparrow::detail::array_access::get_arrow_proxy(a);
    p(px.length() == n, "proxy-length");
    (void) px.name(); (void) px.metadata(); (void) px.format(); (void) px.flags(); (void) px.null_count(); (void) px.data_type();
    for (auto& b : px.buffers()) { unsigned s = 0; for (auto e : b) s += e; volatile unsigned sink = s; (void) sink; }
    std::function<void(const sparrow::arrow_proxy&)> down = [&](const sparrow::arrow_proxy& q)
    {
        for (auto& b : q.buffers()) { unsigned s = 0; for (auto e : b) s += e; volatile unsigned sink = s; (void) sink; }
        (void) q.name(); (void) q.metadata();
        for (auto& ch : q.children()) down(ch);
        if (q.dictionary()) down(*q.dictionary());
    };
    down(px);
    if (!deep) return;
    {
        sparrow::array b(a);
        if (!nan) p(a == b && b == a, "copy-not-equal");
        p.same(want, sr::read(b), "copied");
        sparrow::array d;
        d = b;
        walk(d, want, r, p);
    }
    const size_t x = r.below(n + 1), y = x + r.below(n - x + 1);
    Col w(want.begin() + long(x), want.begin() + long(y));
    {
        sparrow::array v = a.slice_view(x, y);
        p(v.size() == w.size(), "view-size");
        p.same(w, sr::read(v), "view");
        walk(v, w, r, p);
        sparrow::array vc(v);
        p.same(w, sr::read_visit_iter(vc), "copy-of-view");
        if (!nan) p(v == vc, "view-not-equal-to-its-copy");
        if (!nan) p((v == a) == (w == want), "view-and-whole-comparison");
    }
    {
        sparrow::array s = a.slice(x, y);
        p.same(w, sr::read(s), "slice");
        walk(s, w, r, p);
    }
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void bt::CAT(walk, VT_PART)(const sparrow::array& a, const Col& want, Rng& r, Problems& p)
{
    bool hit = false;
    a.visit([&](const auto& t) { if constexpr (sc::group<std::decay_t<decltype(t)>>() == VT_PART) { hit = true; typed(t, want, r, p); } });
    p(hit, "visit-presents-another-layout");
}
#endif
