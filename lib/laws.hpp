// Laws every range of an array obeys, and every way of reading a typed array.
#pragma once
#include "battery.hpp"
#include "scen.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"
namespace
{
    using namespace am;
    using bt::Problems;
    // conv(*it) gives a logical value; want[i] is what position i must show
    template <class It, class Conv>
    void laws(It b, It e, const Col& want, Conv&& conv, Rng& r, Problems& p, const std::string& name)
    {
        const size_t n = want.size();
        ++p.laws;
        auto at = [&](const It& it, size_t i, const char* how) { LV v = conv(*it); p(v == want[i], name + "-" + how, vt::fmt("at %zu of %zu: want %s got %s", i, n, lv_str(want[i]).c_str(), lv_str(v).c_str())); };
        size_t i = 0;
        for (It it = b; it != e && i <= n; ++it, ++i) if (i < n) at(it, i, "forward");
        if (!p(i == n, name + "-length", vt::fmt("%zu want %zu", i, n))) return;
        p(b == b && (n == 0) == (b == e) && !(b != b), name + "-equality");
        p(size_t(std::distance(b, e)) == n, name + "-distance");
        {
            It it = b, c = b;
            if (n > 0)
            {
                It old = it++;
                p(old == b && it != b && ++c == it, name + "-post-increment");
                at(old, 0, "post-increment-value");
            }
            It d;
            d = b;
            p(d == b, name + "-assignment");
            It m(std::move(d));
            p(m == b, name + "-move");
        }
        if constexpr (requires { --b; })
        {
            It it = e;
            for (size_t k = n; k > 0;)
            {
                --k;
                if (r.chance(1, 4)) { It old = it--; p(size_t(std::distance(b, old)) == k + 1, name + "-post-decrement"); }
                else --it;
                at(it, k, "backward");
            }
            p(it == b, name + "-backward-end");
            std::reverse_iterator<It> rb(e), re(b);
            size_t k = n;
            for (; rb != re && k > 0; ++rb) { --k; LV v = conv(*rb); p(v == want[k], name + "-reversed", vt::fmt("at %zu", k)); }
            p(rb == re && k == 0, name + "-reversed-length");
        }
        if constexpr (requires { e - b; b += 1; b < e; })
        {
            p(size_t(e - b) == n && b - e == -std::ptrdiff_t(n), name + "-difference");
            p(b + std::ptrdiff_t(n) == e && e - std::ptrdiff_t(n) == b && std::ptrdiff_t(n) + b == e, name + "-begin-plus-size");
            const size_t pairs = n <= 9 ? (n + 1) * (n + 1) : 24;
            for (size_t q = 0; q < pairs; ++q)
            {
                const size_t x = n <= 9 ? q / (n + 1) : r.below(n + 1), y = n <= 9 ? q % (n + 1) : r.below(n + 1);
                It ix = b + std::ptrdiff_t(x), iy = e - std::ptrdiff_t(n - y);
                const std::ptrdiff_t d = std::ptrdiff_t(y) - std::ptrdiff_t(x);
                p(iy - ix == d && ix - iy == -d, name + "-distance-of-two");
                p((ix == iy) == (x == y) && (ix != iy) == (x != y) && (ix < iy) == (x < y) && (ix <= iy) == (x <= y) && (ix > iy) == (x > y) && (ix >= iy) == (x >= y),
                  name + "-comparison", vt::fmt("positions %zu and %zu", x, y));
                It z = ix;
                z += d;
                p(z == iy, name + "-advance");
                z -= d;
                p(z == ix, name + "-advance-back");
                p(ix + d == iy && iy - d == ix, name + "-plus");
                if (y < n)
                {
                    LV v = conv(ix[d]);
                    p(v == want[y], name + "-subscript", vt::fmt("from %zu by %td: want %s got %s", x, d, lv_str(want[y]).c_str(), lv_str(v).c_str()));
                    at(iy, y, "jumped");
                }
            }
        }
    }
    struct elem { template <class V> LV operator()(const V& v) const { return sr::of_element(v); } };
    template <class A> constexpr bool comparable = !std::same_as<A, sparrow::binary_view_array>;   // spans are not
    template <class A> void typed(const A& a, const Col& want, Rng& r, Problems& p)
    {
        const size_t n = want.size();
        if (!p(a.size() == n, "typed-size", vt::fmt("%zu want %zu", a.size(), n))) return;
        if constexpr (requires { a.empty(); }) p(a.empty() == (n == 0), "typed-empty");
        p.same(want, sr::read_index(a), "typed-index");
        Col rev(want.rbegin(), want.rend());
        laws(a.begin(), a.end(), want, elem{}, r, p, "iterator");
        laws(a.cbegin(), a.cend(), want, elem{}, r, p, "const-iterator");
        p(a.begin() == a.cbegin() && a.end() == a.cend(), "begin-is-not-cbegin");
        if constexpr (requires { a.rbegin(); a.crend(); })
        {
            laws(a.rbegin(), a.rend(), rev, elem{}, r, p, "reverse-iterator");
            laws(a.crbegin(), a.crend(), rev, elem{}, r, p, "const-reverse-iterator");
        }
        if constexpr (requires { a.begin()->has_value(); })
        {
            size_t i = 0;
            for (auto it = a.begin(); it != a.end() && i < n; ++it, ++i) p(it->has_value() == !want[i].null, "arrow-operator");
        }
        if constexpr (requires { a.front(); a.back(); })
            if (n) { p(sr::of_element(a.front()) == want.front(), "front"); p(sr::of_element(a.back()) == want.back(), "back"); }
        if constexpr (requires { a.at(0); })
        {
            Col c;
            for (size_t i = 0; i < n; ++i) c.push_back(sr::of_element(a.at(i)));
            p.same(want, c, "typed-at");
        }
        if constexpr (requires { a.bitmap(); a.values(); })
        {
            auto bm = a.bitmap();
            auto vals = a.values();
            Col flags;
            for (auto& v : want) flags.push_back(scalar_pod(K::BOOL, uint8_t(!v.null)));
            auto flag = [](bool b) { return scalar_pod(K::BOOL, uint8_t(b)); };
            laws(std::ranges::begin(bm), std::ranges::end(bm), flags, flag, r, p, "validity");
            // values under nulls are unspecified: read them, compare the others
            Col raw;
            if constexpr (!std::same_as<A, sparrow::null_array>)
            {
                for (auto it = std::ranges::begin(vals); it != std::ranges::end(vals); ++it) { raw.push_back(sr::of_value(*it)); if (raw.size() > n) break; }
                if (p(raw.size() == n, "values-length", vt::fmt("%zu want %zu", raw.size(), n)))
                {
                    Col w = want;
                    for (size_t i = 0; i < n; ++i) if (w[i].null) w[i] = raw[i];
                    laws(std::ranges::begin(vals), std::ranges::end(vals), w, [](const auto& v) { return sr::of_value(v); }, r, p, "values");
                }
            }
            else p(size_t(std::ranges::distance(vals)) == n, "values-length");
        }
        bool nan = false;
        for (auto& v : want) nan = nan || has_nan(v);
        if constexpr (comparable<A>) if (!nan) p(a == a, "typed-not-equal-to-itself");
        // a copy that may be walked without const
        A m(a);
        if constexpr (comparable<A>) if (!nan) p(m == a && a == m, "typed-copy-not-equal");
        p.same(want, sr::read_index(m), "copy-index");
        laws(m.begin(), m.end(), want, elem{}, r, p, "mutable-iterator");
        Col x;
        for (size_t i = 0; i < n; ++i) x.push_back(sr::of_element(m[i]));
        p.same(want, x, "mutable-index");
        x.clear();
        for (auto&& e : m) { x.push_back(sr::of_element(e)); if (x.size() > n) break; }
        p.same(want, x, "mutable-range-for");
        if constexpr (requires { typename A::const_iterator(m.begin()); })
        {
            typename A::const_iterator ci(m.begin());
            p(ci == m.cbegin() && (n == 0 || sr::of_element(*ci) == want[0]), "iterator-conversion");
        }
    }
}
