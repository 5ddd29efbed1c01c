// Lockstep histories of mutable typed arrays and vectors of optionals.
#pragma once
#include "scen.hpp"
#include "sparrow/layout/array_access.hpp"
#include <deque>

namespace mt
{
    using namespace sc;
    template <class V> using Model = std::vector<std::optional<V>>;

    template <class V> V from_atom(const LV& v)
    {
        const std::string_view b = atom_bytes(v);
        if constexpr (std::is_trivially_copyable_v<V>) { V x; memcpy(&x, b.data(), sizeof(V)); return x; }
        else { V x; for (char c : b) x.push_back(typename V::value_type(c)); return x; }
    }
    template <class V> LV to_lv(K k, const V& x)
    {
        if constexpr (std::is_trivially_copyable_v<V>) { if constexpr (std::is_same_v<V, bool>) return scalar_pod(k, uint8_t(x)); else return scalar_pod(k, x); }
        else { std::string s; for (auto c : x) s.push_back(char(c)); return scalar(kname(k), s); }
    }
    template <class V> Model<V> model_of(const Col& c)
    {
        Model<V> m;
        for (auto& x : c) { if (x.null) m.emplace_back(); else m.emplace_back(from_atom<V>(x)); }
        return m;
    }
    template <class V> Col col_of(K k, const Model<V>& m)
    {
        Col c;
        for (auto& x : m) c.push_back(x ? to_lv<V>(k, *x) : null_lv());
        return c;
    }

    template <class A, class V, K KIND>
    struct Machine
    {
        using N = typename A::value_type;   // nullable<V>
        Rng& r;
        bool structures;
        Model<V> m;
        std::vector<std::shared_ptr<Source>> sources;
        std::string hist, op;
        A arr;
        std::string k = kname(KIND);
        int64_t nc = 0;        // the null count the structure declares when element assignments do not update it

        TD td() const { TD t; t.k = KIND; t.flags = 2; return t; }
        V value()
        {
            TD t = td();
            LV v = gen_value(t, r, 0);
            return from_atom<V>(v);
        }
        std::optional<V> opt() { if (r.chance(1, 3)) return std::nullopt; return value(); }
        N nul(const std::optional<V>& o)
        {
            if (o) return N(V(*o), true);
            switch (r.below(3))
            {
                case 0: return N(sp::nullval);
                case 1: return N(V{}, false);
                default: return N(value(), false);   // a value hidden under the null
            }
        }
        Model<V> opts(size_t n) { Model<V> x; for (size_t i = 0; i < n; ++i) x.push_back(opt()); return x; }

        static A initial(Rng& r, Model<V>& m, std::vector<std::shared_ptr<Source>>& keep, std::string& hist)
        {
            TD t; t.k = KIND; t.flags = 2;
            Col c = gen_col(t, r.pick({0, 0, 1, 2, 3, 5, 7, 8, 9, 16, 17, 33, 64, 65}), r, r.pick({0, 10, 50, 100}));
            m = model_of<V>(c);
            switch (r.below(5))
            {
                case 0: case 1:
                    hist = "ctor"; vt::cover("from:typed constructor");
                    if constexpr (std::is_trivially_copyable_v<V>) return sb::primitive<V>(c, r);
                    else return sb::strings<A>(c, r);
                case 2:
                {
                    hist = "nullables"; vt::cover("from:nullable values");
                    std::vector<N> v;
                    for (auto& x : m) v.push_back(x ? N(V(*x), true) : N(V{}, false));
                    return A(v);
                }
                default:
                {
                    // a copy of an imported array
                    hist = "copy of import"; vt::cover("from:copy of an import");
                    auto s = std::make_shared<Source>();
                    s->foreign = true;
                    fp::ProdOpts po; po.bool_bytes = true;
                    fp::Producer p(s->tr, r, po);
                    p.schema(t, s->s); p.array(t, c, s->a);
                    keep.push_back(s);
                    const A imported{sp::arrow_proxy(std::move(s->a), std::move(s->s))};
                    return A(imported);
                }
            }
        }
        static A start(Rng& r, Model<V>& m, std::vector<std::shared_ptr<Source>>& keep, std::string& hist)
        {
            A a = initial(r, m, keep, hist);
            for (size_t n = r.below(3); n > 0; --n)
            {
                const size_t x = r.below(m.size() + 1), y = x + r.below(m.size() - x + 1);
                hist += vt::fmt(" slice(%zu,%zu)", x, y);
                if (x) vt::cover("from:slice with a non-zero start");
                if (r.chance(1, 2)) { A s = a.slice(x, y); a = s; }
                else a = A(a.slice(x, y));
                m = Model<V>(m.begin() + long(x), m.begin() + long(y));
            }
            return a;
        }
        Machine(Rng& rr, bool st) : r(rr), structures(st), arr(start(rr, m, sources, hist)) { nc = nulls(); }

        const ArrowArray& raw() { return std::as_const(sp::detail::array_access::get_arrow_proxy(arr)).array(); }
        const ArrowSchema& raws() { return std::as_const(sp::detail::array_access::get_arrow_proxy(arr)).schema(); }
        int64_t declared() { return raw().null_count; }
        int64_t nulls() const { int64_t n = 0; for (auto& x : m) n += !x; return n; }
        void bad(const std::string& w, const std::string& d = "") { vt::violation(w + " after " + op, d + " | " + hist); }
        static bool eq(const std::optional<V>& w, const auto& e)
        {
            if (e.has_value() != w.has_value()) return false;
            if (!w) return true;
            if constexpr (std::is_trivially_copyable_v<V>) { V x = e.get(); return memcmp(&x, &*w, sizeof(V)) == 0; }
            else
            {
                auto v = e.get();
                if (v.size() != w->size()) return false;
                const auto& cv = v;
                return std::equal(v.begin(), v.end(), w->begin(), w->end()) && std::equal(cv.begin(), cv.end(), w->begin(), w->end());
            }
        }
        template <class AA> void same_as(AA& a, const char* how)
        {
            const size_t n = m.size();
            if (a.size() != n) return bad(std::string("size ") + how, vt::fmt("%zu want %zu", size_t(a.size()), n));
            if (a.empty() != (n == 0)) bad(std::string("empty ") + how);
            for (size_t i = 0; i < n; ++i) if (!eq(m[i], a[i])) return bad(std::string("element ") + how, vt::fmt("index %zu of %zu", i, n));
            if (size_t(a.end() - a.begin()) != n) bad(std::string("end-begin ") + how);
            size_t i = 0;
            for (auto it = a.begin(); it != a.end(); ++it, ++i) if (i >= n || !eq(m[i], *it)) return bad(std::string("iterated element ") + how, vt::fmt("index %zu of %zu", i, n));
            if (i != n) bad(std::string("iteration length ") + how);
        }
        void check()
        {
            vt::label("read after " + op + "|" + k);
            same_as(std::as_const(arr), "const");
            same_as(arr, "mutable");
            const A& ca = arr;
            size_t i = 0;
            for (bool b : ca.bitmap()) { if (i >= m.size() || b != m[i].has_value()) { bad("bitmap range"); break; } ++i; }
            if (i != m.size()) bad("bitmap range length");
            i = 0;
            for (auto it = ca.crbegin(); it != ca.crend(); ++it, ++i) if (i >= m.size() || !eq(m[m.size() - 1 - i], *it)) { bad("reverse iteration"); break; }
            if (size_t(std::ranges::distance(ca.values())) != m.size()) bad("values range length");
            if (!m.empty() && (!eq(m.front(), ca.front()) || !eq(m.back(), ca.back()))) bad("front/back");
            vt::cover("states compared");
            vt::cover("elements compared", m.size());
            if (structures) check_structures();
        }
        void check_structures()
        {
            vt::label("structures after " + op + "|" + k);
            const int64_t d = declared(), want = nulls();
            if (d != want && d != -1)
            {
                if (d == nc)
                {
                    vt::label("element assignment|null count");
                    vt::violation("stale", vt::fmt("%lld nulls declared, %lld present after %s | %s", (long long) d, (long long) want, op.c_str(), hist.c_str()));
                    vt::label("structures after " + op + "|" + k);
                }
                else bad("null count", vt::fmt("%lld nulls declared, %lld present", (long long) d, (long long) want));
            }
            ArrowArray x = raw();
            if (d != want) x.null_count = -1;
            Reader rd; rd.o = strict();
            const Col wantc = col_of<V>(KIND, m);
            auto got = rd.read(&x, &raws(), nullptr);
            if (!got) bad("structures", rd.errors());
            else if (!(*got == wantc)) bad("decoded contents", "want " + col_str(wantc) + " got " + col_str(*got));
            // the proxy's view of the buffers is the structure's
            const auto& px = std::as_const(sp::detail::array_access::get_arrow_proxy(arr));
            if (px.length() != size_t(x.length) || px.offset() != size_t(x.offset)) bad("proxy length/offset");
            if (px.buffers().size() != size_t(x.n_buffers)) bad("proxy buffer count");
            else for (size_t i = 0; i < px.buffers().size(); ++i) if (px.buffers()[i].data() != x.buffers[i]) bad("proxy buffer pointer", std::to_string(i));
            if (r.chance(1, 4))
            {
                vt::label("reimport after " + op + "|" + k);
                sp::arrow_proxy copy(px);
                sp::array dyn(copy.extract_array(), copy.extract_schema());
                const Col rc = sr::read(dyn);
                if (!(rc == wantc)) bad("re-imported contents", "want " + col_str(wantc) + " got " + col_str(rc));
                vt::cover("structures re-imported");
            }
            vt::cover("structures decoded");
        }
        template <class It> void pos(It it, size_t want, bool deref)
        {
            if (it - arr.begin() != std::ptrdiff_t(want)) return bad("returned position", vt::fmt("%td want %zu", it - arr.begin(), want));
            if (deref && want < m.size() && !eq(m[want], *it)) bad("returned iterator's element");
            if ((it == arr.end()) != (want == m.size())) bad("returned iterator against end");
        }
        void begin_op(const std::string& o) { op = o; vt::label(o + "|" + k); vt::cover("op:" + o); }
        void step()
        {
            const size_t n = m.size();
            const size_t p = r.below(n + 1);
            auto at = [&](size_t i) { return std::as_const(arr).cbegin() + std::ptrdiff_t(i); };
            bool structural = true;
            if (n > 300)
            {
                begin_op("erase(range)");
                pos(arr.erase(at(10), at(n - 20)), 10, false);
                m.erase(m.begin() + 10, m.begin() + long(n - 20));
                hist += " cut";
            }
            else switch (r.below(22))
            {
                case 0: case 1:
                {
                    auto v = opt();
                    begin_op("push_back"); hist += v ? " push" : " pushnull";
                    arr.push_back(nul(v)); m.push_back(v);
                    break;
                }
                case 2:
                    if (n == 0) return;
                    begin_op("pop_back"); hist += " pop";
                    arr.pop_back(); m.pop_back();
                    break;
                case 3: case 4:
                {
                    auto v = opt();
                    begin_op("insert(value)"); hist += vt::fmt(" ins@%zu%s", p, v ? "" : "null");
                    auto it = arr.insert(at(p), nul(v)); m.insert(m.begin() + long(p), v);
                    pos(it, p, true);
                    break;
                }
                case 5:
                {
                    auto v = opt();
                    const size_t c = r.pick({0, 1, 2, 5, 8, 17});
                    begin_op("insert(count)"); hist += vt::fmt(" ins%zu@%zu%s", c, p, v ? "" : "null");
                    auto it = arr.insert(at(p), nul(v), c); m.insert(m.begin() + long(p), c, v);
                    pos(it, p, true);
                    break;
                }
                case 6:
                {
                    auto v = opts(3);
                    begin_op("insert(list)"); hist += vt::fmt(" insL@%zu", p);
                    auto it = r.chance(1, 2) ? arr.insert(at(p), {nul(v[0]), nul(v[1]), nul(v[2])}) : (v.resize(1), arr.insert(at(p), {nul(v[0])}));
                    m.insert(m.begin() + long(p), v.begin(), v.end());
                    pos(it, p, true);
                    break;
                }
                case 7: case 8:
                {
                    auto v = opts(r.pick({0, 1, 2, 5, 8, 17}));
                    std::vector<N> nv; for (auto& x : v) nv.push_back(nul(x));
                    begin_op("insert(iterators)"); hist += vt::fmt(" insI%zu@%zu", v.size(), p);
                    typename A::iterator it;
                    if (r.chance(1, 3)) { std::deque<N> dq(nv.begin(), nv.end()); it = arr.insert(at(p), dq.begin(), dq.end()); }
                    else it = arr.insert(at(p), nv.begin(), nv.end());
                    m.insert(m.begin() + long(p), v.begin(), v.end());
                    pos(it, p, true);
                    break;
                }
                case 9:
                {
                    auto v = opts(r.pick({0, 1, 2, 5, 8, 17}));
                    std::vector<N> nv; for (auto& x : v) nv.push_back(nul(x));
                    begin_op("insert(range)"); hist += vt::fmt(" insR%zu@%zu", v.size(), p);
                    auto it = arr.insert(at(p), nv);
                    m.insert(m.begin() + long(p), v.begin(), v.end());
                    pos(it, p, true);
                    break;
                }
                case 10:
                    if (n == 0) return;
                    {
                        const size_t i = r.below(n);
                        begin_op("erase"); hist += vt::fmt(" er@%zu", i);
                        auto it = arr.erase(at(i)); m.erase(m.begin() + long(i));
                        pos(it, i, true);
                    }
                    break;
                case 11: case 12:
                {
                    const size_t q = p + r.below(n - p + 1);
                    begin_op(p == q ? "erase(empty range)" : "erase(range)"); hist += vt::fmt(" er%zu-%zu", p, q);
                    auto it = arr.erase(at(p), at(q)); m.erase(m.begin() + long(p), m.begin() + long(q));
                    pos(it, p, true);
                    break;
                }
                case 13:
                {
                    auto v = opt();
                    const size_t nn = r.chance(1, 2) ? r.below(n + 1) : n + r.below(20);
                    begin_op(nn < n ? "resize(smaller)" : nn == n ? "resize(same)" : v ? "resize(larger)" : "resize(larger, null)");
                    hist += vt::fmt(" rs%zu%s", nn, v ? "" : "null");
                    arr.resize(nn, nul(v)); m.resize(nn, v);
                    break;
                }
                case 14: case 15: case 16: case 17:
                    structural = false;
                    if (n == 0) return;
                    assign(r.below(n));
                    break;
                default:
                    copies();
                    structural = false;
            }
            // element assignments leave the declared count; steps that change nothing may, too
            if (structural && (m.size() != n || declared() == nulls())) nc = nulls();
            check();
        }
        void assign(size_t i)
        {
            switch (r.below(6))
            {
                case 0:
                    begin_op("assign null"); hist += vt::fmt(" [%zu]=null", i);
                    arr[i] = sp::nullval; m[i].reset();
                    break;
                case 1: case 2:
                {
                    auto v = opt();
                    begin_op(v ? "assign nullable" : "assign null nullable"); hist += vt::fmt(" [%zu]=%s", i, v ? "v" : "n");
                    if (r.chance(1, 2)) arr[i] = nul(v);
                    else { auto it = arr.begin() + std::ptrdiff_t(i); const N x = nul(v); *it = x; }
                    m[i] = v;
                    break;
                }
                case 3:
                {
                    V v = value();
                    begin_op("assign value"); hist += vt::fmt(" [%zu]=value", i);
                    if constexpr (requires { arr[i] = v; }) arr[i] = v;
                    else arr[i] = sp::make_nullable(V(v));
                    m[i] = v;
                    break;
                }
                case 4:
                {
                    if (!m[i]) return;
                    V v = value();
                    begin_op("assign through value()"); hist += vt::fmt(" [%zu].value()=", i);
                    arr[i].value() = v;
                    m[i] = v;
                    break;
                }
                default:
                {
                    const size_t j = r.below(m.size());
                    begin_op("assign another element"); hist += vt::fmt(" [%zu]=[%zu]", i, j);
                    arr[i] = std::as_const(arr)[j];
                    if (m[j]) m[i] = V(*m[j]); else m[i].reset();
                }
            }
        }
        void copies()
        {
            switch (r.below(6))
            {
                case 0:
                {
                    begin_op("copy"); hist += " copy";
                    A b(arr); arr = std::move(b);
                    break;
                }
                case 1:
                {
                    begin_op("copy-assign"); hist += " copy=";
                    Model<V> om; std::string h;
                    A b = start(r, om, sources, h);
                    b = arr;
                    arr.push_back(nul(opt()));   // must not show in the copy
                    arr = b;
                    break;
                }
                case 2:
                {
                    begin_op("move"); hist += " move";
                    A b(std::move(arr)); A c(std::move(b));
                    arr = std::move(c);
                    break;
                }
                case 3:
                {
                    begin_op("self-assign"); hist += " self=";
                    A& self = arr; arr = self;
                    break;
                }
                case 4:
                {
                    const size_t n = m.size(), x = r.below(n + 1), y = x + r.below(n - x + 1);
                    begin_op("slice"); hist += vt::fmt(" slice(%zu,%zu)", x, y);
                    A s = arr.slice(x, y); arr = std::move(s);
                    m = Model<V>(m.begin() + long(x), m.begin() + long(y));
                    nc = nulls();
                    break;
                }
                default:
                {
                    begin_op("mutate a copy"); hist += " copy+mut";
                    A b(arr);
                    if (!m.empty()) b.pop_back();
                    b.push_back(nul(opt()));
                    if (!m.empty()) b[0] = sp::nullval;
                }
            }
            if (declared() == nulls()) nc = nulls();   // copies may keep or correct the count
        }
        void run()
        {
            op = "start";
            vt::label("start|" + k);
            check();
            const size_t steps = 2 + r.below(16);
            for (size_t i = 0; i < steps; ++i) step();
            vt::distinct(vt::fnv(k + hist));
            if (r.chance(1, 100)) vt::sample(k + ": " + hist.substr(0, 200));
            vt::label("end|" + k);
        }
    };
}
