// P18: array equality is value equality, independent of physical encoding.
#if VT_PART == 0
#include "views.hpp"
#include "world.hpp"
VT_MAIN_DEFS
#else
#include "scen.hpp"
#endif
using namespace sc;
void typed_eq1(sp::array&, sp::array&, bool, const std::string&);
void typed_eq2(sp::array&, sp::array&, bool, const std::string&);
void typed_eq3(sp::array&, sp::array&, bool, const std::string&);
#if VT_PART == 0
namespace
{
    double half(uint16_t h)
    {
        const int e = (h >> 10) & 31, m = h & 1023;
        const double s = h & 0x8000 ? -1 : 1;
        if (e == 31) return m ? std::nan("") : s * INFINITY;
        return e ? s * std::ldexp(1024 + m, e - 25) : s * std::ldexp(m, -24);
    }
    // value equality of two logical values: 1 equal, 0 different, 2 involves a value not equal to itself
    int veq(const LV& a, const LV& b)
    {
        if (a.null || b.null) return a.null == b.null;
        if (a.tag != b.tag) return 0;
        if (a.tag == 's')
        {
            if (is_nan_atom(a) || is_nan_atom(b)) return 2;
            const auto ta = a.atom.substr(0, a.atom.find(':')), tb = b.atom.substr(0, b.atom.find(':'));
            if (ta != tb) return 0;
            if (a.atom == b.atom) return 1;
            auto num = [&](const LV& v) -> double
            {
                auto s = atom_bytes(v);
                if (ta == "f32") { float f; memcpy(&f, s.data(), 4); return f; }
                if (ta == "f64") { double f; memcpy(&f, s.data(), 8); return f; }
                if (ta == "f16") { uint16_t h; memcpy(&h, s.data(), 2); return half(h); }
                return std::nan("");
            };
            return num(a) == num(b);
        }
        if (a.ch.size() != b.ch.size()) return 0;
        int r = 1;
        for (size_t i = 0; i < a.ch.size(); ++i)
        {
            int x = veq(a.ch[i], b.ch[i]);
            if (x == 0) return 0;
            if (x == 2) r = 2;
        }
        return r;
    }
    int veq(const Col& a, const Col& b)
    {
        if (a.size() != b.size()) return 0;
        int r = 1;
        for (size_t i = 0; i < a.size(); ++i)
        {
            int x = veq(a[i], b[i]);
            if (x == 0) return 0;
            if (x == 2) r = 2;
        }
        return r;
    }
    // the child of a union a null comes from is not part of its value: such types can hold nulls that differ
    bool ambiguous(const TD& t)
    {
        if (t.k == K::DICT && sb::needs_sel(t.ch[0])) return true;
        for (auto& c : t.ch) if (ambiguous(c)) return true;
        return false;
    }
    // change one value or null somewhere
    bool mutate(const TD& t, Col& c, Rng& r)
    {
        if (c.empty()) return false;
        const size_t i = r.below(c.size());
        LV old = c[i];
        if (has_validity(t.k) && t.k != K::DICT && r.chance(1, 3) && !old.null) c[i] = null_lv();
        else for (int k = 0; k < 10; ++k) { c[i] = gen_value(t, r, 20); if (veq(c[i], old) == 0) break; }
        return veq(c[i], old) == 0;
    }
    P wrap(P o, Rng& r)
    {
        // the same contents as a window of something longer
        if (r.chance(1, 4))
        {
            P n = std::make_shared<Obj>();
            n->t = o->t; n->c = o->c; n->parent = o; n->how = o->how + "/window";
            n->arr.emplace(r.chance(1, 2) ? o->arr->slice(0, o->c.size()) : o->arr->slice_view(0, o->c.size()));
            return n;
        }
        return o;
    }
    // an array with contents c inside something longer
    P make(const TD& t, const Col& c, Rng& r)
    {
        vt::label(std::string("make|") + kname(t.k));
        if (r.chance(1, 3))
        {
            Col big; size_t lo = r.below(4), hi = r.below(4);
            for (size_t i = 0; i < lo; ++i) big.push_back(gen_value(t, r, 30));
            big.insert(big.end(), c.begin(), c.end());
            for (size_t i = 0; i < hi; ++i) big.push_back(gen_value(t, r, 30));
            P o = obtain(t, big, r, gen_how(r));
            P n = std::make_shared<Obj>();
            n->t = t; n->c = c; n->parent = o; n->how = o->how + "/inner window";
            n->arr.emplace(r.chance(1, 2) ? o->arr->slice(lo, lo + c.size()) : o->arr->slice_view(lo, lo + c.size()));
            return n;
        }
        return wrap(obtain(t, c, r, gen_how(r)), r);
    }
    void compare(P& x, P& y, int want, bool skip, const char* what)
    {
        const std::string ctx = td_str(x->t) + " " + x->how + " " + col_str(x->c) + " vs " + y->how + " " + col_str(y->c);
        const bool a = *x->arr == *y->arr, b = *y->arr == *x->arr, na = *x->arr != *y->arr;
        vt::check(a == b, std::string("not-symmetric-") + what, ctx);
        vt::check(na == !a, std::string("inequality-is-not-the-negation-") + what, ctx);
        vt::cover(a ? "equal answers" : "unequal answers");
        if (want == 2) return;   // a value that does not equal itself
        if (want == 1 && skip) return;
        vt::check(a == (want == 1), std::string(want ? "equal-contents-compare-different-" : "different-contents-compare-equal-") + what, ctx);
        auto* f = group(x->t) == 1 ? typed_eq1 : group(x->t) == 2 ? typed_eq2 : typed_eq3;
        f(*x->arr, *y->arr, want == 1, ctx);
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        g_large = cs.mode == "large";
        if (cs.mode == "views") { vw::history(cs, vw::EQUAL); return; }
        Rng& r = cs.rng;
        vt::label("type");
        TD t = gen_t(r, int(r.below(4)));
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
        const std::string k = kname(t.k);
        vt::cover("layout:" + k);
        const bool amb = ambiguous(t);
        P x = make(t, c, r), y = make(t, c, r), z = make(t, c, r);
        vt::distinct(vt::fnv(x->how + y->how + td_str(t) + col_str(c)));
        if (r.chance(1, 50)) vt::sample(td_str(t) + " " + x->how + " vs " + y->how + " " + col_str(c));
        vt::label("equal|" + k);
        const int self = veq(c, c);
        compare(x, x, self, false, "itself");
        compare(x, y, self, amb, "encodings");
        if (self == 1 && !amb)
        {
            compare(y, z, 1, false, "encodings");
            compare(x, z, 1, false, "encodings");
            vt::cover("triples");
        }
        sp::array copy(*x->arr);
        if (self == 1) vt::check(copy == *x->arr && *x->arr == copy, "copy-differs", td_str(t) + " " + x->how);
        for (int i = 0; i < 2; ++i)
        {
            Col d = c;
            const int how = int(r.below(3));
            if (how == 0 && !d.empty()) d.pop_back();
            else if (how == 1) d.insert(r.chance(1, 2) ? d.begin() : d.end(), gen_value(t, r, 20));
            else if (!mutate(t, d, r)) continue;
            const int want = veq(c, d);
            P w = make(t, d, r);
            vt::label("different|" + k);
            vt::cover(how == 2 ? "one value changed" : "length changed");
            compare(x, w, want, amb || want == 1, "changed");
        }
        if (r.chance(1, 4))
        {
            // arrays of different types are never equal
            TD u = gen_t(r, 1);
            vt::label("other-type|" + k);
            if (u.k != t.k && !(u.k == K::DICT && t.k == K::DICT))
            {
                P w = make(u, gen_col(u, c.size(), r, 20), r);
                vt::check(!(*w->arr == *x->arr) && !(*x->arr == *w->arr), "different-types-compare-equal", td_str(t) + " " + td_str(u));
                vt::cover("type mismatches");
            }
        }
        if (r.chance(1, 4) && self == 1 && !amb)
        {
            vt::label("batch|" + k);
            sp::record_batch b1(std::vector<std::string>{"a", "b"}, std::vector<sp::array>{*x->arr, *y->arr}), b2(std::vector<std::string>{"a", "b"}, std::vector<sp::array>{*y->arr, *z->arr});
            sp::record_batch b3(std::vector<std::string>{"a", "c"}, std::vector<sp::array>{*x->arr, *y->arr});
            vt::check(b1 == b2 && b2 == b1 && b1 == b1, "equal-batches-compare-different", td_str(t));
            vt::check(!(b1 == b3) && b1 != b3, "batches-with-different-names-compare-equal");
            Col d = c;
            if (mutate(t, d, r) && veq(c, d) == 0)
            {
                P w = make(t, d, r);
                sp::record_batch b4(std::vector<std::string>{"a", "b"}, std::vector<sp::array>{*x->arr, *w->arr});
                vt::check(!(b1 == b4) && !(b4 == b1), "batches-with-different-columns-compare-equal");
            }
            vt::cover("batches compared");
        }
        vt::label("end|" + k);
    });
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(typed_eq, VT_PART)(sp::array& x, sp::array& y, bool want, const std::string& ctx)
{
    visit_group<VT_PART>(x, [&](const auto& a)
    {
        using A = std::decay_t<decltype(a)>;
        const std::type_info* ti = nullptr;
        const void* p = typed_ptr(y, ti);
        if (!vt::check(*ti == typeid(A), "typed-layouts-differ", ctx)) return;
        const A& b = *static_cast<const A*>(p);
        vt::check((a == b) == want && (b == a) == want && (a != b) == !want, "typed-comparison", ctx);
        vt::check(a.size() != b.size() || want == std::equal(a.begin(), a.end(), b.begin(), b.end()), "elementwise-comparison", ctx);
        vt::cover("typed comparisons");
    });
}
#endif
