// P17: record batches against a model table.
#include "scen.hpp"
#include <deque>
#include <list>
#include <ranges>
#include <sstream>
VT_MAIN_DEFS
using namespace sc;
namespace
{
    struct Model { std::vector<std::string> names; std::vector<P> cols; std::vector<std::string> sigs; };
    struct Batch { std::optional<sp::record_batch> rb; Model m; bool moved = false; };

    std::string gen_name(Rng& r)
    {
        switch (r.below(8))
        {
            case 0: return "";
            case 1: return std::string("a\0b", 3).substr(0, 1 + r.below(3));
            case 2: return std::string(1 + r.below(60), char('a' + r.below(3)));
            case 3: return "\xc3\xa9" + std::to_string(r.below(3));
            case 4: return std::string(1, char(r.below(256)));
            default: return "col" + std::to_string(r.below(12));
        }
    }
    std::vector<std::string> gen_names(Rng& r, size_t n)
    {
        std::vector<std::string> v;
        while (v.size() < n) { auto x = gen_name(r); if (std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); }
        return v;
    }
    P column(Rng& r, size_t len)
    {
        TD t = gen_t(r, int(r.below(3)));
        Col c = gen_col(t, len, r, r.pick({0, 10, 50, 100}));
        return obtain(t, c, r, r.pick({How::BUILT, How::BUILT, How::OWNED, How::LENT, How::HALF, How::REIMPORT, How::RELENT}));
    }
    std::vector<P> columns(Rng& r, size_t n) { const size_t len = gen_len(r); std::vector<P> v; for (size_t i = 0; i < n; ++i) v.push_back(column(r, len)); return v; }

    void verify(const Batch& b, Rng& r, const std::string& hist)
    {
        const sp::record_batch& rb = *b.rb;
        const Model& m = b.m;
        const size_t n = m.cols.size(), rows = n ? m.cols[0]->size() : 0;
        auto ck = [&](bool ok, const char* w, const std::string& d = "") { if (!ok) vt::violation(w, d + " | " + hist); };
        ck(rb.nb_columns() == n, "number of columns");
        ck(rb.nb_rows() == rows, "number of rows", vt::fmt("%zu want %zu", rb.nb_rows(), rows));
        ck(std::ranges::equal(rb.names(), m.names), "names range");
        ck(size_t(std::ranges::distance(rb.columns())) == n, "columns range length");
        if (rb.nb_columns() != n || !std::ranges::equal(rb.names(), m.names) || size_t(std::ranges::distance(rb.columns())) != n) return;
        for (size_t i = 0; i < n; ++i)
        {
            ck(rb.get_column_name(i) == m.names[i], "name by index");
            const sp::array& x = rb.get_column(i);
            ck(&x == &rb.columns()[std::ptrdiff_t(i)], "column by index is not the one of the range");
            ck(rb.contains_column(m.names[i]), "existence of a known name");
            try { ck(&rb.get_column(m.names[i]) == &x, "column by name is not the one at the name's index", "name " + hex(m.names[i])); }
            catch (const std::out_of_range&) { ck(false, "a known name is reported unknown", hex(m.names[i])); }
            ck(x.size() == rows, "column size");
            const Col got = sr::read(x);
            ck(got == m.cols[i]->c, "column contents", "want " + col_str(m.cols[i]->c) + " got " + col_str(got));
            ck(schema_sig(const_cast<sp::array&>(x)) == m.sigs[i], "column schema", m.sigs[i]);
        }
        for (int k = 0; k < 3; ++k)
        {
            std::string q = gen_name(r);
            if (n && r.chance(1, 2)) { q = m.names[r.below(n)]; if (r.chance(1, 2)) q += "x"; else if (!q.empty()) q.pop_back(); }
            const bool known = std::find(m.names.begin(), m.names.end(), q) != m.names.end();
            ck(rb.contains_column(q) == known, "existence test", hex(q));
            if (known) continue;
            vt::cover("unknown names refused");
            try { rb.get_column(q); ck(false, "an unknown name was accepted", hex(q)); }
            catch (const std::out_of_range&) {}
            catch (const std::exception& e) { ck(false, "an unknown name raises another error", e.what()); }
        }
        vt::cover("batches verified");
        vt::cover("columns read", n);
    }
    bool nans(const Col& c) { for (auto& x : c) if (has_nan(x)) return true; return false; }
    bool same_column(const P& x, const P& y) { return td_str(x->t) == td_str(y->t) && x->c == y->c; }
    // element equality as the arrays define it is P18's; here only batches that share (or do not) their column objects' origin
    void compare(const Batch& x, const Batch& y, const std::string& hist)
    {
        bool names = x.m.names == y.m.names, cols = x.m.cols.size() == y.m.cols.size(), certain = true;
        for (size_t i = 0; i < x.m.cols.size() && cols; ++i)
        {
            const P &a = x.m.cols[i], &b = y.m.cols[i];
            if (a == b) { if (nans(a->c)) certain = false; continue; }
            if (a->size() != b->size()) cols = false;
            else if (!same_column(a, b)) { if (a->t.k == b->t.k && is_fixed(a->t.k) && !nans(a->c) && !nans(b->c) && a->t.k < K::F16) cols = false; else certain = false; }
            else certain = false;
        }
        if (!names || !cols || certain)
        {
            const bool want = names && cols;
            vt::check((*x.rb == *y.rb) == want, want ? "equal batches compare different" : "different batches compare equal", hist);
            vt::check((*x.rb != *y.rb) != want, "operator!= disagrees", hist);
            vt::cover(want ? "equal batches" : "different batches");
        }
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        std::string hist;
        auto make = [&](Batch& b)
        {
            const size_t n = r.pick({0, 1, 1, 2, 3, 4, 6});
            b.m.names = gen_names(r, n);
            b.m.cols = columns(r, n);
            for (auto& c : b.m.cols) b.m.sigs.push_back(schema_sig(*c->arr));
            // the caller's containers
            std::vector<std::string> names = b.m.names;
            std::vector<sp::array> cols;
            for (auto& c : b.m.cols) { if (r.chance(1, 6)) { cols.push_back(c->arr->slice(0, c->size())); } else cols.push_back(*c->arr); }
            for (size_t i = 0; i < n; ++i) b.m.sigs[i] = schema_sig(cols[i]);
            auto intact = [&](bool nm, bool cl, const char* how)
            {
                if (nm) vt::check(names == b.m.names, "the caller's names were altered", how);
                if (cl) for (size_t i = 0; i < n; ++i)
                {
                    vt::check(cols[i].size() == b.m.cols[i]->size() && schema_sig(cols[i]) == b.m.sigs[i] && sr::read(cols[i]) == b.m.cols[i]->c, "the caller's columns were altered", how);
                    vt::check(shared_memory(cols[i], const_cast<sp::array&>(b.rb->get_column(i))).empty(), "a column shares memory with the caller's array", how);
                }
                vt::cover("caller containers checked");
            };
            const char* how = "";
            switch (r.below(10))
            {
                case 0: vt::label(how = "from rvalues"); b.rb.emplace(std::move(names), std::move(cols)); break;
                case 1: vt::label(how = "from lvalues"); b.rb.emplace(names, cols); intact(true, true, how); break;
                case 2: vt::label(how = "from const lvalues"); b.rb.emplace(std::as_const(names), std::as_const(cols)); intact(true, true, how); break;
                case 3: vt::label(how = "from lvalue names and rvalue columns"); b.rb.emplace(names, std::move(cols)); intact(true, false, how); break;
                case 4: vt::label(how = "from views"); b.rb.emplace(names | std::views::all, cols | std::views::take(n)); intact(true, true, how); break;
                case 5:
                {
                    vt::label(how = "from other containers");
                    std::list<std::string> nl(names.begin(), names.end());
                    std::deque<sp::array> cd(cols.begin(), cols.end());
                    b.rb.emplace(nl, cd);
                    for (size_t i = 0; i < n; ++i) vt::check(sr::read(cd[i]) == b.m.cols[i]->c, "the caller's columns were altered", how);
                    intact(true, true, how);
                    break;
                }
                case 6:
                {
                    vt::label(how = "from transformed names");
                    b.rb.emplace(std::views::iota(size_t(0), n) | std::views::transform([&](size_t i) { return names[i]; }), std::ranges::subrange(cols.begin(), cols.end()));
                    intact(true, true, how);
                    break;
                }
                case 7:
                {
                    vt::label(how = "from single-pass names");
                    std::string text;
                    for (size_t i = 0; i < n; ++i) { names[i] = "n" + std::to_string(i) + std::string(r.below(20), 'q'); text += names[i] + " "; }
                    b.m.names = names;
                    std::istringstream in(text);
                    b.rb.emplace(std::ranges::istream_view<std::string>(in), cols);
                    intact(true, true, how);
                    break;
                }
                case 8:
                {
                    vt::label(how = "from an initializer list");
                    using I = sp::record_batch::initializer_type;
                    switch (n)
                    {
                        case 0: b.rb.emplace(I{}); break;
                        case 1: b.rb.emplace(I{{names[0], cols[0]}}); intact(true, true, how); break;
                        case 2: b.rb.emplace(I{{names[0], cols[0]}, {names[1], cols[1]}}); intact(true, true, how); break;
                        case 3: b.rb.emplace(I{{names[0], cols[0]}, {names[1], cols[1]}, {names[2], cols[2]}}); intact(true, true, how); break;
                        default: b.rb.emplace(names, cols);
                    }
                    break;
                }
                default:
                {
                    vt::label(how = "from mixed rvalues");
                    b.rb.emplace(std::move(names), cols | std::views::reverse | std::views::reverse);
                    intact(false, true, how);
                }
            }
            hist += std::string(" ") + how + vt::fmt("(%zu)", n);
            vt::cover(how);
        };
        std::vector<Batch> bs;
        const size_t steps = 2 + r.below(10);
        std::string shape;
        for (size_t s = 0; s < steps; ++s)
        {
            const size_t k = bs.empty() ? 0 : r.below(12);
            auto alive = [&] { size_t i = r.below(bs.size()); return i; };
            if (k < 3 && bs.size() < 5) { bs.emplace_back(); make(bs.back()); }
            else if (bs.empty()) continue;
            else switch (k)
            {
                case 0: case 1: case 2: case 3:
                {
                    const size_t i = alive();
                    if (bs[i].moved || bs.size() >= 5) break;
                    vt::label("copy"); hist += vt::fmt(" copy%zu", i);
                    Batch n; n.m = bs[i].m; n.rb.emplace(std::as_const(*bs[i].rb));
                    for (size_t c = 0; c < n.m.cols.size(); ++c)
                        vt::check(shared_memory(const_cast<sp::array&>(n.rb->get_column(c)), const_cast<sp::array&>(bs[i].rb->get_column(c))).empty(), "a copy shares memory with its source", hist);
                    bs.push_back(std::move(n));
                    vt::cover("copies");
                    break;
                }
                case 4: case 5:
                {
                    const size_t i = alive(), j = alive();
                    if (bs[j].moved) break;
                    vt::label("assign"); hist += vt::fmt(" %zu=%zu", i, j);
                    *bs[i].rb = std::as_const(*bs[j].rb);
                    Model m = bs[j].m; bs[i].m = m; bs[i].moved = false;
                    vt::cover(i == j ? "self assignments" : "assignments");
                    break;
                }
                case 6: case 7:
                {
                    const size_t i = alive(), j = alive();
                    if (bs[j].moved || i == j) break;
                    vt::label("move assign"); hist += vt::fmt(" %zu=mv%zu", i, j);
                    *bs[i].rb = std::move(*bs[j].rb);
                    bs[i].m = bs[j].m; bs[i].moved = false; bs[j].moved = true;
                    vt::cover("move assignments");
                    break;
                }
                case 8:
                {
                    const size_t i = alive();
                    if (bs[i].moved) break;
                    vt::label("move"); hist += vt::fmt(" mv%zu", i);
                    sp::record_batch m(std::move(*bs[i].rb));
                    bs[i].rb.emplace(std::move(m));
                    vt::cover("moves");
                    break;
                }
                case 9:
                {
                    const size_t i = alive();
                    vt::label("destroy"); hist += vt::fmt(" del%zu", i);
                    bs.erase(bs.begin() + long(i));
                    vt::cover("destructions");
                    break;
                }
                case 10:
                {
                    const size_t i = alive(), j = alive();
                    if (bs[i].moved || bs[j].moved || i == j) break;
                    vt::label("swap"); hist += vt::fmt(" %zu<->%zu", i, j);
                    std::swap(*bs[i].rb, *bs[j].rb); std::swap(bs[i].m, bs[j].m);
                    break;
                }
                default:
                {
                    const size_t i = alive();
                    if (bs[i].moved || bs[i].m.cols.empty()) break;
                    vt::label("column copy"); hist += vt::fmt(" col%zu", i);
                    const size_t c = r.below(bs[i].m.cols.size());
                    sp::array x(bs[i].rb->get_column(c));
                    vt::check(sr::read(x) == bs[i].m.cols[c]->c, "a copied column differs", hist);
                    sp::array y(bs[i].rb->get_column(bs[i].m.names[c]).slice(0, x.size() / 2));
                    vt::check(y.size() == x.size() / 2, "slice of a column");
                }
            }
            vt::label("verify");
            for (auto& b : bs) if (!b.moved) verify(b, r, hist);
            vt::label("compare");
            for (auto& x : bs) for (auto& y : bs) if (!x.moved && !y.moved && r.chance(1, 2)) compare(x, y, hist);
            vt::label("compare-near");
            for (auto& x : bs)
            {
                // a batch with the same columns but for one small difference
                if (x.moved || x.m.cols.empty() || !r.chance(1, 3)) continue;
                const size_t n = x.m.cols.size();
                Batch y;
                y.m = x.m;
                std::vector<size_t> perm(n);
                for (size_t i = 0; i < n; ++i) perm[i] = i;
                const size_t i = r.below(n), j = r.below(n);
                const char* what = "";
                switch (r.below(6))
                {
                    case 0: what = "columns and names in another order"; std::swap(perm[i], perm[j]); std::swap(y.m.names[i], y.m.names[j]); break;
                    case 1: what = "names in another order"; std::swap(y.m.names[i], y.m.names[j]); break;
                    case 2: what = "columns in another order"; std::swap(perm[i], perm[j]); break;
                    case 3: what = "another name"; y.m.names[i] += "~"; break;
                    case 4: what = "one column less"; perm.pop_back(); y.m.names.pop_back(); break;
                    default: what = "the same again"; break;
                }
                std::vector<sp::array> cols;
                y.m.cols.clear();
                for (size_t k : perm) { cols.push_back(x.rb->get_column(k)); y.m.cols.push_back(x.m.cols[k]); }
                y.rb.emplace(y.m.names, std::move(cols));
                compare(x, y, hist + " against " + what);
                compare(y, x, hist + " against " + what);
                vt::cover("batches that differ a little");
                vt::cover(what);
            }
        }
        for (auto& b : bs) for (auto& c : b.m.cols) shape += td_str(c->t);
        vt::distinct(vt::fnv(hist + shape));
        if (r.chance(1, 100)) vt::sample(hist.substr(0, 200));
        vt::label("end");
    });
}
