// P20: a failing allocation at every point of construction, import, copy, assignment, mutation and edits.
#if VT_PART == 0
#define FI_DEFS
#endif
#include "fault.hpp"
#include "mut.hpp"
#include "proxy_model.hpp"
#include "sparrow/buffer/dynamic_bitset.hpp"
#include "sparrow/buffer/u8_buffer.hpp"
#include "sparrow/buffer/buffer_adaptor.hpp"
#include "sparrow/arrow_interface/arrow_array.hpp"
#include "sparrow/arrow_interface/arrow_schema.hpp"
#include "sparrow/builder/builder.hpp"
using namespace pm;
void mutate1(vt::Case&);
void mutate2(vt::Case&);
void mutate3(vt::Case&);
void containers(vt::Case&);
void copies1(vt::Case&);
void copies2(vt::Case&);
void copies3(vt::Case&);
void builders(vt::Case&);

// the array is usable: read in full, its structures decoded, equal to one of the given columns if any
inline void usable(sp::array& a, std::initializer_list<const Col*> one_of, const char* what)
{
    const Col got = sr::read(a);
    if (one_of.size() && std::none_of(one_of.begin(), one_of.end(), [&](auto* c) { return got == *c; })) vt::violation(std::string(what) + "-contents", col_str(got) + " want " + col_str(**one_of.begin()));
    std::string err;
    auto d = decode(a, err);
    if (!d) vt::violation(std::string(what) + "-structures", err);
    else if (!(*d == got)) vt::violation(std::string(what) + "-structures-differ", col_str(*d) + " read " + col_str(got));
    vt::cover("arrays checked");
}
inline Col gen_small(const TD& t, Rng& r) { return gen_col(t, r.pick({0, 1, 2, 3, 5, 8, 9, 17}), r, r.pick({0, 30, 100})); }
inline P small_obj(Rng& r, int depth = -1)
{
    TD t = gen_t(r, depth);
    return obtain(t, gen_small(t, r), r, gen_how(r));
}

#if VT_PART == 0
VT_MAIN_DEFS
namespace
{
    struct Build : fi::Attempt
    {
        TD t; Col c; Rng r; std::optional<sp::array> x;
        explicit Build(Rng& q) : t(gen_t(q)), c(gen_small(t, q)), r(q) {}
        void op() override { x.emplace(sb::build(t, c, r)); }
        void after(bool done) override { if (done) usable(*x, {&c}, "built"); }
    };
    struct Import : fi::Attempt
    {
        TD t; Col c; std::unique_ptr<Source> s = std::make_unique<Source>(); std::optional<sp::array> x; std::optional<sp::arrow_proxy> p; bool la, ls, proxy;
        explicit Import(Rng& q) : t(gen_t(q)), c(gen_small(t, q)), proxy(q.chance(1, 3))
        {
            la = q.chance(1, 3); ls = la || q.chance(1, 3);
            s->foreign = q.chance(2, 3);
            if (s->foreign) { fp::ProdOpts po; po.bool_bytes = true; fp::Producer pr(s->tr, q, po); pr.schema(t, s->s); pr.array(t, c, s->a); }
            else { auto [a, b] = sp::extract_arrow_structures(sb::build(t, c, q)); s->a = a; s->s = b; }
        }
        void op() override
        {
            if (proxy)
            {
                if (la) p.emplace(&s->a, &s->s);
                else if (ls) p.emplace(std::move(s->a), &s->s);
                else p.emplace(std::move(s->a), std::move(s->s));
            }
            else
            {
                if (la) x.emplace(&s->a, &s->s);
                else if (ls) x.emplace(std::move(s->a), &s->s);
                else x.emplace(std::move(s->a), std::move(s->s));
            }
        }
        void after(bool done) override
        {
            if (done && x) usable(*x, {&c}, "imported");
            if (la) vt::check(s->a.release != nullptr, "lent-array-released");
            if (ls) vt::check(s->s.release != nullptr, "lent-schema-released");
            if (done && !la) vt::check(s->a.release == nullptr, "owned-array-not-taken");
            x.reset(); p.reset();
            if (s->a.release) s->a.release(&s->a);
            if (s->s.release) s->s.release(&s->s);
            if (s->foreign)
            {
                vt::check(s->tr.all_released(), "not-released");
                for (auto& e : s->tr.errors) vt::violation("released-twice", e);
                vt::cover("foreign structures accounted");
            }
        }
    };
    // operations that make an array from another
    struct Derive : fi::Attempt
    {
        P o; int how; size_t b, e; std::optional<sp::array> x; std::optional<sp::arrow_proxy> p; std::optional<Col> seen; std::string sig;
        Derive(Rng& q, int h) : o(small_obj(q)), how(h)
        {
            b = q.below(o->size() + 1); e = b + q.below(o->size() - b + 1);
            sig = schema_sig(*o->arr);
        }
        void op() override
        {
            switch (how)
            {
                case 0: x.emplace(*o->arr); break;
                case 1: x.emplace(o->arr->slice(b, e)); break;
                case 2: x.emplace(o->arr->slice_view(b, e)); break;
                case 3: seen = sr::read(*o->arr); break;
                default: { sp::array moved(std::move(*o->arr)); *o->arr = std::move(moved); }
            }
        }
        void after(bool done) override
        {
            usable(*o->arr, {&o->c}, "source");
            vt::check(schema_sig(*o->arr) == sig, "source-schema");
            if (!done) return;
            if (how == 0) usable(*x, {&o->c}, "copied");
            if (how == 1 || how == 2) { const Col part(o->c.begin() + long(b), o->c.begin() + long(e)); usable(*x, {&part}, "slice"); }
            if (how == 3) vt::check(*seen == o->c, "read");
        }
    };
    struct Assign : fi::Attempt
    {
        P o, d; bool copy;
        explicit Assign(Rng& q) : o(small_obj(q)), d(q.chance(1, 4) ? obtain(o->t, gen_small(o->t, q), q, How::BUILT) : small_obj(q)), copy(q.chance(3, 4)) {}
        void op() override { if (copy) *d->arr = *o->arr; else { sp::array tmp(*o->arr); *d->arr = std::move(tmp); } }
        void after(bool done) override
        {
            usable(*o->arr, {&o->c}, "source");
            if (done) usable(*d->arr, {&o->c}, "assigned"); else usable(*d->arr, {&o->c, &d->c}, "destination");
        }
    };
    struct Extract : fi::Attempt
    {
        TD t; Col c; std::optional<sp::array> x; ArrowArray a{}; ArrowSchema s{}; std::shared_ptr<Source> src; bool parts;
        explicit Extract(Rng& q) : t(gen_t(q)), c(gen_small(t, q)), parts(q.chance(1, 2))
        {
            auto o = obtain(t, c, q, q.pick({How::BUILT, How::OWNED, How::REIMPORT}));
            x.emplace(std::move(*o->arr));
            if (!o->owned.empty()) src = o->owned[0];
        }
        void op() override
        {
            if (parts) { a = sp::extract_arrow_array(std::move(*x)); s = sp::extract_arrow_schema(std::move(*x)); }
            else { auto [y, z] = sp::extract_arrow_structures(std::move(*x)); a = y; s = z; }
        }
        void after(bool done) override
        {
            x.reset();
            if (done)
            {
                Reader rd; rd.o = strict();
                auto got = rd.read(&a, &s, nullptr);
                if (!got) vt::violation("extracted", rd.errors()); else vt::check(*got == c, "extracted-contents");
            }
            if (a.release) a.release(&a);
            if (s.release) s.release(&s);
            if (src && src->foreign) { vt::check(src->tr.all_released(), "not-released"); for (auto& e : src->tr.errors) vt::violation("released-twice", e); }
        }
    };
    struct Low : fi::Attempt   // the C structures themselves
    {
        P o; ArrowArray a{}; ArrowSchema s{}; int how;
        explicit Low(Rng& q) : o(small_obj(q)), how(int(q.below(2))) {}
        void op() override
        {
            const ArrowArray* x = sp::get_arrow_array(*o->arr);
            const ArrowSchema* y = sp::get_arrow_schema(*o->arr);
            if (how) s = sp::copy_schema(*y);
            a = sp::copy_array(*x, *y);
            if (!how) s = sp::copy_schema(*y);
        }
        void after(bool done) override
        {
            usable(*o->arr, {&o->c}, "source");
            if (done)
            {
                Reader rd; rd.o = strict();
                auto got = rd.read(&a, &s, nullptr);
                if (!got) vt::violation("copied-structures", rd.errors()); else vt::check(*got == o->c, "copied-structures-contents");
            }
            if (a.release) a.release(&a);
            if (s.release) s.release(&s);
        }
    };
    // record batches
    struct Batch : fi::Attempt
    {
        std::vector<P> src; std::vector<std::string> names, names2; std::vector<sp::array> given; std::vector<P> src2;
        std::optional<sp::record_batch> b, d; int how;
        void fill(Rng& q, std::vector<P>& v, std::vector<std::string>& n, const char* pre)
        {
            const size_t k = q.below(4), rows = q.below(10);
            for (size_t i = 0; i < k; ++i)
            {
                TD t = gen_t(q, int(q.below(2)));
                v.push_back(obtain(t, gen_col(t, rows, q, 30), q, gen_how(q)));
                n.push_back(pre + std::string(q.below(30), 'x') + std::to_string(i));
            }
        }
        Batch(Rng& q, int h) : how(h)
        {
            fill(q, src, names, "a");
            for (auto& o : src) given.push_back(*o->arr);
            if (how) b.emplace(names, given);
            if (how == 2) { fill(q, src2, names2, "b"); std::vector<sp::array> g; for (auto& o : src2) g.push_back(*o->arr); d.emplace(names2, g); }
        }
        static bool is(const sp::record_batch& b, const std::vector<std::string>& n, const std::vector<P>& v)
        {
            if (b.nb_columns() != n.size()) return false;
            for (size_t i = 0; i < n.size(); ++i)
                if (b.get_column_name(i) != n[i] || !b.contains_column(n[i]) || &b.get_column(n[i]) != &b.get_column(i) || !(sr::read(b.get_column(i)) == v[i]->c)) return false;
            return b.nb_rows() == (n.empty() ? 0 : v[0]->size());
        }
        void op() override
        {
            switch (how)
            {
                case 0: b.emplace(names, given); break;
                case 1: d.emplace(*b); break;
                case 2: *d = *b; break;
                case 3: { d.emplace(std::move(*b)); b.emplace(std::move(*d)); d.reset(); break; }
                default: b.emplace(std::move(names), std::move(given));
            }
        }
        void after(bool done) override
        {
            for (size_t i = 0; i < given.size() && how != 4; ++i) usable(given[i], {&src[i]->c}, "given");
            if (how == 0) { if (done) vt::check(is(*b, names, src), "batch"); }
            else if (how != 4) vt::check(is(*b, names, src), "source-batch");
            if (how == 1 && done) vt::check(is(*d, names, src), "copied-batch");
            if (how == 2)
            {
                vt::check(is(*d, names, src) || (!done && is(*d, names2, src2)), done ? "assigned-batch" : "destination-batch");
                for (size_t i = 0; i < d->nb_columns(); ++i) { d->contains_column(d->get_column_name(i)); usable(const_cast<sp::array&>(d->get_column(i)), {}, "destination-column"); }
                for (auto& n : names2) if (d->contains_column(n)) usable(const_cast<sp::array&>(d->get_column(n)), {}, "destination-column");
            }
            vt::cover("batches checked");
        }
    };
    // edits of a proxy
    struct Edit : fi::Attempt
    {
        std::optional<sp::arrow_proxy> p, q2; std::vector<std::shared_ptr<Src>> src; int how; std::string s; size_t n = 0, m = 0; std::string bytes; bool flag; std::vector<bool> bits;
        std::string before;
        Edit(Rng& q, int h) : how(h), flag(q.chance(1, 2))
        {
            TD t = gen_t(q, how >= 12 && how <= 16 ? 0 : 1 + int(q.below(2)), how >= 12 && how <= 16 ? std::optional<K>(K::I32) : std::nullopt);
            Col c = gen_small(t, q);
            auto [a, b] = sp::extract_arrow_structures(sb::build(t, c, q));
            p.emplace(std::move(a), std::move(b));
            s = std::string(q.below(60), 'n');
            const size_t kids = q.pick({0, 1, 2, 3});
            if ((how >= 5 && how <= 8) || how == 10) for (size_t i = 0; i < (how == 7 || how == 8 || how == 10 ? 1 : kids); ++i) src.push_back(new_src(q));
            n = p->n_children() ? q.below(p->n_children()) : 0;
            if (how == 7 || how == 8) if (p->n_children() == 0) how -= 2;
            if (how == 16 && p->length() == 0) how = 15;
            if (how == 10 && p->dictionary() == nullptr && flag) {}
            if (how == 3 || how == 4) { if (p->n_buffers() == 0) how = 1; else { n = q.below(p->n_buffers()); const auto v = p->buffers()[n]; bytes.assign(reinterpret_cast<const char*>(v.data()), v.data() ? v.size() : 0); bytes += noise(q, 50); } }
            if (how >= 12 && how <= 16)
            {
                if (p->buffers()[0].data() == nullptr) { std::string bm((p->length() + 7) / 8 + 1, '\xff'); p->set_buffer(0, to_buffer(bm)); }
                n = q.below(p->length() + 1); m = q.below(80);
                for (size_t i = 0; i < m; ++i) bits.push_back(q.chance(1, 2));
            }
        }
        void op() override
        {
            switch (how)
            {
                case 0: p->set_name(s); break;
                case 1: p->set_metadata(s); break;
                case 2: p->set_flags({sp::ArrowFlag::NULLABLE}); break;
                case 3: p->set_buffer(n, to_buffer(bytes)); break;
                case 4: p->set_buffer(n, sp::buffer_view<uint8_t>(reinterpret_cast<uint8_t*>(bytes.data()), bytes.size())); break;
                case 5: { std::vector<sp::arrow_array_and_schema_pointers> l; for (auto& x : src) l.push_back({&x->a, &x->s}); for (auto& x : src) x->lent_a = true; p->add_children(l); break; }
                case 6: for (auto& x : src) p->add_child(std::move(x->a), std::move(x->s)); break;
                case 7: src[0]->lent_a = true; p->set_child(n, &src[0]->a, &src[0]->s); break;
                case 8: p->set_child(n, std::move(src[0]->a), std::move(src[0]->s)); break;
                case 9: p->pop_children(p->n_children() ? 1 : 0); break;
                case 10: p->set_dictionary(&src[0]->a, &src[0]->s); break;
                case 11: q2.emplace(flag ? *p : p->view()); break;
                case 12: p->resize_bitmap(p->length() + m, flag); break;
                case 13: p->insert_bitmap(n, flag, m); break;
                case 14: p->insert_bitmap(n, bits); break;
                case 15: p->push_back_bitmap(flag); break;
                case 16: p->erase_bitmap(0, std::min<size_t>(p->length(), 1)); break;
                case 17: q2.emplace(*p); break;
                case 18: q2.emplace(p->slice(0, p->length())); break;
                case 19: q2.emplace(p->slice_view(0, p->length())); break;
                case 20: p->update_buffers(); break;
                case 21: p->set_length(p->length() / 2); break;
                default: { sp::arrow_proxy x(*p); *p = x; }
            }
        }
        void after(bool done) override
        {
            g_trace = done ? "edit completed" : "failed edit";
            // views, structures and counts describe one state
            auto m1 = capture(*p);
            m1->fresh = how != 12 && how != 13 && how != 14 && how != 15;
            verify(*p, *m1);
            if (q2) { auto m2 = capture(*q2); verify(*q2, *m2, "result"); }
            if (done && how == 0) vt::check(p->name() == s, "name");
            if (done && how == 1) vt::check(p->metadata() == s, "metadata");
            // it can still be copied, edited and released
            { sp::arrow_proxy c(*p); p->set_name("again"); p->update_buffers(); auto m3 = capture(*p); verify(*p, *m3, "again"); }
            m1.reset();
            q2.reset();
            p.reset();
            for (auto& x : src)
            {
                if (x->lent_a) vt::check(x->a.release && x->s.release, "lent-structures-released");
                if (done && !x->lent_a) vt::check(!x->a.release && !x->s.release, "given-structures-not-taken");
                if (x->a.release) x->a.release(&x->a);
                if (x->s.release) x->s.release(&x->s);
                if (x->foreign) { vt::check(x->tr.all_released(), "not-released"); for (auto& e : x->tr.errors) vt::violation("released-twice", e); }
            }
            vt::cover("edits checked");
        }
    };
    template <class A, class... X> void go(vt::Case& cs, const std::string& n, X... x) { fi::sweep(cs, n, [&](Rng& r) { return std::make_unique<A>(r, x...); }); }
    void arrays(vt::Case& cs)
    {
        static const char* d[] = {"copy", "slice", "slice_view", "read", "move"};
        static const char* b[] = {"batch", "batch copy", "batch assignment", "batch move", "batch from moved columns"};
        const int h = int(cs.rng.below(5));
        switch (cs.rng.below(10))
        {
            case 0: case 1: return go<Build>(cs, "build");
            case 2: case 3: return go<Import>(cs, "import");
            case 4: case 5: return go<Derive>(cs, d[h], h);
            case 6: return go<Assign>(cs, "assignment");
            case 7: return go<Extract>(cs, "extract");
            case 8: return go<Low>(cs, "copy of structures");
            default: return go<Batch>(cs, b[h], h);
        }
    }
    void edits(vt::Case& cs)
    {
        static const char* e[] = {"set_name", "set_metadata", "set_flags", "set_buffer", "set_buffer view", "add lent children", "add given children", "set lent child", "set given child", "pop_children", "set_dictionary",
                                  "proxy copy or view", "resize_bitmap", "insert_bitmap", "insert_bitmap range", "push_back_bitmap", "erase_bitmap", "proxy copy", "proxy slice", "proxy slice_view", "update_buffers", "set_length", "proxy assignment"};
        const int h = int(cs.rng.below(23));
        go<Edit>(cs, e[h], h);
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "arrays") return cs.rng.chance(4, 5) ? arrays(cs) : builders(cs);
        if (cs.mode == "edits") return edits(cs);
        if (cs.mode == "containers") return containers(cs);
        switch (cs.rng.below(6)) { case 0: return mutate1(cs); case 1: return mutate2(cs); case 2: return mutate3(cs); case 3: return copies1(cs); case 4: return copies2(cs); default: return copies3(cs); }
    });
}
#elif VT_PART <= 3
// mutation of typed arrays
template <class A, class V, K KIND> struct Mut : fi::Attempt
{
    using N = typename A::value_type;
    mt::Model<V> m, extra, to;
    std::vector<std::shared_ptr<Source>> keep;
    std::string hist;
    A a; std::optional<A> d; std::vector<N> nv; int how; size_t p, q, cnt, i, j;
    static N nul(const std::optional<V>& o) { return o ? N(V(*o), true) : N(V{}, false); }
    static V val(Rng& r) { TD t; t.k = KIND; t.flags = 2; return mt::from_atom<V>(gen_value(t, r, 0)); }
    static A start(Rng& r, mt::Model<V>& m, std::vector<std::shared_ptr<Source>>& k, std::string& h) { return mt::Machine<A, V, KIND>::start(r, m, k, h); }
    Mut(Rng& r, int h) : a(start(r, m, keep, hist)), how(h)
    {
        const size_t n = m.size();
        p = r.below(n + 1); q = p + r.below(n - p + 1); cnt = r.pick({0, 1, 2, 9, 40}); i = n ? r.below(n) : 0; j = n ? r.below(n) : 0;
        for (size_t x = 0; x < std::max<size_t>(cnt, 1); ++x) { if (r.chance(1, 4)) extra.emplace_back(); else extra.emplace_back(val(r)); nv.push_back(nul(extra.back())); }
        if (n == 0 && (how == 5 || how == 7 || how == 8 || how == 9)) how = 0;
        if (how == 10 || how == 11) { mt::Model<V> om; std::string oh; d.emplace(start(r, om, keep, oh)); to = om; }
        else to = m;
        auto& e0 = extra[0];
        auto ins = [&](size_t at, const mt::Model<V>& v) { to.insert(to.begin() + long(at), v.begin(), v.end()); };
        switch (how)
        {
            case 0: to.push_back(e0); break;
            case 1: ins(p, {e0}); break;
            case 2: ins(p, mt::Model<V>(cnt, e0)); break;
            case 3: case 4: ins(p, extra); break;
            case 5: to.pop_back(); break;
            case 6: to.erase(to.begin() + long(p), to.begin() + long(q)); break;
            case 7: to[i] = e0; break;
            case 8: if (m[j]) to[i] = *m[j]; else to[i].reset(); break;
            case 9: to.erase(to.begin() + long(i)); break;
            case 10: case 11: to = m; break;
            default: to.resize(p + cnt, e0);
        }
    }
    void op() override
    {
        auto at = [&](size_t x) { return std::as_const(a).cbegin() + std::ptrdiff_t(x); };
        switch (how)
        {
            case 0: a.push_back(nv[0]); break;
            case 1: a.insert(at(p), nv[0]); break;
            case 2: a.insert(at(p), nv[0], cnt); break;
            case 3: a.insert(at(p), nv.begin(), nv.end()); break;
            case 4: a.insert(at(p), nv); break;
            case 5: a.pop_back(); break;
            case 6: a.erase(at(p), at(q)); break;
            case 7: a[i] = nv[0]; break;
            case 8: a[i] = std::as_const(a)[j]; break;
            case 9: a.erase(at(i)); break;
            case 10: *d = a; break;
            case 11: { A t(a); *d = std::move(t); break; }
            default: a.resize(p + cnt, nv[0]);
        }
    }
    static bool same(const A& x, const mt::Model<V>& w)
    {
        if (x.size() != w.size()) return false;
        for (size_t k = 0; k < w.size(); ++k) if (!mt::Machine<A, V, KIND>::eq(w[k], x[k])) return false;
        return true;
    }
    // readable, and its structures describe what is read
    void sound(A& x, const char* what)
    {
        Col c = sr::read_index(std::as_const(x));
        const Col c2 = sr::read_iter(std::as_const(x));
        vt::check(c == c2, std::string(what) + "-reading");
        auto& px = sp::detail::array_access::get_arrow_proxy(x);
        ArrowArray raw = std::as_const(px).array();
        if (how == 7 || how == 8) raw.null_count = -1;   // the declared count is a known finding
        Reader rd; rd.o = strict();
        auto got = rd.read(&raw, &std::as_const(px).schema(), nullptr);
        if (!got) vt::violation(std::string(what) + "-structures", rd.errors() + " | " + hist);
        else if (!(*got == c)) vt::violation(std::string(what) + "-structures-differ", col_str(*got) + " read " + col_str(c));
        auto node = capture(px);
        node->nulls_known = false;
        g_trace = hist;
        verify(px, *node, what);
        vt::cover("arrays checked");
    }
    void after(bool done) override
    {
        const bool copy = how == 10 || how == 11;
        if (copy)
        {
            vt::check(same(a, m), "source-changed");
            sound(a, "source");
            if (done) vt::check(same(*d, m), "assigned"); 
            sound(*d, "destination");
            return;
        }
        if (done) vt::check(same(a, to), "result", hist);
        else vt::check(a.size() == m.size() || a.size() == to.size(), "size", vt::fmt("%zu from %zu to %zu", size_t(a.size()), m.size(), to.size()));
        sound(a, "array");
        // and still works
        if (how != 7 && how != 8)
        {
            vt::label(std::string(vt::ctx().sh->label) + "|next");
            const size_t n = a.size();
            a.push_back(nv[0]);
            a.insert(std::as_const(a).cbegin(), nv[0]);
            vt::check(a.size() == n + 2, "next-size");
            if (!vt::check(mt::Machine<A, V, KIND>::eq(extra[0], std::as_const(a)[n + 1]) && mt::Machine<A, V, KIND>::eq(extra[0], std::as_const(a)[0]), "next-elements", hist)) return;
            sound(a, "next");
            a.erase(std::as_const(a).cbegin(), std::as_const(a).cend());
            vt::check(a.size() == 0, "next-erase");
        }
    }
};
template <class A, class V, K KIND> void mut(vt::Case& cs)
{
    static const char* n[] = {"push_back", "insert value", "insert count", "insert iterators", "insert range", "pop_back", "erase range", "assign element", "assign another element", "erase", "copy-assign", "copy and move-assign", "resize"};
    const int h = int(cs.rng.below(13));
    fi::sweep(cs, std::string(n[h]) + "|" + kname(KIND), [&](Rng& r) { return std::make_unique<Mut<A, V, KIND>>(r, h); });
}
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(mutate, VT_PART)(vt::Case& cs)
{
#if VT_PART == 1
    return mut<sp::string_array, std::string, K::STR>(cs);
#elif VT_PART == 2
    return cs.rng.chance(1, 2) ? mut<sp::primitive_array<int32_t>, int32_t, K::I32>(cs) : mut<sp::primitive_array<bool>, bool, K::BOOL>(cs);
#else
    return cs.rng.chance(1, 2) ? mut<sp::primitive_array<double>, double, K::F64>(cs) : mut<sp::primitive_array<uint8_t>, uint8_t, K::U8>(cs);
#endif
}
#elif VT_PART <= 6
// copies and assignments of typed arrays
template <class A> struct Copy : fi::Attempt
{
    const A& a; const A* other; Col c, co; int how; std::optional<A> x;
    Copy(const A& aa, const Col& cc, const A& o, const Col& oc, int h) : a(aa), other(&o), c(cc), co(oc), how(h) { if (how == 1) x.emplace(*other); if (how == 3) x.emplace(a); }
    void op() override
    {
        switch (how)
        {
            case 0: x.emplace(a); break;
            case 1: *x = a; break;
            case 2: if constexpr (requires { a.slice(0, 0); }) x.emplace(a.slice(0, a.size())); else x.emplace(a); break;
            default: { A t(std::move(*x)); x.emplace(std::move(t)); }
        }
    }
    void after(bool done) override
    {
        vt::check(sr::read_index(a) == c, "source");
        if (x && (done || how != 3))   // how 3: moved from otherwise
        {
            const Col got = sr::read_index(std::as_const(*x));
            if (done) vt::check(got == c, "copy", col_str(got) + " want " + col_str(c));
            else vt::check(got == c || got == co, "destination", col_str(got));
            auto& px = sp::detail::array_access::get_arrow_proxy(*x);
            Reader rd; rd.o = strict();
            auto dec = rd.read(&std::as_const(px).array(), &std::as_const(px).schema(), nullptr);
            if (!dec) vt::violation("structures", rd.errors()); else vt::check(*dec == got, "structures-differ");
        }
        vt::cover("typed arrays checked");
    }
};
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
void CAT(copies, 1)(vt::Case&);
static void copies_(vt::Case& cs)
{
    P o = small_obj(cs.rng), o2;
    while (group(o->t) != VT_PART - 3) o = small_obj(cs.rng);
    o2 = obtain(o->t, gen_small(o->t, cs.rng), cs.rng, How::BUILT);
    static const char* n[] = {"typed copy", "typed copy-assign", "typed slice", "typed move"};
    const int h = int(cs.rng.below(4));
    visit_group<VT_PART - 3>(*o->arr, [&](const auto& a)
    {
        using A = std::decay_t<decltype(a)>;
        visit_group<VT_PART - 3>(*o2->arr, [&](const auto& b)
        {
            if constexpr (std::is_same_v<A, std::decay_t<decltype(b)>>)
                if constexpr (std::is_copy_constructible_v<A>)
                    fi::sweep(cs, std::string(n[h]) + "|" + kname(o->t.k), [&](Rng&) { return std::make_unique<Copy<A>>(a, o->c, b, o2->c, h); });
        });
    });
}
#if VT_PART == 4
void copies1(vt::Case& cs) { copies_(cs); }
#elif VT_PART == 5
void copies2(vt::Case& cs) { copies_(cs); }
#else
void copies3(vt::Case& cs) { copies_(cs); }
#endif
#elif VT_PART == 7
// buffers, bitsets, value pointers
namespace
{
    // every copy and every assignment allocates
    struct Heavy
    {
        int* p;
        explicit Heavy(int v = 0) : p(new int(v)) {}
        Heavy(const Heavy& o) : p(new int(*o.p)) {}
        Heavy& operator=(const Heavy& o) { int* q = new int(*o.p); delete p; p = q; return *this; }
        ~Heavy() { delete p; p = nullptr; }
        bool operator==(const Heavy& o) const { return *p == *o.p; }
    };
    template <class T> T make(Rng& r) { if constexpr (std::is_same_v<T, Heavy>) return Heavy(int(r.below(1000))); else if constexpr (std::is_same_v<T, std::string>) return std::string(r.below(60), char('a' + r.below(26))); else return T(r.next()); }
    template <class T> struct Buf : fi::Attempt
    {
        std::vector<T> v, w, to; sp::buffer<T> b; std::optional<sp::buffer<T>> d; int how; size_t p, q, n; T val;
        Buf(Rng& r, int h) : how(h)
        {
            for (size_t i = r.below(20); i > 0; --i) v.push_back(make<T>(r));
            for (size_t i = r.below(20); i > 0; --i) w.push_back(make<T>(r));
            b = sp::buffer<T>(v.begin(), v.end());
            if (r.chance(1, 2)) b.reserve(b.size() + r.below(10));
            if (r.chance(1, 3)) b.shrink_to_fit();
            p = r.below(v.size() + 1); q = p + r.below(v.size() - p + 1); n = r.below(40); val = make<T>(r);
            if (how == 1 || how == 2) { d.emplace(w.begin(), w.end()); if (r.chance(1, 2)) d->reserve(d->size() + r.below(30)); }
            to = v;
            auto at = [&](size_t i) { return to.begin() + long(i); };
            switch (how)
            {
                case 3: to.push_back(val); break;
                case 4: to.insert(at(p), val); break;
                case 5: to.insert(at(p), n, val); break;
                case 6: to.insert(at(p), w.begin(), w.end()); break;
                case 7: to.erase(at(p), at(q)); break;
                case 8: to.resize(n); break;
                case 9: to.resize(n, val); break;
                case 12: to = w; break;
                case 13: to.assign(n, val); break;
                default: break;
            }
        }
        void op() override
        {
            auto at = [&](size_t i) { return b.cbegin() + std::ptrdiff_t(i); };
            switch (how)
            {
                case 0: d.emplace(b); break;
                case 1: *d = b; break;
                case 2: { sp::buffer<T> t(b); *d = std::move(t); break; }
                case 3: b.push_back(val); break;
                case 4: b.insert(at(p), val); break;
                case 5: b.insert(at(p), n, val); break;
                case 6: b.insert(at(p), w.begin(), w.end()); break;
                case 7: b.erase(at(p), at(q)); break;
                case 8: b.resize(n); break;
                case 9: b.resize(n, val); break;
                case 10: b.reserve(n * 2); break;
                case 11: b.shrink_to_fit(); break;
                case 12: b = sp::buffer<T>(w.begin(), w.end()); break;
                case 13: b = sp::buffer<T>(n, val); break;
                default: d.emplace(n, val); 
            }
        }
        void after(bool done) override
        {
            auto same = [](const sp::buffer<T>& x, const std::vector<T>& y) { return x.size() == y.size() && std::equal(x.begin(), x.end(), y.begin()); };
            if (how <= 2) { vt::check(same(b, v), "source"); if (done) vt::check(same(*d, v), "copy"); else if (how && d) vt::check(same(*d, w) || same(*d, v) || d->size() <= std::max(v.size(), w.size()), "destination"); }
            else if (done && how != 14) vt::check(same(b, to), "result");
            else if (how == 3) vt::check(same(b, v), "push_back-not-undone");
            vt::check(b.size() <= b.capacity(), "capacity");
            uint64_t sum = 0;
            if (d && how <= 2) for (auto& x : *d) sum += x == val;
            for (auto& x : b) { if constexpr (std::is_same_v<T, Heavy>) sum += unsigned(*x.p); else if constexpr (std::is_same_v<T, std::string>) sum += x.size() + (x.empty() ? 0 : uint8_t(x.back())); else sum += uint64_t(x); }
            b.push_back(val);
            vt::check(b.back() == val && sum + 1 != 0, "next");
            vt::cover("buffers checked");
        }
    };
    struct Bits : fi::Attempt
    {
        std::vector<bool> v, w, to; sp::dynamic_bitset<uint8_t> b; std::optional<sp::dynamic_bitset<uint8_t>> d; int how; size_t p, q, n; bool val;
        static sp::dynamic_bitset<uint8_t> of(const std::vector<bool>& v) { sp::dynamic_bitset<uint8_t> x(v.size(), true); for (size_t i = 0; i < v.size(); ++i) x.set(i, v[i]); return x; }
        Bits(Rng& r, int h) : how(h)
        {
            for (size_t i = r.below(40); i > 0; --i) v.push_back(r.chance(1, 2));
            for (size_t i = r.below(40); i > 0; --i) w.push_back(r.chance(1, 2));
            b = of(v);
            p = r.below(v.size() + 1); q = p + r.below(v.size() - p + 1); n = r.below(300); val = r.chance(1, 2);
            if (how == 1) d.emplace(of(w));
            to = v;
            auto at = [&](size_t i) { return to.begin() + long(i); };
            switch (how)
            {
                case 2: to.push_back(val); break;
                case 3: to.insert(at(p), val); break;
                case 4: to.insert(at(p), n, val); break;
                case 5: to.insert(at(p), w.begin(), w.end()); break;
                case 6: to.erase(at(p), at(q)); break;
                case 7: to.resize(n, val); break;
                default: break;
            }
        }
        void op() override
        {
            auto at = [&](size_t i) { return std::as_const(b).cbegin() + std::ptrdiff_t(i); };
            switch (how)
            {
                case 0: d.emplace(b); break;
                case 1: *d = b; break;
                case 2: b.push_back(val); break;
                case 3: b.insert(at(p), val); break;
                case 4: b.insert(at(p), n, val); break;
                case 5: b.insert(at(p), w.begin(), w.end()); break;
                case 6: b.erase(at(p), at(q)); break;
                case 7: b.resize(n, val); break;
                default: d.emplace(n, val);
            }
        }
        static bool sound(const sp::dynamic_bitset<uint8_t>& x)
        {
            size_t nulls = 0, k = 0;
            for (bool z : x) { nulls += !z; ++k; }
            bool tail = true;   // bits past the end are zero or hidden from the count
            return k == x.size() && x.null_count() == nulls && tail && x.block_count() == (x.size() + 7) / 8;
        }
        void after(bool done) override
        {
            auto same = [](const sp::dynamic_bitset<uint8_t>& x, const std::vector<bool>& y) { return x.size() == y.size() && std::equal(y.begin(), y.end(), x.begin()); };
            if (how <= 1) { vt::check(same(b, v), "source"); if (done) vt::check(same(*d, v), "copy"); }
            else if (done && how <= 7) vt::check(same(b, to), "result");
            vt::check(sound(b), "bitset", vt::fmt("size %zu null count %zu blocks %zu", b.size(), b.null_count(), b.block_count()));
            if (d) vt::check(sound(*d), "destination", vt::fmt("size %zu null count %zu blocks %zu", d->size(), d->null_count(), d->block_count()));
            const size_t s = b.size();
            b.push_back(true);
            vt::check(b.size() == s + 1 && b.test(s) && sound(b), "next");
            vt::cover("bitsets checked");
        }
    };
    struct Misc : fi::Attempt
    {
        std::vector<std::string> words; std::string s; int how; sp::value_ptr<std::string> x, y; std::optional<sp::value_ptr<std::string>> z; std::optional<sp::u8_buffer<uint32_t>> u; std::vector<uint32_t> nums; std::optional<sp::any_allocator<int>> al, bl;
        Misc(Rng& r, int h) : how(h)
        {
            for (size_t i = r.below(6); i > 0; --i) words.push_back(std::string(r.below(40), 'w'));
            for (size_t i = r.below(30); i > 0; --i) nums.push_back(uint32_t(r.next()));
            s = std::string(40, 's');
            if (how <= 2) x = sp::value_ptr<std::string>(s);
            if (how == 1) y = sp::value_ptr<std::string>(std::string(50, 't'));
            if (how >= 4) al.emplace();
        }
        void op() override
        {
            switch (how)
            {
                case 0: z.emplace(x); break;
                case 1: y = x; break;
                case 2: x = sp::value_ptr<std::string>(s); break;
                case 3: u.emplace(nums); break;
                case 4: { bl.emplace(*al); int* q = bl->allocate(10); bl->deallocate(q, 10); break; }
                default: { std::pmr::polymorphic_allocator<int> pa; bl.emplace(pa); sp::any_allocator<int> c(*bl); int* q = c.allocate(3); bl->deallocate(q, 3); }
            }
        }
        void after(bool done) override
        {
            if (how == 0) vt::check(*x == s && (!done || **z == s), "value_ptr-copy");
            if (how == 1) { vt::check(*x == s, "value_ptr-source"); if (done) vt::check(*y == s, "value_ptr-assigned"); else vt::check(!y || y->size() == 50 || y->size() == 40, "value_ptr-destination"); }
            if (how == 3 && done) vt::check(u->size() == nums.size() && std::equal(nums.begin(), nums.end(), u->begin()), "u8_buffer");
            vt::cover("values checked");
        }
    };
}
void containers(vt::Case& cs)
{
    static const char* b[] = {"copy", "copy-assign", "move-assign", "push_back", "insert", "insert count", "insert range", "erase", "resize", "resize value", "reserve", "shrink_to_fit", "assign range", "assign count", "construct count"};
    static const char* z[] = {"copy", "copy-assign", "push_back", "insert", "insert count", "insert range", "erase", "resize", "construct count"};
    static const char* m[] = {"value_ptr copy", "value_ptr copy-assign", "value_ptr assign", "u8_buffer", "any_allocator copy", "any_allocator of a resource"};
    int h;
    switch (cs.rng.below(5))
    {
        case 4: h = int(cs.rng.below(15)); return fi::sweep(cs, std::string("buffer ") + b[h] + "|elements that throw", [&](Rng& r) { return std::make_unique<Buf<Heavy>>(r, h); });
        case 0: h = int(cs.rng.below(15)); return fi::sweep(cs, std::string("buffer ") + b[h] + "|integers", [&](Rng& r) { return std::make_unique<Buf<int64_t>>(r, h); });
        case 1: h = int(cs.rng.below(15)); return fi::sweep(cs, std::string("buffer ") + b[h] + "|strings", [&](Rng& r) { return std::make_unique<Buf<std::string>>(r, h); });
        case 2: h = int(cs.rng.below(9)); return fi::sweep(cs, std::string("bitset ") + z[h], [&](Rng& r) { return std::make_unique<Bits>(r, h); });
        default: h = int(cs.rng.below(6)); return fi::sweep(cs, m[h], [&](Rng& r) { return std::make_unique<Misc>(r, h); });
    }
}
#else
// the builder
namespace
{
    template <class F> struct Built : fi::Attempt
    {
        F f; std::optional<sp::array> x; std::string want;
        Built(F g) : f(g) {}
        void op() override { x.emplace(sp::array(f())); }
        void after(bool done) override { if (done) { usable(*x, {}, "built"); } }
    };
    template <class F> void bld(vt::Case& cs, const char* n, F f) { fi::sweep(cs, std::string("builder|") + n, [&](Rng&) { return std::make_unique<Built<F>>(f); }); }
}
void builders(vt::Case& cs)
{
    Rng& r = cs.rng;
    const size_t n = 1 + r.below(6);
    std::vector<int> ints; std::vector<std::string> words; std::vector<sp::nullable<int>> nints; std::vector<std::vector<int>> lists; std::vector<std::tuple<int, std::string>> tuples; std::vector<std::variant<int, double>> vars; std::vector<std::array<int, 2>> arrs;
    std::vector<std::vector<std::vector<std::string>>> deep; std::vector<sp::nullable<std::vector<sp::nullable<int>>>> nl;
    auto word = [&] { return std::string(r.below(30), char('a' + r.below(26))); };
    for (size_t i = 0; i < n; ++i)
    {
        ints.push_back(int(r.below(5))); words.push_back(word());
        nints.push_back(r.chance(1, 3) ? sp::nullable<int>(sp::nullval) : sp::nullable<int>(int(r.below(9))));
        lists.emplace_back(r.below(4), int(r.below(9)));
        tuples.emplace_back(int(r.below(9)), word());
        if (r.chance(1, 2)) vars.emplace_back(int(1)); else vars.emplace_back(2.5);
        arrs.push_back({int(i), 7});
        deep.emplace_back(r.below(3), std::vector<std::string>(r.below(3), word()));
        nl.push_back(r.chance(1, 3) ? sp::nullable<std::vector<sp::nullable<int>>>(sp::nullval) : sp::nullable<std::vector<sp::nullable<int>>>(std::vector<sp::nullable<int>>(r.below(3), sp::nullable<int>(4))));
    }
    switch (r.below(11))
    {
        case 0: return bld(cs, "integers", [&] { return sp::build(ints); });
        case 1: return bld(cs, "strings", [&] { return sp::build(words); });
        case 2: return bld(cs, "nullables", [&] { return sp::build(nints); });
        case 3: return bld(cs, "lists", [&] { return sp::build(lists); });
        case 4: return bld(cs, "structs", [&] { return sp::build(tuples); });
        case 5: return bld(cs, "variants", [&] { return sp::build(vars); });
        case 6: return bld(cs, "fixed lists", [&] { return sp::build(arrs); });
        case 7: return bld(cs, "lists of lists", [&] { return sp::build(deep); });
        case 8: return bld(cs, "dictionary", [&] { return sp::build(sp::dict_encode<std::vector<std::string>>(std::vector<std::string>(words))); });
        case 9: return bld(cs, "run-end", [&] { return sp::build(sp::run_end_encode<std::vector<int>>(std::vector<int>(ints))); });
        default: return bld(cs, "nullable lists", [&] { return sp::build(nl); });
    }
}
#endif
