// A population of arrays, proxies' views and record batches under random lifecycle operations, with their expected
// contents and the release accounting of every structure behind them.
#pragma once
#include "scen.hpp"

namespace sc
{
    struct Batch { std::optional<sp::record_batch> rb; std::vector<std::string> names; std::vector<P> cols; };

    struct World
    {
        Rng& r;
        int depth;
        size_t max_objs = 6;
        fp::ProdOpts po;
        bool shallow_ok = true;
        std::vector<P> objs;
        std::vector<Batch> batches;
        std::vector<std::pair<std::shared_ptr<Source>, bool>> sources;  // every source ever made
        uint64_t hist = 14695981039346656037ull;
        std::string log;

        World(Rng& r, int depth = -1, fp::ProdOpts po = {}) : r(r), depth(depth), po(po) { log.reserve(1200); }

        void note(const char* op, const Obj* o = nullptr)
        {
            vt::label(std::string(op) + (o ? std::string("|") + kname(o->t.k) : std::string()));
            vt::cover(std::string("op:") + op);
            vt::LedgerPause p;
            hist = vt::fnv(std::string(op) + (o ? o->how + td_str(o->t) : ""), hist);
            const std::string e = std::string(op) + (o ? "(" + o->how + " " + td_str(o->t) + ")" : "") + "; ";
            if (log.size() < 400 && e.size() < 600) log += e;   // within what was reserved: the ledger is paused here
        }
        bool busy(const P& o) const { return o.use_count() > 1; }
        P* pick_free()
        {
            std::vector<size_t> f;
            for (size_t i = 0; i < objs.size(); ++i) if (!busy(objs[i])) f.push_back(i);
            return f.empty() ? nullptr : &objs[f[r.below(f.size())]];
        }
        P& any() { return objs[r.below(objs.size())]; }

        // releases due when an object's own data goes away
        void expect_released(const std::vector<std::shared_ptr<Source>>& own, const char* when)
        {
            for (auto& s : own)
            {
                const bool a = s->tr.array_releases == s->tr.arrays, sc = s->lent_s || s->tr.schema_releases == s->tr.schemas;
                vt::check(a && sc, std::string("not-released-") + when,
                          vt::fmt("%d/%d arrays %d/%d schemas released", s->tr.array_releases, s->tr.arrays, s->tr.schema_releases, s->tr.schemas));
            }
        }
        void destroy(size_t i)
        {
            P o = objs[i];
            objs.erase(objs.begin() + long(i));
            auto own = o->owned;
            auto parent = o->parent;
            o.reset();
            (void) parent;
            expect_released(own, "by-destruction");
        }
        P derived(const P& o, const char* how)
        {
            auto n = std::make_shared<Obj>();
            n->t = o->t; n->how = how;
            return n;
        }
        // a deep copy's keepalives: none, unless the copy is shallow by design
        void inherit_copy(P& n, const P& o)
        {
            n->c = o->c;
            n->shallow = o->shallow;
            if (o->shallow) { n->lent = o->lent; n->parent = o->parent; n->owns_a = o->owns_a; n->owns_s = o->owns_s; n->view = o->view; }
        }
        void take(P& n, P& o)   // n becomes what o was
        {
            n->t = o->t; n->c = o->c; n->owned = o->owned; n->lent = o->lent; n->parent = o->parent; n->shallow = o->shallow;
            n->view = o->view; n->owns_a = o->owns_a; n->owns_s = o->owns_s;
        }

        void step()
        {
            if (objs.empty() || (objs.size() < max_objs && r.chance(1, 5))) { add(); return; }
            switch (r.below(15))
            {
                case 0: case 1: // copy construction
                {
                    P o = any();
                    note("copy", o.get());
                    P n = derived(o, "copy");
                    n->arr.emplace(*o->arr);
                    inherit_copy(n, o);
                    push(n);
                    break;
                }
                case 2: // move construction
                {
                    P* o = pick_free();
                    if (!o) break;
                    note("move", o->get());
                    P n = derived(*o, "moved");
                    n->arr.emplace(std::move(*(*o)->arr));
                    take(n, *o);
                    (*o)->arr.reset();
                    *o = n;
                    break;
                }
                case 3: // copy assignment, also to itself
                {
                    P* d = pick_free();
                    if (!d) break;
                    P src = any();
                    note(src == *d ? "self-assign" : "copy-assign", src.get());
                    auto old = (*d)->owned;
                    if (src == *d)
                    {
                        auto& ref = *src->arr;
                        *(*d)->arr = ref;
                        // either nothing happened, or the array is now a deep copy of what it was
                        bool gone = false;
                        for (auto& s : old) gone = gone || s->tr.array_releases || s->tr.schema_releases;
                        if (gone || (!src->shallow && sp::owns_arrow_array(ref) && sp::owns_arrow_schema(ref)
                                     && !(src->owns_a && src->owns_s)))
                        {
                            src->owned.clear(); src->owns_a = src->owns_s = true;
                            expect_released(old, "by-self-assignment");
                        }
                    }
                    else
                    {
                        auto keep = (*d)->lent;
                        *(*d)->arr = *src->arr;
                        (*d)->owned.clear(); (*d)->lent.clear(); (*d)->parent.reset();
                        (*d)->view = false; (*d)->owns_a = (*d)->owns_s = true; (*d)->how = "assigned";
                        (*d)->t = src->t;
                        inherit_copy(*d, src);
                        expect_released(old, "by-assignment");
                    }
                    break;
                }
                case 4: // move assignment
                {
                    P* d = pick_free();
                    if (!d) break;
                    P dst = *d;
                    std::vector<size_t> f;
                    for (size_t i = 0; i < objs.size(); ++i) if (objs[i] != dst && objs[i].use_count() == 1) f.push_back(i);
                    if (f.empty()) break;
                    const size_t si = f[r.below(f.size())];
                    P src = objs[si];
                    note("move-assign", src.get());
                    auto old = dst->owned;
                    auto keep = dst->lent;
                    auto keep_parent = dst->parent;
                    *dst->arr = std::move(*src->arr);
                    take(dst, src);
                    dst->how = "move-assigned";
                    src->arr.reset();
                    objs.erase(objs.begin() + long(si));
                    expect_released(old, "by-move-assignment");
                    break;
                }
                case 5: case 6: // copying slice
                {
                    P o = any();
                    if (o->view && false) break;
                    note("slice", o.get());
                    size_t a = r.below(o->size() + 1), b = a + r.below(o->size() - a + 1);
                    P n = derived(o, "slice");
                    n->arr.emplace(o->arr->slice(a, b));
                    n->c.assign(o->c.begin() + long(a), o->c.begin() + long(b));
                    push(n);
                    break;
                }
                case 7: // view slice
                {
                    P o = any();
                    note("slice_view", o.get());
                    size_t a = r.below(o->size() + 1), b = a + r.below(o->size() - a + 1);
                    P n = derived(o, "slice_view");
                    n->arr.emplace(o->arr->slice_view(a, b));
                    n->c.assign(o->c.begin() + long(a), o->c.begin() + long(b));
                    n->parent = o;
                    n->view = true;
                    push(n);
                    break;
                }
                case 8: case 9: extract(); break;
                case 10: nest(); break;
                case 11: case 12: batch(); break;
                default: // destruction
                {
                    if (!batches.empty() && r.chance(1, 2)) { note("destroy-batch"); drop_batch(r.below(batches.size())); break; }
                    P* o = pick_free();
                    if (!o) break;
                    note("destroy", o->get());
                    destroy(size_t(o - objs.data()));
                    break;
                }
            }
            while (objs.size() > max_objs)
            {
                P* o = pick_free();
                if (!o) break;
                note("destroy", o->get());
                destroy(size_t(o - objs.data()));
            }
        }
        void add()
        {
            vt::label("obtain");
            TD t = gen_t(r, depth);
            Col c = gen_col(t, gen_len(r), r, r.pick({0, 10, 50, 100}));
            How h = gen_how(r);
            if (!shallow_ok) while (h == How::POINTER || h == How::SHARED) h = gen_how(r);
            vt::label(std::string("obtain|") + kname(t.k));
            P o = obtain(t, c, r, h, po);
            note("obtain", o.get());
            push(o);
        }
        void push(const P& o)
        {
            for (auto& s : o->owned) sources.push_back({s, true});
            objs.push_back(o);
        }
        void drop_batch(size_t i)
        {
            Batch b = std::move(batches[i]);
            batches.erase(batches.begin() + long(i));
            b.rb.reset();
            for (auto& p : b.cols) { auto own = p->owned; expect_released(own, "with-record-batch"); }
        }
        void extract()
        {
            P* po_ = pick_free();
            if (!po_) return;
            P& o = *po_;
            if (o->shallow || o->view) return;
            note("extract", o.get());
            const size_t i = size_t(po_ - objs.data());
            if (!o->owns_a || !o->owns_s)
            {
                bool thrown = false;
                try { auto x = sp::extract_arrow_structures(std::move(*o->arr)); (void) x; }
                catch (const std::runtime_error&) { thrown = true; }
                vt::check(thrown, "extraction-of-borrowed-structures-accepted");
                vt::cover("refused extractions");
                return;
            }
            std::pair<ArrowArray, ArrowSchema> x;
            if (r.chance(1, 2)) x = sp::extract_arrow_structures(std::move(*o->arr));
            else { x.first = sp::extract_arrow_array(std::move(*o->arr)); x.second = sp::extract_arrow_schema(std::move(*o->arr)); }
            vt::check(x.first.release && x.second.release, "extracted-structures-released");
            P n = derived(o, "extracted");
            take(n, o);
            o->owned.clear();
            const bool destroy_now = r.chance(1, 2);
            if (destroy_now) o->arr.reset();
            for (auto& s : n->owned) vt::check(s->tr.array_releases == 0 && s->tr.schema_releases == 0, "released-while-extracted");
            switch (r.below(3))
            {
                case 0: // the caller releases
                    x.first.release(&x.first); x.second.release(&x.second);
                    vt::check(!x.first.release && !x.second.release, "release-does-not-mark-released");
                    o->arr.reset();
                    {
                        auto own = n->owned;
                        objs.erase(objs.begin() + long(i));
                        expect_released(own, "by-caller");
                    }
                    return;
                case 1: // back in, owned
                    n->arr.emplace(std::move(x.first), std::move(x.second));
                    break;
                default: // back in, lent
                {
                    auto src = std::make_shared<Source>();
                    src->a = x.first; src->s = x.second; src->lent_a = src->lent_s = true;
                    n->arr.emplace(&src->a, &src->s);
                    // what the structures own is released when the caller releases them
                    n->lent.push_back(src);
                    n->owned.clear();
                    n->owns_a = n->owns_s = false;
                    break;
                }
            }
            if (!destroy_now && r.chance(1, 2)) o->arr.reset();
            *po_ = n;
        }
        // move arrays into a struct, a list or a union
        void nest()
        {
            P* p = pick_free();
            if (!p) return;
            P first = *p;
            if (!first->owns_a || !first->owns_s || first->shallow || first->view) return;
            const size_t n = first->size();
            const int kind = int(r.below(3));
            std::vector<P> kids{first};
            for (auto& q : objs)
                if (kids.size() < 3 && q != first && q.use_count() == 1 && (kind == 0 ? q->size() == n : q->size() >= n) && q->owns_a && q->owns_s && !q->shallow && !q->view && r.chance(2, 3)) kids.push_back(q);
            note(kind == 0 ? "nest-struct" : kind == 1 ? "nest-list" : "nest-sparse-union", first.get());
            P o = std::make_shared<Obj>();
            if (kind == 1) { kids.resize(1); }
            for (auto& k : kids) { o->owned.insert(o->owned.end(), k->owned.begin(), k->owned.end()); o->lent.insert(o->lent.end(), k->lent.begin(), k->lent.end()); }
            for (auto& k : kids) o->t.ch.push_back(k->t);
            std::vector<sp::array> ch;
            for (auto& k : kids) ch.push_back(std::move(*k->arr));
            if (kind == 0)
            {
                o->t.k = K::STRUCT;
                size_t m = n;
                for (auto& k : kids) m = std::min(m, k->size());
                std::vector<bool> valid;
                for (size_t i = 0; i < m; ++i) valid.push_back(r.chance(3, 4));
                for (size_t i = 0; i < m; ++i)
                {
                    std::vector<LV> row;
                    for (auto& k : kids) row.push_back(k->c[i]);
                    o->c.push_back(valid[i] ? struct_lv(row) : null_lv());
                }
                // a struct array has the length of its first child
                o->arr.emplace(sp::struct_array(std::move(ch), valid));
            }
            else if (kind == 1)
            {
                const bool big = r.chance(1, 2);
                o->t.k = big ? K::LLIST : K::LIST;
                std::vector<size_t> sizes;
                size_t at = 0;
                const bool all = r.chance(1, 2);
                while (at < n || (sizes.empty() && r.chance(1, 2)))
                {
                    size_t z = std::min<size_t>(r.below(4), n - at);
                    if (!all && r.chance(1, 8) && !sizes.empty()) break;
                    sizes.push_back(z);
                    o->c.push_back(list_lv(std::vector<LV>(first->c.begin() + long(at), first->c.begin() + long(at + z))));
                    at += z;
                }
                if (big) o->arr.emplace(sp::big_list_array(std::move(ch[0]), sp::big_list_array::offset_from_sizes(sizes)));
                else o->arr.emplace(sp::list_array(std::move(ch[0]), sp::list_array::offset_from_sizes(sizes)));
            }
            else
            {
                o->t.k = K::SUNION;
                std::vector<uint8_t> ids;
                for (size_t i = 0; i < n; ++i)
                {
                    size_t s = r.below(kids.size());
                    ids.push_back(uint8_t(s));
                    LV v = kids[s]->c[i];
                    v.sel.insert(v.sel.begin(), int(s));
                    o->c.push_back(v);
                }
                for (size_t i = 0; i < kids.size(); ++i) o->t.ids.push_back(int(i));
                o->arr.emplace(sp::sparse_union_array(std::move(ch), sp::u8_buffer<uint8_t>(ids)));
            }
            o->how = "nested";
            ch.clear();
            for (auto& k : kids) { k->owned.clear(); k->arr.reset(); }
            objs.erase(std::remove_if(objs.begin(), objs.end(), [](const P& q) { return !q->arr; }), objs.end());
            objs.push_back(o);
        }
        void batch()
        {
            if (batches.size() >= 2 || (!batches.empty() && r.chance(1, 2)))
            {
                auto& b = batches[r.below(batches.size())];
                const int k = int(r.below(4));
                if (k == 0)
                {
                    note("batch-move");
                    sp::record_batch m(std::move(*b.rb));
                    b.rb.emplace(std::move(m));
                }
                else if (k == 1 && batches.size() < 3)
                {
                    note("batch-copy");
                    Batch n;
                    n.rb.emplace(*b.rb);
                    n.names = b.names;
                    for (auto& c : b.cols)
                    {
                        P d = derived(c, "batch column");
                        inherit_copy(d, c);
                        n.cols.push_back(d);
                    }
                    batches.push_back(std::move(n));
                }
                else if (k == 2 && batches.size() > 1)
                {
                    note("batch-assign");
                    auto& d = batches[r.below(batches.size())];
                    auto old = d.cols;
                    const bool self = &d == &b;
                    auto& ref = *b.rb;
                    *d.rb = ref;
                    if (!self)
                    {
                        d.names = b.names;
                        d.cols.clear();
                        for (auto& c : b.cols) { P x = derived(c, "batch column"); inherit_copy(x, c); d.cols.push_back(x); }
                        for (auto& c : old) expect_released(c->owned, "by-batch-assignment");
                    }
                }
                else
                {
                    note("batch-column-copy");
                    if (b.cols.empty()) return;
                    const size_t i = r.below(b.cols.size());
                    P n = derived(b.cols[i], "copy of column");
                    n->arr.emplace(b.rb->get_column(i));
                    inherit_copy(n, b.cols[i]);
                    push(n);
                }
                return;
            }
            Batch b;
            P* p = pick_free();
            if (!p) return;
            note("batch");
            P first = *p;
            std::vector<P> kids{first};
            for (auto& q : objs) if (kids.size() < 3 && q != first && q.use_count() == 1 && q->size() == first->size()) kids.push_back(q);
            std::vector<sp::array> cols;
            const bool copies = r.chance(1, 3);
            for (size_t i = 0; i < kids.size(); ++i)
            {
                b.names.push_back("c" + std::to_string(i));
                if (copies)
                {
                    cols.push_back(*kids[i]->arr);
                    P d = derived(kids[i], "batch column");
                    inherit_copy(d, kids[i]);
                    b.cols.push_back(d);
                }
                else { cols.push_back(std::move(*kids[i]->arr)); b.cols.push_back(kids[i]); kids[i]->arr.reset(); }
            }
            b.rb.emplace(std::vector<std::string>(b.names), std::move(cols));
            batches.push_back(std::move(b));
            objs.erase(std::remove_if(objs.begin(), objs.end(), [](const P& q) { return !q->arr; }), objs.end());
        }

        static void same(const Col& want, const Col& got, const char* what, const Obj& o)
        {
            if (!(want == got)) vt::violation(what, o.how + " " + td_str(o.t) + " want " + col_str(want) + " got " + col_str(got));
        }
        void check_obj(const P& o, bool structures)
        {
            const bool sz = vt::check(o->arr->size() == o->c.size(), "size", vt::fmt("%zu want %zu", o->arr->size(), o->c.size()));
            if (sz) same(o->c, sr::read(*o->arr), "contents", *o);
            vt::check(sp::owns_arrow_array(*o->arr) == (o->owns_a || o->view) && sp::owns_arrow_schema(*o->arr) == (o->owns_s || o->view), "ownership-answer", o->how);
            if (structures)
            {
                std::string err;
                auto c = decode(*o->arr, err);
                if (!c) vt::violation("structures", o->how + " " + td_str(o->t) + ": " + err);
                else same(o->c, *c, "structures-contents", *o);
            }
            vt::cover("arrays compared");
            vt::cover("elements compared", o->c.size());
        }
        void check_sources()
        {
            for (auto& o : objs)
            {
                for (auto& s : o->owned) vt::check(s->tr.none_released() && s->tr.errors.empty(), "released-while-in-use", s->tr.errors.empty() ? "" : s->tr.errors[0]);
                for (auto& s : o->lent) vt::check(!s->foreign || s->tr.schema_releases == 0, "lent-structure-released");
            }
            for (auto& b : batches) for (auto& o : b.cols)
                for (auto& s : o->owned) vt::check(s->tr.none_released() && s->tr.errors.empty(), "released-while-in-batch");
            for (auto& [s, _] : sources) vt::check(s->tr.errors.empty(), "double-release", s->tr.errors.empty() ? "" : s->tr.errors[0]);
            std::string where;
            for (auto& o : objs) for (auto& v : {o->owned, o->lent}) for (auto& s : v) vt::check(s->tr.intact(&where), "producer-memory-changed", where);
        }
        void check_batches()
        {
            for (auto& b : batches)
            {
                vt::check(b.rb->nb_columns() == b.cols.size(), "batch-columns");
                for (size_t i = 0; i < b.cols.size() && i < b.rb->nb_columns(); ++i) same(b.cols[i]->c, sr::read(b.rb->get_column(i)), "batch-contents", *b.cols[i]);
            }
        }
        void clear()
        {
            while (!batches.empty()) { vt::label("final-destroy-batch"); drop_batch(batches.size() - 1); }
            while (!objs.empty())
            {
                P* o = pick_free();
                if (!o) { vt::violation("harness-keepalive-cycle"); break; }
                vt::label(std::string("final-destroy|") + kname((*o)->t.k));
                destroy(size_t(o - objs.data()));
            }
            for (auto& [s, _] : sources)
            {
                s->release();
                vt::check(s->tr.all_released() && s->tr.errors.empty(), "release-accounting-at-the-end",
                          vt::fmt("%d/%d arrays %d/%d schemas", s->tr.array_releases, s->tr.arrays, s->tr.schema_releases, s->tr.schemas));
                vt::cover("structures accounted", uint64_t(s->tr.arrays + s->tr.schemas));
            }
        }
    };
}
