// P19: misuse is refused with the documented exception, and the refusal changes, releases and leaks nothing.
#include "formats.hpp"
#include "sparrow/arrow_interface/arrow_flag_utils.hpp"
#include "sparrow/array_factory.hpp"
#include "sparrow/types/data_type.hpp"
#include <limits>
using namespace sc;
namespace
{
    using Indices = std::vector<size_t>;
    Indices beyond(size_t n, Rng& r)
    {
        Indices v{n, n + 1, n + 7, n + 8, n + 64, 2 * n + 1, size_t(1) << 31, size_t(1) << 32, size_t(1) << 63, std::numeric_limits<size_t>::max(), std::numeric_limits<size_t>::max() - n};
        v.push_back(n + r.below(1000));
        return v;
    }
    // f must throw an E (and nothing else); returns whether it did
    template <class E, class F> bool refuses(F&& f, const std::string& what, const std::string& ctx)
    {
        std::string got = "nothing";
        try { f(); }
        catch (const E&) { vt::cover("refusals: " + what.substr(0, what.find('|'))); return true; }
        catch (const std::exception& e) { got = std::string(typeid(e).name()) + ": " + e.what(); }
        vt::violation(what + "|not-refused", ctx + ": raised " + got);
        return false;
    }
}
void access1(const sp::array&, const Col&, Rng&, const std::string&);
void access2(const sp::array&, const Col&, Rng&, const std::string&);
void access3(const sp::array&, const Col&, Rng&, const std::string&);

#if VT_PART == 0
VT_MAIN_DEFS
namespace
{
    // everything that can be seen of an object
    struct State
    {
        std::string structure, sig;
        Col content;
        static State of(sp::array& a)
        {
            State s;
            snapshot(sp::get_arrow_array(a), s.structure, true);
            snapshot(sp::get_arrow_schema(a), s.structure, true);
            s.sig = schema_sig(a);
            s.content = sr::read(a);
            return s;
        }
    };
    void same(Obj& o, const State& before, const std::string& what, const std::string& ctx)
    {
        const State now = State::of(*o.arr);
        if (now.structure != before.structure) { size_t at=0; while (at<now.structure.size()&&at<before.structure.size()&&now.structure[at]==before.structure[at]) ++at; vt::violation(what + "|structures-changed", vt::fmt("byte %zu of %zu/%zu ", at, now.structure.size(), before.structure.size()) + ctx); }
        vt::check(now.sig == before.sig, what + "|schema-changed", ctx);
        vt::check(now.content == o.c, what + "|contents-changed", ctx + " " + col_str(now.content) + " for " + col_str(o.c));
        for (auto& v : {o.owned, o.lent})
            for (auto& s : v)
            {
                for (auto& e : s->tr.errors) vt::violation(what + "|released-twice", e);
                if (s->foreign) { vt::check(s->tr.none_released(), what + "|released", ctx); vt::check(s->tr.intact(), what + "|bytes-changed", ctx); }
            }
    }

    // ---- checked access
    void access(vt::Case& cs)
    {
        Rng& r = cs.rng;
        P o = gen_obj(r);
        const std::string ctx = short_str(*o).substr(0, 300);
        vt::label(std::string("at|") + kname(o->t.k));
        vt::distinct(vt::fnv(ctx));
        std::vector<sp::array> views;   // views and slices too
        const State before = State::of(*o->arr);
        auto probe = [&](const sp::array& a, const Col& c, const char* what)
        {
            const std::string cx = std::string(what) + " of " + ctx;
            for (size_t i : beyond(c.size(), r)) refuses<std::out_of_range>([&] { (void) a.at(i); }, "at", cx + vt::fmt(" index %zu size %zu", i, c.size()));
            for (size_t i = 0; i < c.size(); ++i)
            {
                const LV v = sr::element(a.at(i));
                vt::check(v == c[i], "checked-access-differs", cx + vt::fmt(" index %zu", i));
            }
            (group(o->t) == 1 ? access1 : group(o->t) == 2 ? access2 : access3)(a, c, r, cx);
        };
        probe(*o->arr, o->c, "whole");
        if (!o->shallow)
            for (int k = 0; k < 2; ++k)
            {
                const size_t n = o->size(), b = r.below(n + 1), e = b + r.below(n - b + 1);
                sp::array s = r.chance(1, 2) ? o->arr->slice(b, e) : o->arr->slice_view(b, e);
                probe(s, Col(o->c.begin() + long(b), o->c.begin() + long(e)), "slice");
            }
        same(*o, before, "at", ctx);
        if (r.chance(1, 2)) { sp::array c(*o->arr); vt::check(sr::read(c) == o->c, "copy-after-refusals", ctx); }
    }

    // ---- extraction of what is not owned
    void extract(vt::Case& cs)
    {
        Rng& r = cs.rng;
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 30}));
        P o = obtain(t, c, r, r.pick({How::LENT, How::HALF, How::RELENT}));
        const std::string ctx = short_str(*o).substr(0, 300);
        vt::label(std::string("extract|") + kname(t.k));
        vt::distinct(vt::fnv(ctx));
        const State before = State::of(*o->arr);
        sp::array& a = *o->arr;
        for (int k = 0; k < 4; ++k)
        {
            switch (r.below(3))
            {
                case 0: if (!o->owns_a) refuses<std::runtime_error>([&] { (void) sp::extract_arrow_array(std::move(a)); }, "extract-array", ctx); break;
                case 1: if (!o->owns_s) refuses<std::runtime_error>([&] { (void) sp::extract_arrow_schema(std::move(a)); }, "extract-schema", ctx); break;
                default: refuses<std::runtime_error>([&] { (void) sp::extract_arrow_structures(std::move(a)); }, "extract-structures", ctx); break;
            }
            same(*o, before, "extract", ctx);
        }
        // as a component of something else
        auto none = [](const char*) {};
        (void) none;
        const size_t n = c.size();
        std::string into;
        auto wrap = [&]
        {
            switch (r.below(6))
            {
                case 0: into = "struct"; { std::vector<sp::array> v; v.push_back(sp::array(sp::primitive_array<int32_t>(std::vector<int32_t>(n, 1)))); v.push_back(std::move(a)); try { sp::struct_array s(std::move(v)); } catch (...) { a = std::move(v[1]); throw; } } break;
                case 1: into = "list"; { sp::list_array l(std::move(a), sp::list_array::offset_from_sizes(std::vector<size_t>{n})); } break;
                case 2: into = "fixed-size list"; { sp::fixed_sized_list_array l(uint64_t(1), std::move(a)); } break;
                case 3: into = "sparse union"; { std::vector<sp::array> v; v.push_back(std::move(a)); sp::sparse_union_array::type_id_buffer_type ids(std::vector<uint8_t>(n, 0)); try { sp::sparse_union_array u(std::move(v), std::move(ids)); } catch (...) { a = std::move(v[0]); throw; } } break;
                case 4: into = "dictionary"; { sp::dictionary_encoded_array<uint8_t>::keys_buffer_type keys(std::vector<uint8_t>{}); sp::dictionary_encoded_array<uint8_t> d(std::move(keys), std::move(a)); } break;
                default: into = "run-end encoded"; if (n) { std::vector<int32_t> e(n); for (size_t i = 0; i < n; ++i) e[i] = int32_t(i + 1); sp::run_end_encoded_array d(sp::array(sp::primitive_array<int32_t>(e)), std::move(a)); } else throw std::runtime_error("skipped"); break;
            }
        };
        refuses<std::runtime_error>(wrap, "as-child", ctx + " as child of a " + into);
        same(*o, before, "as-child|" + into, ctx);
        vt::check(sr::read(a) == c, "unusable-after-refusal", ctx);
    }

    // ---- edits of structures the library did not allocate
    struct Edit { const char* name; bool needs_a, needs_s; std::function<void(sp::arrow_proxy&)> f; };
    void edits(vt::Case& cs)
    {
        Rng& r = cs.rng;
        // which of the structures the library created: neither, the array only, the schema only
        const int own = int(r.below(3));
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, 30);
        fp::Tracker tr;
        fp::ProdOpts po; po.bool_bytes = true;
        fp::Producer p(tr, r, po);
        ArrowArray fa{}; ArrowSchema fs{};
        p.schema(t, fs); p.array(t, c, fa);
        sp::array built = sb::build(t, c, r);
        auto [ba, bs] = sp::extract_arrow_structures(std::move(built));
        ArrowArray* A = own == 1 ? &ba : &fa;
        ArrowSchema* S = own == 2 ? &bs : &fs;
        const ArrowArray orig_a = *A;
        // whether dictionary and children agree (the schema of a built type has no names, but the same shape)
        const std::string ctx = std::string(own == 0 ? "foreign" : own == 1 ? "foreign schema" : "foreign array") + " " + td_str(t);
        vt::label(std::string("edit|") + (own == 0 ? "foreign" : own == 1 ? "foreign-schema" : "foreign-array"));
        vt::distinct(vt::fnv(ctx));
        {
            std::optional<sp::arrow_proxy> q;
            const int form = int(r.below(3));   // owning, half owning, lent
            if (form == 0) { q.emplace(std::move(*A), std::move(*S)); }
            else if (form == 1) q.emplace(std::move(*A), S);
            else q.emplace(A, S);
            // what refused rvalues must keep
            fp::Tracker tr2;
            fp::Producer p2(tr2, r, po);
            TD ct = gen_t(r, 1);
            Col cc = gen_col(ct, 3, r, 30);
            ArrowArray ca{}; ArrowSchema cs2{};
            p2.schema(ct, cs2); p2.array(ct, cc, ca);
            std::string child_before;
            snapshot(&ca, child_before, true); snapshot(&cs2, child_before, true);
            sp::buffer<uint8_t> given(std::vector<uint8_t>{1, 2, 3});
            const size_t n = c.size(), nch = size_t(orig_a.n_children), nb = size_t(orig_a.n_buffers);
            const bool bm = t.k != K::NA && t.k != K::REE && t.k != K::SUNION && t.k != K::DUNION;
            std::vector<Edit> all = {
                {"set_format", false, true, [&](auto& x) { x.set_format(std::string_view("u")); }},
                {"set_data_type", false, true, [&](auto& x) { x.set_data_type(sp::data_type::INT32); }},
                {"set_name", false, true, [&](auto& x) { x.set_name("a new name that is long enough to be allocated"); }},
                {"set_name", false, true, [&](auto& x) { x.set_name(std::nullopt); }},
                {"set_metadata", false, true, [&](auto& x) { x.set_metadata("some metadata"); }},
                {"set_flags", false, true, [&](auto& x) { x.set_flags({sp::ArrowFlag::MAP_KEYS_SORTED}); }},
                {"set_length", true, false, [&](auto& x) { x.set_length(n + 1); }},
                {"set_null_count", true, false, [&](auto& x) { x.set_null_count(1); }},
                {"set_offset", true, false, [&](auto& x) { x.set_offset(3); }},
                {"set_n_buffers", true, false, [&](auto& x) { x.set_n_buffers(5); }},
                {"add_child pointers", true, true, [&](auto& x) { x.add_child(&ca, &cs2); }},
                {"add_child rvalues", true, true, [&](auto& x) { x.add_child(std::move(ca), std::move(cs2)); }},
                {"add_children pointers", true, true, [&](auto& x) { x.add_children(std::vector<sp::arrow_array_and_schema_pointers>{{&ca, &cs2}}); }},
                {"add_children rvalues", true, true, [&](auto& x) { x.add_children(std::vector<sp::arrow_array_and_schema>{{ca, cs2}}); }},
                {"pop_children", true, true, [&](auto& x) { x.pop_children(nch ? 1 : 0); }},
                {"pop_children", true, true, [&](auto& x) { x.pop_children(nch + 1); }},
                {"set_dictionary", true, true, [&](auto& x) { x.set_dictionary(&ca, &cs2); }},
            };
            if (nb)
            {
                all.push_back({"set_buffer rvalue", true, false, [&](auto& x) { x.set_buffer(nb - 1, std::move(given)); }});
                all.push_back({"set_buffer view", true, false, [&](auto& x) { x.set_buffer(0, sp::buffer_view<uint8_t>(given.data(), given.size())); }});
            }
            if (nch)
            {
                all.push_back({"set_child pointers", true, true, [&](auto& x) { x.set_child(nch - 1, &ca, &cs2); }});
                all.push_back({"set_child rvalues", true, true, [&](auto& x) { x.set_child(0, std::move(ca), std::move(cs2)); }});
            }
            if (bm || own != 1)   // otherwise both reasons
            {
                all.push_back({"resize_bitmap", true, false, [&](auto& x) { x.resize_bitmap(n + 9); }});
                all.push_back({"insert_bitmap", true, false, [&](auto& x) { (void) x.insert_bitmap(r.below(n + 1), false, 1 + r.below(3)); }});
                all.push_back({"insert_bitmap range", true, false, [&](auto& x) { (void) x.insert_bitmap(r.below(n + 1), std::vector<bool>{true, false}); }});
                all.push_back({"push_back_bitmap", true, false, [&](auto& x) { x.push_back_bitmap(true); }});
                if (n) all.push_back({"erase_bitmap", true, false, [&](auto& x) { (void) x.erase_bitmap(r.below(n)); }});
                if (n) all.push_back({"pop_back_bitmap", true, false, [&](auto& x) { x.pop_back_bitmap(); }});
            }
            std::string before;
            snapshot(&q->array(), before, true); snapshot(&q->schema(), before, true);
            Reader rd; rd.o = strict();
            for (int k = 0; k < 12; ++k)
            {
                auto& e = r.pick(all);
                if ((e.needs_a && own == 1 && !e.needs_s) || (e.needs_s && own == 2 && !e.needs_a)) continue;   // allowed
                if (!refuses<sp::arrow_proxy_exception>([&] { e.f(*q); }, "edit", ctx + " " + e.name)) break;
                vt::cover(std::string("refused ") + e.name);
                std::string after, child_after;
                snapshot(&q->array(), after, true); snapshot(&q->schema(), after, true);
                vt::check(before == after, "edit|changed-the-structures", ctx + " " + e.name);
                snapshot(&ca, child_after, true); snapshot(&cs2, child_after, true);
                vt::check(child_before == child_after && tr2.none_released() && tr2.intact(), "edit|consumed-its-argument", ctx + " " + e.name);
                vt::check(given.size() == 3 && given[0] == 1 && given[2] == 3, "edit|consumed-its-buffer", ctx + " " + e.name);
                vt::check(q->children().size() == nch && q->n_children() == nch, "edit|views-changed", ctx + " " + e.name);
                vt::check(tr.none_released() && tr.intact(), "edit|released-or-changed-foreign-data", ctx + " " + e.name);
                auto got = rd.read(&q->array(), &q->schema(), nullptr);
                vt::check(got && *got == c, "edit|contents-changed", ctx + " " + e.name + " " + rd.errors());
            }
            // still usable
            sp::arrow_proxy copy(*q);
            auto got = rd.read(&copy.array(), &copy.schema(), nullptr);
            vt::check(got && *got == c, "edit|copy-after-refusals", ctx + " " + rd.errors());
            if (ca.release) ca.release(&ca);
            if (cs2.release) cs2.release(&cs2);
            vt::check(tr2.all_released() && tr2.errors.empty(), "edit|argument-released-wrongly", ctx);
            vt::cover("edited proxies");
        }
        for (auto* x : {&fa, &ba}) if (x->release) x->release(x);
        for (auto* x : {&fs, &bs}) if (x->release) x->release(x);
        vt::check(tr.all_released(), "edit|foreign-data-not-released", ctx);
        for (auto& e : tr.errors) vt::violation("edit|released-twice", e);
    }
    // ---- edits of the validity of arrays that have none, or past their end
    void bitmaps(vt::Case& cs)
    {
        Rng& r = cs.rng;
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, 30);
        P o = obtain(t, c, r, r.pick({How::BUILT, How::REIMPORT}));
        const std::string ctx = short_str(*o).substr(0, 300);
        vt::label(std::string("bitmap|") + kname(t.k));
        vt::distinct(vt::fnv(ctx));
        const State before = State::of(*o->arr);
        auto& q = sp::detail::array_access::get_arrow_proxy(*o->arr);
        const size_t n = c.size();
        const bool bm = t.k != K::NA && t.k != K::REE && t.k != K::SUNION && t.k != K::DUNION;
        for (int k = 0; k < 6; ++k)
        {
            if (!bm)
                refuses<sp::arrow_proxy_exception>([&] {
                    switch (r.below(6))
                    {
                        case 0: q.resize_bitmap(n + 1); break;
                        case 1: (void) q.insert_bitmap(r.below(n + 1), true, r.below(3)); break;
                        case 2: (void) q.insert_bitmap(r.below(n + 1), std::vector<bool>(r.below(3), true)); break;
                        case 3: (void) q.erase_bitmap(r.below(n + 1), r.below(2)); break;
                        case 4: q.push_back_bitmap(true); break;
                        default: q.pop_back_bitmap(); break;
                    }
                }, "no-bitmap", ctx);
            else
            {
                const Indices v = beyond(n, r);
                const size_t i = v[1 + r.below(v.size() - 1)];
                if (i <= n) continue;
                refuses<std::out_of_range>([&] {
                    switch (r.below(3))
                    {
                        case 0: (void) q.insert_bitmap(i, true, r.below(3)); break;
                        case 1: (void) q.insert_bitmap(i, std::vector<bool>(r.below(3), true)); break;
                        default: (void) q.erase_bitmap(i, r.below(3)); break;
                    }
                }, "bitmap-past-the-end", ctx + vt::fmt(" index %zu", i));
            }
            same(*o, before, "bitmap", ctx);
        }
        if (n || !bm) return;
        refuses<std::out_of_range>([&] { q.pop_back_bitmap(); }, "bitmap-past-the-end", ctx);
        same(*o, before, "bitmap", ctx);
    }

    // ---- record batches
    void batches(vt::Case& cs)
    {
        Rng& r = cs.rng;
        const size_t cols = r.below(6), n = gen_len(r);
        std::vector<std::string> names;
        std::vector<P> objs;
        std::vector<sp::array> arrays;
        static const std::vector<std::string> pool = {"", "a", "A", "aa", "a ", " a", "b", "column", "Column", "columns", "col", "a long column name that has to be allocated", "a long column name that has to be allocated!", std::string("a\0b", 3)};
        for (size_t i = 0; i < cols; ++i)
        {
            std::string nm = r.pick(pool);
            while (std::find(names.begin(), names.end(), nm) != names.end()) nm = r.pick(pool);
            names.push_back(nm);
            TD t = gen_t(r, 1);
            Col c = gen_col(t, n, r, 30);
            objs.push_back(obtain(t, c, r, r.pick({How::BUILT, How::OWNED, How::LENT})));
            arrays.push_back(*objs.back()->arr);
        }
        vt::label("record-batch");
        std::optional<sp::record_batch> b;
        b.emplace(names, std::move(arrays));
        if (r.chance(1, 3)) { sp::record_batch x(*b); b.emplace(std::move(x)); }
        if (r.chance(1, 4)) { sp::record_batch x(std::vector<std::string>{}, std::vector<sp::array>{}); x = *b; b.emplace(x); }
        std::string ctx;
        for (auto& nm : names) ctx += "'" + nm + "' ";
        vt::distinct(vt::fnv(ctx + std::to_string(n)));
        for (int k = 0; k < 20; ++k)
        {
            std::string nm = r.pick(pool);
            if (r.chance(1, 4) && cols) { nm = names[r.below(cols)]; if (r.chance(1, 2)) nm += "x"; else if (!nm.empty()) nm.pop_back(); }
            auto it = std::find(names.begin(), names.end(), nm);
            vt::check(b->contains_column(nm) == (it != names.end()), "contains", ctx + "looking for '" + nm + "'");
            if (it == names.end()) refuses<std::out_of_range>([&] { (void) b->get_column(nm); }, "unknown-column", ctx + "looking for '" + nm + "'");
            else vt::check(&b->get_column(nm) == &b->get_column(size_t(it - names.begin())), "known-column", ctx + nm);
            vt::check(b->nb_columns() == cols && b->nb_rows() == (cols ? n : 0), "size-changed", ctx);
        }
        for (size_t i = 0; i < cols; ++i) vt::check(b->get_column_name(i) == names[i] && sr::read(b->get_column(i)) == objs[i]->c, "contents-changed", ctx);
    }

    // ---- flags, data types, buffers, bitsets, type ids, keys, run ends, nullables
    void misc(vt::Case& cs)
    {
        Rng& r = cs.rng;
        vt::distinct(cs.rng.next());
        switch (r.below(8))
        {
            case 0:
            {
                vt::label("flags");
                const int64_t bad = int64_t(uint64_t(1) << (3 + r.below(61)));
                refuses<std::runtime_error>([&] { (void) sp::to_vector_of_ArrowFlags(bad | int64_t(r.below(8))); }, "flags", std::to_string(bad));
                // an array with such flags: the getter refuses, everything else works
                TD t = gen_t(r, 1);
                Col c = gen_col(t, 5, r, 30);
                P o = obtain(t, c, r, r.pick({How::BUILT, How::OWNED, How::LENT}));
                sp::get_arrow_schema(*o->arr)->flags |= bad;
                const State before = State::of(*o->arr);
                refuses<std::runtime_error>([&] { (void) sp::detail::array_access::get_arrow_proxy(*o->arr).flags(); }, "flags", std::to_string(bad));
                same(*o, before, "flags", "");
                break;
            }
            case 1:
            {
                vt::label("data-type");
                using D = sp::data_type;
                for (auto d : {D::DECIMAL, D::FIXED_WIDTH_BINARY, D::FIXED_SIZED_LIST, D::DENSE_UNION, D::SPARSE_UNION, D(200), D(255)})
                    try { (void) sp::data_type_to_format(d); } catch (const std::runtime_error&) { vt::cover("refusals: data type without format"); }
                refuses<std::runtime_error>([&] { (void) sp::data_type_to_format(D(200 + r.below(50))); }, "data-type", "");
                break;
            }
            case 2:
            {
                vt::label("buffer");
                auto go = [&](auto zero)
                {
                    using T = decltype(zero);
                    std::vector<T> v(r.below(40));
                    for (auto& x : v) x = T(r.next());
                    sp::buffer<T> b(v);
                    const T* d = b.data();
                    const size_t cap = b.capacity(), big = b.max_size() + 1 + r.below(1000);
                    auto unchanged = [&](const char* w) { vt::check(b.size() == v.size() && std::equal(v.begin(), v.end(), b.begin()) && b.data() == d && b.capacity() == cap, std::string("buffer|") + w + "|changed", ""); };
                    refuses<std::length_error>([&] { b.reserve(big); }, "buffer-reserve", ""); unchanged("reserve");
                    refuses<std::length_error>([&] { b.resize(big); }, "buffer-resize", ""); unchanged("resize");
                    refuses<std::length_error>([&] { b.resize(big, T(1)); }, "buffer-resize-value", ""); unchanged("resize value");
                    refuses<std::length_error>([&] { sp::buffer<T> x(big); }, "buffer-construct", "");
                    refuses<std::length_error>([&] { sp::buffer<T> x(big, T(7)); }, "buffer-construct-value", "");
                    refuses<std::length_error>([&] { b.insert(b.cbegin(), b.max_size() + 1 - b.size() + r.below(100), T(1)); }, "buffer-insert", ""); unchanged("insert");
                };
                switch (r.below(4)) { case 0: go(uint8_t()); break; case 1: go(int32_t()); break; case 2: go(double()); break; default: go(int16_t()); }
                break;
            }
            case 3:
            {
                vt::label("bitset");
                const size_t n = r.pick({0, 1, 7, 8, 9, 63, 64, 65, 200});
                std::vector<bool> v(n);
                for (size_t i = 0; i < n; ++i) v[i] = r.chance(1, 2);
                auto probe = [&](auto& b, const char* w)
                {
                    const auto& k = b;
                    for (size_t i : beyond(n, r))
                    {
                        refuses<std::out_of_range>([&] { (void) k.at(i); }, "bitset-at", w);
                        refuses<std::out_of_range>([&] { b.at(i) = true; }, "bitset-at", w);
                    }
                    for (size_t i = 0; i < n; ++i) vt::check(bool(k.at(i)) == v[i] && bool(b.at(i)) == v[i], "bitset|changed", w);
                };
                sp::dynamic_bitset<uint8_t> b(n, true);
                for (size_t i = 0; i < n; ++i) b.set(i, v[i]);
                probe(b, "bitset");
                sp::dynamic_bitset_view<uint8_t> w(b.data(), n);
                probe(w, "view");
                break;
            }
            case 4:
            {
                vt::label("union-type-ids");
                const size_t k = 1 + r.below(4), n = r.below(9);
                std::vector<sp::array> ch;
                std::vector<Col> cols;
                for (size_t i = 0; i < k; ++i) { TD t = gen_t(r, 1); Col c = gen_col(t, n, r, 30); cols.push_back(c); ch.push_back(sb::build(t, c, r)); }
                size_t m = 1 + r.below(6);
                if (m == k) ++m;
                std::vector<uint8_t> map;
                for (size_t i = 0; i < m; ++i) map.push_back(uint8_t(10 + i));
                if (r.chance(1, 2))
                {
                    sp::sparse_union_array::type_id_buffer_type ids(std::vector<uint8_t>(n, 10));
                    refuses<std::invalid_argument>([&] { sp::sparse_union_array u(std::move(ch), std::move(ids), std::move(map)); }, "union-type-ids", vt::fmt("%zu ids for %zu children", m, k));
                }
                else
                {
                    sp::dense_union_array::type_id_buffer_type ids(std::vector<uint8_t>(n, 10));
                    sp::dense_union_array::offset_buffer_type off(std::vector<uint32_t>(n, 0));
                    refuses<std::invalid_argument>([&] { sp::dense_union_array u(std::move(ch), std::move(ids), std::move(off), std::move(map)); }, "union-type-ids", vt::fmt("%zu ids for %zu children", m, k));
                }
                for (size_t i = 0; i < k; ++i) vt::check(sr::read(ch[i]) == cols[i], "union-type-ids|consumed-its-children", "");
                break;
            }
            case 5:
            {
                vt::label("dictionary-keys");
                TD t; t.k = K::DICT; t.key = K::I32; t.ch = {gen_t(r, 1)};
                Col c = gen_col(t, gen_len(r), r, 30);
                fp::Tracker tr; fp::ProdOpts po; po.bool_bytes = true;
                fp::Producer p(tr, r, po);
                ArrowArray a{}; ArrowSchema s{};
                p.schema(t, s); p.array(t, c, a);
                const std::string f = r.pick({"f", "n", "tdD", "w:4", "+s", "d:9,2,32", "i2", "n"});
                static thread_local std::string keep; keep = f;
                s.format = keep.c_str();
                const bool lend = r.chance(1, 2);
                refuses<std::runtime_error>([&] { if (lend) sp::array x(&a, &s); else sp::array x(std::move(a), std::move(s)); }, "dictionary-keys", f);
                if (lend) { vt::check(tr.none_released() && tr.intact(), "dictionary-keys|released", f); a.release(&a); s.release(&s); }
                vt::check(tr.all_released() && tr.errors.empty(), "dictionary-keys|leaked", f);
                break;
            }
            case 6:
            {
                vt::label("run-ends");
                const size_t n = r.below(6);
                TD et; et.k = r.pick({K::U8, K::I8, K::F32, K::F64, K::BOOL, K::STR, K::NA, K::F16});
                TD vt_ = gen_t(r, 1);
                Col ec = gen_col(et, n, r, 0), vc = gen_col(vt_, n, r, 30);
                if (r.chance(1, 2))
                {
                    sp::array ends = sb::build(et, ec, r), vals = sb::build(vt_, vc, r);
                    refuses<std::invalid_argument>([&] { sp::run_end_encoded_array x(std::move(ends), std::move(vals)); }, "run-ends", td_str(et));
                    vt::check(sr::read(ends) == ec && sr::read(vals) == vc, "run-ends|consumed-its-arguments", td_str(et));
                }
                else
                {
                    // imported with run ends of another type
                    TD t; t.k = K::REE; t.key = K::I32; t.ch = {vt_};
                    Col c = gen_col(t, gen_len(r), r, 30);
                    fp::Tracker tr; fp::ProdOpts po; po.bool_bytes = true;
                    fp::Producer p(tr, r, po);
                    ArrowArray a{}; ArrowSchema s{};
                    p.schema(t, s); p.array(t, c, a);
                    s.children[0]->format = r.pick({"f", "tdD", "w:4", "c", "C", "b"});   // values of at most 4 bytes
                    const bool lend = r.chance(1, 2);
                    bool ok = false; std::string got = "nothing";
                    try { if (lend) sp::array x(&a, &s); else sp::array x(std::move(a), std::move(s)); }
                    catch (const std::runtime_error&) { ok = true; } catch (const std::invalid_argument&) { ok = true; } catch (const std::exception& e) { got = typeid(e).name(); }
                    vt::check(ok, "run-ends|not-refused", got);
                    if (ok) vt::cover("refusals: imported run ends");
                    if (lend) { vt::check(tr.none_released() && tr.intact(), "run-ends|released", ""); a.release(&a); s.release(&s); }
                    vt::check(tr.all_released() && tr.errors.empty(), "run-ends|leaked", "");
                }
                break;
            }
            default:
            {
                vt::label("nullable");
                auto go = [&](auto v, auto w)
                {
                    using T = decltype(v);
                    sp::nullable<T> x(v, false);
                    const auto& k = x;
                    refuses<sp::bad_nullable_access>([&] { (void) x.value(); }, "nullable-value", "");
                    refuses<sp::bad_nullable_access>([&] { (void) k.value(); }, "nullable-value", "");
                    refuses<sp::bad_nullable_access>([&] { (void) std::move(x).value(); }, "nullable-value", "");
                    refuses<sp::bad_nullable_access>([&] { (void) std::move(k).value(); }, "nullable-value", "");
                    vt::check(!x.has_value() && x.get() == v, "nullable|changed", "");
                    sp::nullable<T&> y(v, false);
                    refuses<sp::bad_nullable_access>([&] { (void) y.value(); }, "nullable-value", "");
                    bool flag = false;
                    sp::nullable<T&, bool&> z(v, flag);
                    const auto& kz = z;
                    refuses<sp::bad_nullable_access>([&] { z.value() = w; }, "nullable-value", "");
                    refuses<sp::bad_nullable_access>([&] { (void) kz.value(); }, "nullable-value", "");
                    flag = true;
                    vt::check(z.value() == v, "nullable|unusable", "");
                    sp::nullable<T> none = sp::nullval;
                    refuses<sp::bad_nullable_access>([&] { (void) none.value(); }, "nullable-value", "");
                    none = w;
                    vt::check(none.value() == w, "nullable|unusable", "");
                };
                if (r.chance(1, 2)) go(int(r.below(100)), 7); else go(std::string("a string that is long enough to be allocated"), std::string("b"));
                break;
            }
        }
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs) {
        if (cs.mode == "access") access(cs);
        else if (cs.mode == "extract") extract(cs);
        else if (cs.mode == "edits") edits(cs);
        else if (cs.mode == "bitmaps") bitmaps(cs);
        else if (cs.mode == "batches") batches(cs);
        else if (cs.mode == "imports") ff::reject(cs.rng);
        else misc(cs);
    });
}
#else
namespace
{
    template <class A> void typed(const A& a, const Col& c, Rng& r, const std::string& ctx)
    {
        if constexpr (requires { a.at(size_t(0)); })
        {
            for (size_t i : beyond(c.size(), r)) refuses<std::out_of_range>([&] { (void) a.at(i); }, "typed-at", ctx + vt::fmt(" index %zu size %zu", i, c.size()));
            for (size_t i = 0; i < c.size(); ++i) vt::check(sr::of_element(a.at(i)) == c[i], "typed-checked-access-differs", ctx);
            vt::cover("typed arrays with checked access");
        }
        auto probe = [&](auto&& e, const LV& v, const char* how)
        {
            if constexpr (requires { e.value(); })
            {
                if (v.null) refuses<sp::bad_nullable_access>([&] { (void) e.value(); }, "element-value", ctx + " " + how);
                else vt::check(sr::of_value(e.value()) == v, "element-value-differs", ctx + " " + how);
            }
            else
                std::visit([&](const auto& x) {
                    if constexpr (requires { x.value(); })
                    {
                        if (v.null) refuses<sp::bad_nullable_access>([&] { (void) x.value(); }, "element-value", ctx + " " + how);
                        else (void) x.value();
                    }
                }, e);
        };
        size_t i = 0;
        for (auto it = a.begin(); it != a.end() && i < c.size(); ++it, ++i) { probe(*it, c[i], "iterated"); probe(a[i], c[i], "indexed"); }
        for (auto rit = std::make_reverse_iterator(a.end()); false;) (void) rit;
    }
}
#if VT_PART == 1
void access1(const sp::array& a, const Col& c, Rng& r, const std::string& ctx) { visit_group<1>(a, [&](const auto& t) { typed(t, c, r, ctx); }); }
#elif VT_PART == 2
void access2(const sp::array& a, const Col& c, Rng& r, const std::string& ctx) { visit_group<2>(a, [&](const auto& t) { typed(t, c, r, ctx); }); }
#elif VT_PART == 3
void access3(const sp::array& a, const Col& c, Rng& r, const std::string& ctx) { visit_group<3>(a, [&](const auto& t) { typed(t, c, r, ctx); }); }
#endif
#endif
