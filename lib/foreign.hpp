// A foreign producer of Arrow C data: encodes logical columns into conforming ArrowArray/ArrowSchema trees with
// randomly chosen physical layout, in exactly-sized / write-protected memory, with release accounting.
#pragma once
#include "arrow_model.hpp"
#include <sys/mman.h>
#include <memory>
#include <algorithm>

namespace fp
{
    using namespace am;

    struct ProdOpts
    {
        bool offsets = true;          // non-zero offsets anywhere
        bool drop_bitmap = true;      // may omit validity buffers when there are no nulls
        bool unknown_nulls = true;    // may declare null_count -1
        bool bool_bytes = false;
        bool bool_room = false;       // bit-packed booleans in blocks with room for a byte each
        bool legacy_empty = true;     // zero-length offsets buffers may be absent (NULL)
        bool read_only = false;       // buffers live in pages protected against writes
        bool null_key_garbage = true; // dictionary keys hidden under nulls may be out of range
        bool null_view_garbage = true; // views under nulls may name data that does not exist
        bool null_entries = true;     // nulls may be encoded as valid keys naming a null dictionary entry
    };

    struct Block { void* p; size_t n; size_t mapped; std::string copy; };

    struct Tracker
    {
        struct PA
        {
            Tracker* tr; bool released = false; bool is_schema = false; std::string path;
            std::vector<Block> blocks; std::vector<const void*> ptrs;
            std::vector<ArrowArray*> ach; ArrowArray* adict = nullptr;
            std::vector<ArrowSchema*> sch; ArrowSchema* sdict = nullptr;
            std::vector<std::unique_ptr<std::string>> strs;
        };
        std::vector<std::unique_ptr<PA>> nodes;
        std::vector<std::string> errors;
        int array_releases = 0, schema_releases = 0;   // root + nested
        int arrays = 0, schemas = 0;
        ~Tracker() { for (auto& n : nodes) free_blocks(*n); }
        static void free_blocks(PA& n)
        {
            for (auto& b : n.blocks)
            {
                if (b.mapped) munmap(b.p, b.mapped); else free(b.p);
            }
            n.blocks.clear();
        }
        // every buffer still alive must hold the bytes it was produced with
        bool intact(std::string* where = nullptr)
        {
            for (auto& n : nodes)
                for (auto& b : n->blocks)
                    if (b.n && memcmp(b.p, b.copy.data(), b.n) != 0)
                    {
                        if (where)
                        {
                            size_t i = 0;
                            while (static_cast<char*>(b.p)[i] == b.copy[i]) ++i;
                            *where = n->path + vt::fmt(": byte %zu of a %zu byte buffer changed from %02x to %02x", i, b.n, (unsigned char) b.copy[i], (unsigned char) static_cast<char*>(b.p)[i]);
                        }
                        return false;
                    }
            return true;
        }
        bool all_released() const { return array_releases == arrays && schema_releases == schemas; }
        bool none_released() const { return array_releases == 0 && schema_releases == 0; }
    };

    inline void release_array(ArrowArray* a)
    {
        auto* p = static_cast<Tracker::PA*>(a->private_data);
        if (p->released) { p->tr->errors.push_back("array " + p->path + " released twice"); return; }
        p->released = true;
        ++p->tr->array_releases;
        for (auto* c : p->ach) { if (c->release) c->release(c); delete c; }
        if (p->adict) { if (p->adict->release) p->adict->release(p->adict); delete p->adict; }
        std::vector<ArrowArray*>().swap(p->ach);
        p->adict = nullptr;
        Tracker::free_blocks(*p);
        a->release = nullptr;
    }
    inline void release_schema(ArrowSchema* s)
    {
        auto* p = static_cast<Tracker::PA*>(s->private_data);
        if (p->released) { p->tr->errors.push_back("schema " + p->path + " released twice"); return; }
        p->released = true;
        ++p->tr->schema_releases;
        for (auto* c : p->sch) { if (c->release) c->release(c); delete c; }
        if (p->sdict) { if (p->sdict->release) p->sdict->release(p->sdict); delete p->sdict; }
        std::vector<ArrowSchema*>().swap(p->sch);
        p->sdict = nullptr;
        p->strs.clear();
        s->release = nullptr;
    }

    inline const char* fixed_format(K k)
    {
        switch (k)
        {
            case K::NA: return "n"; case K::BOOL: return "b"; case K::U8: return "C"; case K::I8: return "c"; case K::U16: return "S";
            case K::I16: return "s"; case K::U32: return "I"; case K::I32: return "i"; case K::U64: return "L"; case K::I64: return "l";
            case K::F16: return "e"; case K::F32: return "f"; case K::F64: return "g"; case K::STR: return "u"; case K::BIN: return "z";
            case K::SVIEW: return "vu"; case K::BVIEW: return "vz"; case K::LIST: return "+l"; case K::LLIST: return "+L";
            case K::LVIEW: return "+vl"; case K::LLVIEW: return "+vL"; case K::STRUCT: return "+s"; case K::REE: return "+r";
            default: return "";
        }
    }
    inline std::string format_of(const TD& t)
    {
        if (t.k == K::DICT) return fixed_format(t.key);
        if (t.k == K::FSL) return "+w:" + std::to_string(t.fsl);
        if (t.k == K::SUNION || t.k == K::DUNION)
        {
            std::string s = t.k == K::SUNION ? "+us:" : "+ud:";
            for (size_t i = 0; i < t.ids.size(); ++i) { if (i) s += ","; s += std::to_string(t.ids[i]); }
            return s;
        }
        return fixed_format(t.k);
    }

    class Producer
    {
    public:
        Producer(Tracker& tr, Rng& r, ProdOpts o = {}) : tr(tr), r(r), o(o) {}

        void schema(const TD& t, ArrowSchema& s, const std::string& path = "")
        {
            s = ArrowSchema{};
            auto* p = node(path, true);
            ++tr.schemas;
            auto keep = [&](const std::string& x) { p->strs.push_back(std::make_unique<std::string>(x)); return p->strs.back()->c_str(); };
            s.format = keep(format_of(t));
            s.name = t.name ? keep(*t.name) : nullptr;
            s.metadata = t.meta ? keep(*t.meta) : nullptr;
            s.flags = t.flags;
            auto add = [&](const TD& c, const std::string& n) { auto* x = new ArrowSchema; schema(c, *x, path + n); p->sch.push_back(x); };
            if (t.k == K::DICT) { p->sdict = new ArrowSchema; schema(t.ch[0], *p->sdict, path + "/dict"); s.dictionary = p->sdict; }
            else
            {
                if (t.k == K::REE) { TD e; e.k = t.key; e.name = "run_ends"; add(e, "/run_ends"); }
                for (size_t i = 0; i < t.ch.size(); ++i) add(t.ch[i], "/" + std::to_string(i));
            }
            s.n_children = int64_t(p->sch.size());
            s.children = p->sch.empty() ? nullptr : p->sch.data();
            s.private_data = p;
            s.release = release_schema;
        }

        // fresh node whose logical content is `col`
        void array(const TD& t, const Col& col, ArrowArray& a, const std::string& path = "")
        {
            a = ArrowArray{};
            auto* p = node(path, false);
            ++tr.arrays;
            const size_t n = col.size();
            const size_t off = o.offsets && r.chance(1, 2) ? r.pick({1, 1, 2, 3, 7, 8, 9, 15, 16, 17}) : 0;
            Col phys;
            for (size_t i = 0; i < off; ++i) phys.push_back(gen_value(t, r, 30));
            phys.insert(phys.end(), col.begin(), col.end());
            const size_t m = phys.size();
            a.length = int64_t(n);
            a.offset = int64_t(off);
            p->ptrs.assign(size_t(0), nullptr);
            std::vector<char> is_null(m, 0);   // as stated by the validity bitmap
            for (size_t i = 0; i < m; ++i) is_null[i] = phys[i].null;

            std::vector<const void*>& b = p->ptrs;
            auto add_child = [&](const TD& ct, const Col& c, const std::string& nm)
            {
                auto* x = new ArrowArray;
                array(ct, c, *x, path + nm);
                p->ach.push_back(x);
            };
            auto tail = [&](const TD& ct, Col& c) { if (r.chance(1, 3)) for (size_t i = 0, k = 1 + r.below(3); i < k; ++i) c.push_back(gen_value(ct, r, 30)); };

            if (t.k == K::NA)
            {
                a.null_count = a.length;
            }
            else if (t.k == K::REE)
            {
                std::vector<uint64_t> ends;
                Col vals;
                for (size_t i = 0; i < m; ++i)
                {
                    if (!vals.empty() && same(vals.back(), phys[i]) && r.chance(4, 5)) ends.back() = i + 1;
                    else { vals.push_back(phys[i]); ends.push_back(i + 1); }
                }
                if (m == 0 && r.chance(1, 2)) { vals.push_back(gen_value(t.ch[0], r, 30)); ends.push_back(1 + r.below(3)); }
                else if (m > 0 && r.chance(1, 4)) ends.back() += r.below(5);
                if (r.chance(1, 4)) { uint64_t last = ends.empty() ? 0 : ends.back(); vals.push_back(gen_value(t.ch[0], r, 30)); ends.push_back(last + 1 + r.below(3)); }
                Col e;
                for (auto x : ends) e.push_back(scalar(kname(t.key), std::string_view(reinterpret_cast<const char*>(&x), width(t.key))));
                TD et; et.k = t.key;
                add_child(et, e, "/run_ends");
                add_child(t.ch[0], vals, "/0");
                a.null_count = 0;
            }
            else if (t.k == K::SUNION || t.k == K::DUNION)
            {
                std::string ids(m, 0), offs;
                std::vector<Col> cc(t.ch.size());
                for (size_t i = 0; i < m; ++i)
                {
                    size_t c = size_t(phys[i].sel.at(0));
                    ids[i] = char(t.ids[c]);
                    if (t.k == K::SUNION)
                        for (size_t q = 0; q < t.ch.size(); ++q) cc[q].push_back(q == c ? unsel(phys[i]) : gen_value(t.ch[q], r, 30));
                    else
                    {
                        if (r.chance(1, 6)) cc[c].push_back(gen_value(t.ch[c], r, 30));
                        int32_t of = int32_t(cc[c].size());
                        offs.append(reinterpret_cast<const char*>(&of), 4);
                        cc[c].push_back(unsel(phys[i]));
                    }
                }
                b.push_back(block(*p, ids));
                if (t.k == K::DUNION) b.push_back(block(*p, offs));
                for (size_t q = 0; q < t.ch.size(); ++q) { tail(t.ch[q], cc[q]); add_child(t.ch[q], cc[q], "/" + std::to_string(q)); }
                a.null_count = 0;
            }
            else
            {
                b.push_back(nullptr);  // validity, below
                switch (t.k)
                {
                    case K::STR: case K::BIN:
                    {
                        std::string chars, offs;
                        if (r.chance(1, 3) && m > 0) chars = "garbage";
                        auto push = [&] { int32_t x = int32_t(chars.size()); offs.append(reinterpret_cast<const char*>(&x), 4); };
                        push();
                        for (size_t i = 0; i < m; ++i)
                        {
                            if (!phys[i].null) chars += atom_bytes(phys[i]);
                            else if (r.chance(1, 3)) chars += "hidden";
                            push();
                        }
                        if (m == 0 && o.legacy_empty && r.chance(1, 2)) b.push_back(nullptr); else b.push_back(block(*p, offs));
                        b.push_back(block(*p, chars));
                        break;
                    }
                    case K::SVIEW: case K::BVIEW:
                    {
                        std::vector<std::string> var(r.below(3));
                        std::string views;
                        bool need = false;
                        for (auto& x : phys) if (!x.null && atom_bytes(x).size() > 12) need = true;
                        if (need && var.empty()) var.emplace_back();
                        for (auto& x : var) if (r.chance(1, 2)) x = "junk";
                        for (size_t i = 0; i < m; ++i)
                        {
                            char v[16] = {};
                            std::string s = phys[i].null ? (r.chance(1, 2) ? std::string("hid") : std::string()) : std::string(atom_bytes(phys[i]));
                            int32_t len = int32_t(s.size());
                            if (phys[i].null && o.null_view_garbage && r.chance(1, 3))
                            {
                                for (auto& x : v) x = char(r.below(256));
                                if (r.chance(1, 2)) { len = 20; memcpy(v, &len, 4); }
                                views.append(v, 16);
                                continue;
                            }
                            memcpy(v, &len, 4);
                            if (len <= 12) memcpy(v + 4, s.data(), size_t(len));
                            else
                            {
                                int32_t bi = int32_t(r.below(var.size())), of = int32_t(var[size_t(bi)].size());
                                var[size_t(bi)] += s;
                                memcpy(v + 4, s.data(), 4); memcpy(v + 8, &bi, 4); memcpy(v + 12, &of, 4);
                            }
                            views.append(v, 16);
                        }
                        b.push_back(block(*p, views));
                        std::string sizes;
                        for (auto& x : var) { b.push_back(block(*p, x)); int64_t z = int64_t(x.size()); sizes.append(reinterpret_cast<const char*>(&z), 8); }
                        b.push_back(block(*p, sizes));
                        break;
                    }
                    case K::LIST: case K::LLIST:
                    {
                        Col c; std::string offs;
                        if (m > 0 && r.chance(1, 3)) for (size_t i = 0; i < 1 + r.below(3); ++i) c.push_back(gen_value(t.ch[0], r, 30));
                        auto push = [&] { int64_t x = int64_t(c.size()); int32_t y = int32_t(x);
                            if (t.k == K::LIST) offs.append(reinterpret_cast<const char*>(&y), 4); else offs.append(reinterpret_cast<const char*>(&x), 8); };
                        push();
                        for (size_t i = 0; i < m; ++i)
                        {
                            if (!phys[i].null) c.insert(c.end(), phys[i].ch.begin(), phys[i].ch.end());
                            else if (r.chance(1, 3)) c.push_back(gen_value(t.ch[0], r, 30));
                            push();
                        }
                        tail(t.ch[0], c);
                        if (m == 0 && o.legacy_empty && r.chance(1, 2)) b.push_back(nullptr); else b.push_back(block(*p, offs));
                        add_child(t.ch[0], c, "/0");
                        break;
                    }
                    case K::LVIEW: case K::LLVIEW:
                    {
                        Col c; std::vector<int64_t> of(m), sz(m);
                        std::vector<size_t> order(m);
                        for (size_t i = 0; i < m; ++i) order[i] = i;
                        for (size_t i = m; i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
                        for (size_t i : order)
                        {
                            if (r.chance(1, 5)) c.push_back(gen_value(t.ch[0], r, 30));
                            if (phys[i].null) { of[i] = int64_t(r.below(c.size() + 1)); sz[i] = int64_t(r.below(c.size() - size_t(of[i]) + 1)); continue; }
                            // share an existing window when one matches
                            bool shared = false;
                            if (r.chance(1, 2))
                                for (size_t q = 0; q + phys[i].ch.size() <= c.size() && !shared; ++q)
                                {
                                    bool eq = true;
                                    for (size_t z = 0; z < phys[i].ch.size(); ++z) if (!same(c[q + z], phys[i].ch[z])) { eq = false; break; }
                                    if (eq) { of[i] = int64_t(q); shared = true; }
                                }
                            if (!shared) { of[i] = int64_t(c.size()); c.insert(c.end(), phys[i].ch.begin(), phys[i].ch.end()); }
                            sz[i] = int64_t(phys[i].ch.size());
                        }
                        tail(t.ch[0], c);
                        std::string bo, bs;
                        for (size_t i = 0; i < m; ++i)
                        {
                            if (t.k == K::LVIEW)
                            {
                                int32_t x = int32_t(of[i]), y = int32_t(sz[i]);
                                bo.append(reinterpret_cast<const char*>(&x), 4); bs.append(reinterpret_cast<const char*>(&y), 4);
                            }
                            else { bo.append(reinterpret_cast<const char*>(&of[i]), 8); bs.append(reinterpret_cast<const char*>(&sz[i]), 8); }
                        }
                        b.push_back(block(*p, bo)); b.push_back(block(*p, bs));
                        add_child(t.ch[0], c, "/0");
                        break;
                    }
                    case K::FSL:
                    {
                        Col c;
                        for (size_t i = 0; i < m; ++i)
                            for (int q = 0; q < t.fsl; ++q) c.push_back(phys[i].null ? gen_value(t.ch[0], r, 30) : phys[i].ch[size_t(q)]);
                        tail(t.ch[0], c);
                        add_child(t.ch[0], c, "/0");
                        break;
                    }
                    case K::STRUCT:
                        for (size_t q = 0; q < t.ch.size(); ++q)
                        {
                            Col c;
                            for (size_t i = 0; i < m; ++i) c.push_back(phys[i].null ? gen_value(t.ch[q], r, 30) : phys[i].ch[q]);
                            tail(t.ch[q], c);
                            add_child(t.ch[q], c, "/" + std::to_string(q));
                        }
                        break;
                    case K::DICT:
                    {
                        Col d; std::vector<uint64_t> keys(m);
                        auto junk = [&] { if (r.chance(1, 4) && d.size() < 60) d.push_back(gen_value(t.ch[0], r, 30)); };
                        for (size_t i = 0; i < m; ++i)
                        {
                            junk();
                            bool as_entry = !phys[i].null;
                            if (phys[i].null && o.null_entries && (!needs_sel(t.ch[0]) || !phys[i].sel.empty()) && r.chance(1, 3)) as_entry = true;
                            if (!as_entry)
                            {
                                keys[i] = o.null_key_garbage && r.chance(1, 2) ? (r.chance(1, 2) ? 100 + r.below(27) : ~uint64_t(0)) : 0;
                                continue;
                            }
                            size_t q = 0;
                            while (q < d.size() && !same(d[q], phys[i])) ++q;
                            if (q == d.size()) d.push_back(phys[i]);
                            if (phys[i].null) is_null[i] = 0;
                            keys[i] = q;
                        }
                        std::string kb;
                        for (auto k : keys) kb.append(reinterpret_cast<const char*>(&k), width(t.key));
                        b.push_back(block(*p, kb));
                        p->adict = new ArrowArray;
                        array(t.ch[0], d, *p->adict, path + "/dict");
                        a.dictionary = p->adict;
                        break;
                    }
                    case K::BOOL:
                    {
                        std::string d;
                        if (o.bool_bytes) for (size_t i = 0; i < m; ++i) d += phys[i].null ? char(r.below(2)) : atom_bytes(phys[i])[0];
                        else
                        {
                            d.assign((m + 7) / 8, 0);
                            for (size_t i = 0; i < d.size() * 8; ++i)
                                if (i >= m || phys[i].null ? r.chance(1, 2) : atom_bytes(phys[i])[0] != 0) d[i / 8] = char(d[i / 8] | (1 << (i % 8)));
                        }
                        if (!o.bool_bytes && o.bool_room) d.resize(m);
                        b.push_back(block(*p, d));
                        break;
                    }
                    default:
                    {
                        std::string d;
                        for (size_t i = 0; i < m; ++i) d += phys[i].null ? std::string(atom_bytes(gen_fixed(t.k, r))) : std::string(atom_bytes(phys[i]));
                        b.push_back(block(*p, d));
                        break;
                    }
                }
                int64_t nulls = 0;
                for (size_t i = off; i < m; ++i) nulls += is_null[i];
                if (nulls == 0 && o.drop_bitmap && r.chance(1, 2)) a.null_count = 0;
                else
                {
                    std::string bits((m + 7) / 8, 0);
                    for (size_t i = 0; i < bits.size() * 8; ++i)
                        if (i < m ? !is_null[i] : r.chance(1, 2)) bits[i / 8] = char(bits[i / 8] | (1 << (i % 8)));
                    b[0] = block(*p, bits);
                    a.null_count = o.unknown_nulls && r.chance(1, 3) ? -1 : nulls;
                    if (b[0] == nullptr) a.null_count = 0;
                }
            }
            a.n_buffers = int64_t(b.size());
            a.buffers = b.empty() ? nullptr : b.data();
            a.n_children = int64_t(p->ach.size());
            a.children = p->ach.empty() ? nullptr : p->ach.data();
            a.private_data = p;
            a.release = release_array;
        }

    private:
        Tracker& tr;
        Rng& r;
        ProdOpts o;

        static bool needs_sel(const TD& t) { return t.k == K::SUNION || t.k == K::DUNION || (t.k == K::REE && needs_sel(t.ch[0])); }
        static bool same(const LV& a, const LV& b) { return a == b && same_sel(a, b); }
        static bool same_sel(const LV& a, const LV& b)
        {
            if (a.sel != b.sel) return false;
            if (a.ch.size() != b.ch.size()) return false;
            for (size_t i = 0; i < a.ch.size(); ++i) if (!same_sel(a.ch[i], b.ch[i])) return false;
            return true;
        }
        Tracker::PA* node(const std::string& path, bool schema)
        {
            tr.nodes.push_back(std::make_unique<Tracker::PA>());
            auto* p = tr.nodes.back().get();
            p->tr = &tr; p->is_schema = schema; p->path = path.empty() ? "root" : path;
            return p;
        }
        const void* block(Tracker::PA& p, const std::string& bytes)
        {
            if (bytes.empty() && r.chance(1, 2)) return nullptr;
            Block b{nullptr, bytes.size(), 0, bytes};
            if (o.read_only && !bytes.empty())
            {
                const size_t page = 4096;
                b.mapped = (bytes.size() + page - 1) / page * page;
                b.p = mmap(nullptr, b.mapped, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
                if (b.p == MAP_FAILED) { perror("mmap"); exit(3); }
                memcpy(b.p, bytes.data(), bytes.size());
                mprotect(b.p, b.mapped, PROT_READ);
            }
            else
            {
                b.p = malloc(bytes.size());
                memcpy(b.p, bytes.data(), bytes.size());
            }
            p.blocks.push_back(std::move(b));
            return p.blocks.back().p;
        }
    };
}
