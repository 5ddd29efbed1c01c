// P21: edits through the Arrow proxy, in lockstep with a model of the structure tree.
#include <list>
#include "formats.hpp"
#include "proxy_model.hpp"
VT_MAIN_DEFS
using namespace pm;
namespace
{
    struct Machine
    {
        Rng& r;
        std::optional<sp::arrow_proxy> px;
        std::unique_ptr<Node> root;
        std::vector<At> at;
        explicit Machine(Rng& rr) : r(rr) {}
        void locate() { at.clear(); collect(*px, *root, at); }
        void note(const std::string& s, const At* w = nullptr) { g_trace += (g_trace.empty() ? "" : "; ") + s + (w ? "@" + w->path : ""); vt::label(s.substr(0, s.find('('))); }
        void done(const char* op) { vt::cover(std::string("edit:") + op); verify(*px, *root); }

        void set_bytes(At& w, size_t i, std::string b)
        {
            if (r.chance(1, 2)) w.p->set_buffer(i, to_buffer(b));
            else { const auto tmp = to_buffer(b); w.p->set_buffer(i, sp::buffer_view<uint8_t>(const_cast<uint8_t*>(tmp.data()), tmp.size())); }
            w.n->bytes[i] = Bytes(std::move(b));
        }
        // new contents for buffer i, large enough for `t` elements of format f
        std::string contents(const Node& n, const std::string& f, size_t i, size_t t)
        {
            const size_t more = r.pick({0, 0, 1, 8, 64});
            auto offs = [&](auto zero, size_t max)
            {
                using T = decltype(zero);
                std::string s;
                T o = 0;
                for (size_t k = 0; k <= t; ++k) { s.append(reinterpret_cast<const char*>(&o), sizeof o); o = T(std::min<size_t>(max, size_t(o) + r.below(4))); }
                return s + noise(r, more / sizeof(T) * sizeof(T));
            };
            if (i == 0 && has_bm(f)) return noise(r, (t + 7) / 8 + more);
            if (i == 1 && (f == "u" || f == "z")) return offs(int32_t(), n.bytes.size() > 2 ? n.bytes[2].size() : 0);
            if (i == 1 && (f == "U" || f == "Z")) return offs(int64_t(), n.bytes.size() > 2 ? n.bytes[2].size() : 0);
            if (i == 1 && f == "+l") return offs(int32_t(), 100);
            if (i == 1 && f == "+L") return offs(int64_t(), 100);
            const auto e = extents(n, f, t);
            // an absent buffer has no extent of its own
            const size_t w = f == "+vl" || f.rfind("+ud", 0) == 0 ? 4 : f == "+vL" ? 8 : f == "vu" || f == "vz" ? 16 : width(f);
            const size_t need = i == 0 ? t : i == 1 ? t * w : (f == "+vl" || f == "+vL") ? t * w : e[i];
            return noise(r, need + more);
        }
        bool views(const Node& n) { return n.format == "vu" || n.format == "vz"; }

        void step()
        {
            locate();
            At w = r.pick(at);
            Node& n = *w.n;
            sp::arrow_proxy& p = *w.p;
            const bool both = n.own_a && n.own_s;
            auto refused = [&](auto&& f) { try { f(); vt::violation("not-refused", g_trace); } catch (const sp::arrow_proxy_exception&) { vt::cover("refused edits"); } };
            switch (r.below(26))
            {
                case 0: case 1:
                {
                    note("set_name", &w);
                    std::optional<std::string> v;
                    if (r.chance(3, 4)) v = text(r);
                    auto f = [&] { if (v) { const std::string whole = "x" + *v + "yz"; p.set_name(std::string_view(whole).substr(1, v->size())); } else p.set_name(std::nullopt); };
                    if (!n.own_s) { refused(f); break; }
                    f(); n.name = v;
                    done("name");
                    break;
                }
                case 2:
                {
                    note("set_metadata", &w);
                    std::optional<std::string> v;
                    if (r.chance(3, 4)) v = text(r);
                    auto f = [&] { if (v) { const std::string whole = *v + "tail"; p.set_metadata(std::string_view(whole).substr(0, v->size())); } else p.set_metadata(std::nullopt); };
                    if (!n.own_s) { refused(f); break; }
                    f(); n.meta = v;
                    done("metadata");
                    break;
                }
                case 3:
                {
                    note("set_flags", &w);
                    std::vector<sp::ArrowFlag> v;
                    int64_t fl = 0;
                    for (auto f : {sp::ArrowFlag::MAP_KEYS_SORTED, sp::ArrowFlag::NULLABLE, sp::ArrowFlag::DICTIONARY_ORDERED}) if (r.chance(1, 2)) { v.push_back(f); fl |= int64_t(f); }
                    auto f = [&] { p.set_flags(v); };
                    if (!n.own_s) { refused(f); break; }
                    f(); n.flags = fl;
                    done("flags");
                    break;
                }
                case 4:
                {
                    note("set_null_count", &w);
                    const int64_t v = r.range(-1, n.length);
                    auto f = [&] { p.set_null_count(v); };
                    if (!n.own_a) { refused(f); break; }
                    f(); n.nulls = v; n.nulls_known = true;
                    done("null_count");
                    break;
                }
                case 5: case 6:
                {
                    const size_t v = r.below(n.total() + 12);
                    note(vt::fmt("set_length(%zu)", v), &w);
                    auto f = [&] { p.set_length(v); };
                    if (!n.own_a) { refused(f); break; }
                    if (!fits(n, n.format, v + size_t(n.offset))) break;
                    f(); n.length = int64_t(v); n.fresh = true; recount(n);
                    done("length");
                    break;
                }
                case 7: case 8:
                {
                    const size_t v = r.below(n.total() + 12);
                    note(vt::fmt("set_offset(%zu)", v), &w);
                    auto f = [&] { p.set_offset(v); };
                    if (!n.own_a) { refused(f); break; }
                    if (!fits(n, n.format, v + size_t(n.length))) break;
                    f(); n.offset = int64_t(v); n.fresh = false;
                    done("offset");
                    if (r.chance(1, 2)) { note("update_buffers", &w); p.update_buffers(); n.fresh = true; done("refresh"); }
                    break;
                }
                case 9: case 10: case 11:
                {
                    note("set_buffer", &w);
                    if (!n.own_a)
                    {
                        if (n.ptrs.empty()) break;
                        auto b = to_buffer("abc");
                        refused([&] { p.set_buffer(0, std::move(b)); });
                        vt::check(b.size() == 3, "refused-buffer-consumed");
                        break;
                    }
                    if (n.bytes.empty()) break;
                    const size_t i = r.below(n.bytes.size());
                    note(vt::fmt("set_buffer(%zu)", i));
                    if (views(n) && i >= 2) break;
                    if (i == 0 && has_bm(n.format) && r.chance(1, 8)) { note("none"); if (r.chance(1, 2)) p.set_buffer(0, sp::buffer_view<uint8_t>(nullptr, 0)); else p.set_buffer(0, sp::buffer<uint8_t>()); n.bytes[0] = Bytes(); }
                    else if (r.chance(1, 6) && n.fresh)   // a view of one of its own buffers
                    {
                        const size_t j = r.below(n.bytes.size());
                        const auto view = p.buffers()[j];
                        if (view.data() == nullptr) break;
                        Node tmp;
                        const std::string b(reinterpret_cast<const char*>(view.data()), view.size());
                        Bytes old = n.bytes[i];
                        n.bytes[i] = b;
                        const bool ok = fits(n, n.format, n.total());
                        if (!ok || b.empty() || (i != j && i == 1)) { n.bytes[i] = old; break; }
                        note("own view");
                        p.set_buffer(i, view);
                        vt::cover("buffers set from their own view");
                    }
                    else set_bytes(w, i, contents(n, n.format, i, n.total()));
                    n.fresh = true; recount(n);
                    done("buffer");
                    break;
                }
                case 12: case 13:   // another format with the same buffers
                {
                    static const std::vector<std::string> fixed = {"b", "c", "C", "s", "S", "e", "i", "I", "f", "l", "L", "g", "w:1", "w:3", "w:16", "d:19,10", "d:9,2,32", "d:18,3,64", "d:76,10,256", "tdD", "tdm", "tts", "ttn", "tsn:", "tss:UTC", "tDs", "tiM", "tiD", "tin", "tsn:America/Argentina/ComodRivadavia", "tsu:a time zone too long to be stored in place", "d:0000000000000000000038,0000000010,128"};
                    static const std::vector<std::string> texts = {"u", "z"};
                    note("set_format", &w);
                    const bool is_fixed = width(n.format) > 0, is_text = n.format == "u" || n.format == "z";
                    const std::string f = is_text ? texts[r.below(2)] : fixed[r.below(fixed.size())];
                    const std::string whole = f + "junk";
                    auto go = [&]
                    {
                        const auto dt = sp::format_to_data_type(f);
                        if (f.size() == 1 && f != "z" && r.chance(1, 2)) { p.set_data_type(dt); }
                        else p.set_format(std::string_view(whole).substr(0, f.size()));
                    };
                    if (!n.own_s) { refused(go); break; }
                    if (!(is_fixed || is_text) || !n.own_a || n.dict || !fits(n, f, n.total())) break;
                    note("to " + f);
                    go();
                    n.format = f; n.fresh = false;
                    done("format");
                    if (r.chance(2, 3)) { p.update_buffers(); n.fresh = true; done("refresh"); }
                    break;
                }
                case 14:   // other numbers of buffers
                {
                    note("convert", &w);
                    if (!both || !n.ch.empty() || n.dict) { if (!n.own_a) refused([&] { p.set_n_buffers(4); }); break; }
                    const size_t t = n.total();
                    if (n.format == "i")
                    {
                        const bool v = r.chance(1, 2);
                        std::string b1 = v ? noise(r, t * 16) : contents(n, "+l", 1, t);   // offsets, at most 100
                        b1.resize(std::max<size_t>(b1.size(), t * 4), 0);
                        p.set_buffer(1, to_buffer(b1)); n.bytes[1] = b1; n.fresh = true; recount(n);
                        done("buffer");
                        n.format = v ? (r.chance(1, 2) ? "vu" : "vz") : (r.chance(1, 2) ? "u" : "z");
                        note("to " + n.format);
                        p.set_format(n.format); n.fresh = false;
                        done("format");
                        const size_t nb = v ? 3 + r.below(4) : 3;
                        p.set_n_buffers(nb); n.bytes.resize(nb); n.fresh = true;
                        if (v)
                        {
                            done("n_buffers");
                            std::string sizes;
                            for (size_t k = 2; k + 1 < nb; ++k)
                            {
                                const std::string b = noise(r, r.below(40));
                                const int64_t x = int64_t(b.size());
                                sizes.append(reinterpret_cast<const char*>(&x), 8);
                                set_bytes(w, k, b);
                            }
                            set_bytes(w, nb - 1, sizes);
                        }
                        else
                        {
                            n.fresh = true;
                            done("n_buffers");
                            set_bytes(w, 2, noise(r, 100 + r.below(20)));
                        }
                        n.fresh = true; recount(n);
                        done("buffer");
                    }
                    else if (n.format == "u" || n.format == "z" || views(n))
                    {
                        if (n.bytes[1].size() < t * 4) break;
                        note("to i");
                        n.format = "i"; p.set_data_type(sp::data_type::INT32); n.fresh = false;
                        done("format");
                        p.set_n_buffers(2); n.bytes.resize(2); n.fresh = true;
                        done("n_buffers");
                    }
                    else if (width(n.format) && r.chance(1, 3))
                    {
                        note("to n");
                        n.format = "n"; p.set_data_type(sp::data_type::NA); n.fresh = false;
                        done("format");
                        p.set_n_buffers(0); n.bytes.clear(); n.fresh = true;
                        done("n_buffers");
                        p.set_length(size_t(n.length)); recount(n);
                        done("length");
                    }
                    else if (n.format == "n")
                    {
                        note("to C");
                        n.format = "C"; p.set_format("C"); n.fresh = false;
                        done("format");
                        p.set_n_buffers(2); n.bytes.assign(2, Bytes()); n.fresh = true;
                        done("n_buffers");
                        for (size_t i = 2; i-- > 0;) { set_bytes(w, i, i ? noise(r, t) : noise(r, (t + 7) / 8)); recount(n); done("buffer"); }
                    }
                    break;
                }
                case 15: case 16:   // the bitmap
                {
                    if (!n.own_a || !has_bm(n.format) || n.bytes[0].null || n.bytes[0].size() * 8 < n.total()) { note("bitmap", &w); if (!n.own_a && has_bm(n.format)) refused([&] { p.push_back_bitmap(true); }); break; }
                    const size_t len = size_t(n.length), off = size_t(n.offset), t = n.total();
                    std::vector<bool> bits;
                    for (size_t i = 0; i < t; ++i) bits.push_back(bit(n.bytes[0], i));
                    auto take = [&](size_t want)   // compare the bits, then follow the buffer
                    {
                        auto& b = p.get_array_private_data()->buffers()[0];
                        const std::string now(reinterpret_cast<const char*>(b.data()), b.size());
                        if (vt::check(now.size() >= (want + 7) / 8, "bitmap-too-small", g_trace))
                            for (size_t i = 0; i < want && i < bits.size(); ++i) if (!vt::check(bit(now, i) == bits[i], "bitmap-bits", vt::fmt("bit %zu of %zu ", i, want) + g_trace)) break;
                        vt::check(bits.size() == want, "machine");
                        n.bytes[0] = now;
                        n.nulls_known = false;
                        vt::cover("bitmaps compared");
                    };
                    if (r.chance(1, 4))
                    {
                        const size_t more = r.below(30);
                        const bool v = r.chance(1, 2);
                        note(vt::fmt("resize_bitmap(%zu, %d)", t + more, int(v)), &w);
                        p.resize_bitmap(t + more, v);
                        bits.resize(t + more, v);
                        take(t + more);
                        n.fresh = true;
                        done("bitmap resize");
                        break;
                    }
                    if (r.chance(1, 6))
                    {
                        // positions past the end
                        const size_t i = len + 1 + (r.chance(1, 2) ? 0 : r.below(100));
                        note(vt::fmt("bitmap position %zu", i), &w);
                        bool thrown = false;
                        try { switch (r.below(3)) { case 0: (void) p.insert_bitmap(i, true, 1 + r.below(3)); break; case 1: (void) p.insert_bitmap(i, std::vector<bool>(2, true)); break; default: (void) p.erase_bitmap(i - 1, 1); break; } }
                        catch (const std::out_of_range&) { thrown = true; }
                        vt::check(thrown, "bitmap-position-past-the-end", g_trace);
                        done("bitmap refused");
                        vt::cover("edit:bitmap position refused");
                        break;
                    }
                    if (len && r.chance(1, 2))
                    {
                        const bool pop = r.chance(1, 3);
                        const size_t i = pop ? len - 1 : r.below(len), k = pop ? 1 : r.below(len - i + 1);
                        note(vt::fmt("erase_bitmap(%zu, %zu)", i, k), &w);
                        if (pop && r.chance(1, 2)) p.pop_back_bitmap();
                        else { const size_t x = p.erase_bitmap(i, k); vt::check(x == i, "erase-bitmap-position", vt::fmt("%zu ", x) + g_trace); }
                        bits.erase(bits.begin() + long(off + i), bits.begin() + long(off + i + k));
                        take(t - k);
                        p.set_length(len - k);
                        n.length = int64_t(len - k); n.fresh = true; recount(n);
                        done("bitmap erase");
                        break;
                    }
                    const bool push = r.chance(1, 3), range = !push && r.chance(1, 2);
                    const size_t i = push ? len : r.below(len + 1), k = push ? 1 : r.below(20);
                    std::vector<bool> v(k);
                    for (size_t q = 0; q < k; ++q) v[q] = range ? r.chance(1, 2) : (q ? bool(v[0]) : r.chance(1, 2));
                    // room in the other buffers first
                    for (size_t q = 1; q < n.bytes.size(); ++q)
                    {
                        if (views(n) && q >= 2) continue;
                        if ((n.format == "u" || n.format == "z" || n.format == "U" || n.format == "Z") && q == 2) continue;
                        if (n.format == "+m") continue;
                        set_bytes(w, q, contents(n, n.format, q, t + k));
                    }
                    n.fresh = true; recount(n);
                    Bytes more = n.bytes[0];
                    more.resize(std::max(more.size(), (t + k + 7) / 8), 0);
                    std::swap(more, n.bytes[0]);
                    const bool ok = fits(n, n.format, t + k);
                    std::swap(more, n.bytes[0]);
                    if (!ok) { note("no room"); done("buffer"); break; }
                    note(vt::fmt("insert_bitmap(%zu, %zu%s)", i, k, range ? " range" : ""), &w);
                    size_t x = i;
                    if (push) p.push_back_bitmap(v[0]);
                    else if (range) { if (r.chance(1, 2)) x = p.insert_bitmap(i, v); else { std::list<bool> l(v.begin(), v.end()); x = p.insert_bitmap(i, l); } }
                    else x = p.insert_bitmap(i, k ? bool(v[0]) : true, k);
                    vt::check(x == i, "insert-bitmap-position", vt::fmt("%zu ", x) + g_trace);
                    bits.insert(bits.begin() + long(off + i), v.begin(), v.end());
                    take(t + k);
                    n.fresh = true;
                    verify(*px, *root);
                    p.set_length(len + k);
                    n.length = int64_t(len + k); n.fresh = true; recount(n);
                    done("bitmap insert");
                    break;
                }
                case 17: case 18: case 19:   // more children
                {
                    if (depth(*root) > 6 || at.size() > 40) break;
                    const size_t k = r.pick({0, 1, 1, 2, 3});
                    const bool lend = r.chance(1, 2);
                    note(vt::fmt("add %zu %s children", k, lend ? "lent" : "given"), &w);
                    std::vector<std::shared_ptr<Src>> v;
                    for (size_t i = 0; i < k; ++i) v.push_back(new_src(r));
                    std::vector<std::unique_ptr<Node>> models;
                    for (auto& s : v) { sp::arrow_proxy q(&s->a, &s->s); models.push_back(capture(q)); models.back()->src = s; }
                    auto drop = [&] { for (auto& s : v) { if (s->a.release) s->a.release(&s->a); if (s->s.release) s->s.release(&s->s); } };
                    if (lend)
                    {
                        std::vector<sp::arrow_array_and_schema_pointers> l;
                        for (auto& s : v) l.push_back({&s->a, &s->s});
                        auto f = [&] { if (k == 1 && r.chance(1, 2)) p.add_child(&v[0]->a, &v[0]->s); else p.add_children(l); };
                        if (!both) { refused(f); for (auto& s : v) vt::check(s->a.release && s->s.release, "refused-child-consumed", g_trace); drop(); break; }
                        f();
                        for (auto& s : v) { s->lent_a = s->lent_s = true; vt::check(s->a.release && s->s.release, "lent-child-consumed", g_trace); }
                    }
                    else
                    {
                        if (!both)
                        {
                            if (k) refused([&] { p.add_child(std::move(v[0]->a), std::move(v[0]->s)); });
                            for (auto& s : v) vt::check(s->a.release && s->s.release, "refused-child-consumed", g_trace);
                            drop();
                            break;
                        }
                        if (k == 1 && r.chance(1, 2)) { p.add_child(std::move(v[0]->a), std::move(v[0]->s)); }
                        else
                        {
                            std::vector<sp::arrow_array_and_schema> l;
                            for (auto& s : v) l.push_back({s->a, s->s});
                            p.add_children(std::move(l));
                            for (auto& s : v) { s->a = {}; s->s = {}; }
                        }
                        for (auto& s : v) vt::check(!s->a.release && !s->s.release, "given-child-not-consumed", g_trace);
                    }
                    for (auto& m : models) n.ch.push_back(std::move(m));
                    done(lend ? "add lent children" : "add given children");
                    break;
                }
                case 20:   // fewer children
                {
                    const size_t k = r.below(n.ch.size() + 2);
                    note(vt::fmt("pop_children(%zu)", k), &w);
                    auto f = [&] { p.pop_children(k); };
                    if (!both || k > n.ch.size()) { refused(f); break; }
                    f();
                    std::vector<std::unique_ptr<Node>> gone;
                    for (size_t i = 0; i < k; ++i) { gone.push_back(std::move(n.ch.back())); n.ch.pop_back(); }
                    for (auto& g : gone) detached(*g);
                    done("pop children");
                    break;
                }
                case 21: case 22:   // another child
                {
                    note("set_child", &w);
                    if (n.ch.empty()) break;
                    const size_t i = r.below(n.ch.size());
                    const bool lend = r.chance(1, 2);
                    note(vt::fmt("set_child(%zu, %s)", i, lend ? "lent" : "given"));
                    auto s = new_src(r);
                    std::unique_ptr<Node> m;
                    { sp::arrow_proxy q(&s->a, &s->s); m = capture(q); m->src = s; }
                    auto f = [&] { if (lend) p.set_child(i, &s->a, &s->s); else p.set_child(i, std::move(s->a), std::move(s->s)); };
                    if (!both) { refused(f); vt::check(s->a.release && s->s.release, "refused-child-consumed", g_trace); if (s->a.release) s->a.release(&s->a); if (s->s.release) s->s.release(&s->s); break; }
                    f();
                    s->lent_a = s->lent_s = lend;
                    vt::check(lend == (s->a.release != nullptr) && lend == (s->s.release != nullptr), "child-consumed", g_trace);
                    std::swap(n.ch[i], m);
                    detached(*m);
                    done(lend ? "set lent child" : "set given child");
                    break;
                }
                case 23:   // another dictionary, or none
                {
                    note("set_dictionary", &w);
                    if (both && n.dict && r.chance(1, 3))
                    {
                        note("none");
                        p.set_dictionary(nullptr, nullptr);
                        auto old = std::move(n.dict);
                        detached(*old);
                        done("remove dictionary");
                        break;
                    }
                    if (depth(*root) > 6) break;
                    auto s = new_src(r);
                    std::unique_ptr<Node> m;
                    { sp::arrow_proxy q(&s->a, &s->s); m = capture(q); m->src = s; }
                    auto f = [&] { p.set_dictionary(&s->a, &s->s); };
                    if (!both) { refused(f); vt::check(s->a.release && s->s.release, "refused-dictionary-consumed", g_trace); if (s->a.release) s->a.release(&s->a); if (s->s.release) s->s.release(&s->s); break; }
                    f();
                    s->as_dictionary = true;
                    std::swap(n.dict, m);
                    if (m) detached(*m);
                    done("set dictionary");
                    break;
                }
                case 24: note("update_buffers", &w); p.update_buffers(); n.fresh = true; done("refresh"); break;
                default: whole(); break;
            }
        }
        // every node can be copied
        bool consistent(const Node& n)
        {
            if (n.own_a && !fits(n, n.format, n.total())) return false;
            for (auto& c : n.ch) if (!consistent(*c)) return false;
            return !n.dict || consistent(*n.dict);
        }
        static void refreshed(Node& n) { n.fresh = true; for (auto& c : n.ch) refreshed(*c); if (n.dict) refreshed(*n.dict); }
        // what a copy must look like: the library's, with its buffers cut to their extents
        static std::unique_ptr<Node> copied(const Node& n)
        {
            auto m = std::make_unique<Node>();
            m->own_a = m->own_s = true;
            m->format = n.format; m->name = n.name; m->meta = n.meta; m->flags = n.flags;
            m->length = n.length; m->offset = n.offset; m->nulls = n.nulls; m->nulls_known = n.nulls_known;
            for (auto& c : n.ch) m->ch.push_back(copied(*c));
            if (n.dict) m->dict = copied(*n.dict);
            return m;
        }
        // a copy's buffers: the bytes the source's views show; absent ones may be filled
        static void same_bytes(sp::arrow_proxy& c, sp::arrow_proxy& s, const Node& n, Node& m)
        {
            const auto e = extents(n, n.format, n.total());
            auto& pb = c.get_array_private_data()->buffers();
            if (vt::check(pb.size() == e.size(), "copy-buffer-count", g_trace))
                for (size_t i = 0; i < e.size(); ++i)
                {
                    const void* from = s.array().buffers[i];
                    if (from && e[i]) vt::check(pb[i].size() == e[i] && memcmp(pb[i].data(), from, e[i]) == 0, "copy-buffer-contents", vt::fmt("buffer %zu ", i) + g_trace);
                    m.bytes.push_back(pb[i].data() ? Bytes(std::string(reinterpret_cast<const char*>(pb[i].data()), pb[i].size())) : Bytes());
                }
            for (size_t i = 0; i < n.ch.size() && i < c.children().size(); ++i) same_bytes(c.children()[i], s.children()[i], *n.ch[i], *m.ch[i]);
            if (n.dict && c.dictionary()) same_bytes(*c.dictionary(), *s.dictionary(), *n.dict, *m.dict);
        }
        void replace(sp::arrow_proxy&& q, std::unique_ptr<Node> m)
        {
            px.reset();
            auto old = std::move(root);
            detached(*old);
            px.emplace(std::move(q));
            root = std::move(m);
        }
        // operations on the whole proxy
        void whole()
        {
            switch (r.below(7))
            {
                case 0: case 1:
                {
                    note("copy");
                    if (!consistent(*root)) break;
                    sp::arrow_proxy c(*px);
                    auto m = copied(*root);
                    same_bytes(c, *px, *root, *m);
                    verify(c, *m, "copy");
                    verify(*px, *root);
                    vt::cover("edit:copy");
                    if (r.chance(1, 3)) { sp::arrow_proxy d(c); d = *px; auto m2 = copied(*root); same_bytes(d, *px, *root, *m2); verify(d, *m2, "assigned copy"); vt::cover("edit:assign"); }
                    if (r.chance(2, 3)) { replace(std::move(c), std::move(m)); verify(*px, *root); }
                    break;
                }
                case 2:
                {
                    note("move");
                    sp::arrow_proxy c(std::move(*px));
                    px.emplace(std::move(c));
                    verify(*px, *root);
                    vt::cover("edit:move");
                    break;
                }
                case 3:
                {
                    note("move-assign");
                    if (root->src) break;
                    TD t = gen_t(r, 1);
                    auto [a, s] = sp::extract_arrow_structures(sb::build(t, gen_col(t, 4, r, 30), r));
                    sp::arrow_proxy d(std::move(a), std::move(s));
                    auto m = capture(d);
                    if (r.chance(1, 2)) { d = std::move(*px); px.emplace(std::move(d)); verify(*px, *root); }
                    else { *px = std::move(d); auto old = std::move(root); root = std::move(m); { sp::arrow_proxy gone(std::move(d)); } detached(*old); verify(*px, *root); }
                    vt::cover("edit:move-assign");
                    break;
                }
                case 4:
                {
                    note("view");
                    sp::arrow_proxy v = px->view();
                    const bool f = root->fresh;
                    refreshed(*root);
                    verify(v, *root, "view");
                    root->fresh = f;
                    for (auto& x : at) x.p->update_buffers();
                    verify(*px, *root);
                    vt::cover("edit:view");
                    break;
                }
                case 5:
                {
                    if (!px->owns_array() || !px->owns_schema())
                    {
                        // what is lent cannot be taken
                        note("extract lent");
                        const bool arr = !px->owns_array();
                        try { if (arr) (void) px->extract_array(); else (void) px->extract_schema(); vt::violation("lent-structure-extracted", g_trace); }
                        catch (const std::runtime_error&) {}
                        verify(*px, *root);
                        vt::cover("edit:extract refused");
                        break;
                    }
                    note("extract and take back");
                    ArrowArray a = px->extract_array();
                    ArrowSchema s = px->extract_schema();
                    px.reset();
                    refreshed(*root);
                    px.emplace(std::move(a), std::move(s));
                    verify(*px, *root);
                    vt::cover("edit:extract");
                    break;
                }
                default:
                {
                    if (!consistent(*root) || !root->fresh) break;
                    const size_t n = size_t(root->length), b = r.below(n + 1), e = b + r.below(n - b + 1);
                    note(vt::fmt("slice(%zu, %zu)", b, e));
                    sp::arrow_proxy c = px->slice(b, e);
                    auto m = copied(*root);
                    same_bytes(c, *px, *root, *m);
                    m->offset += int64_t(b); m->length = int64_t(e - b); recount(*m);
                    if (!has_bm(m->format) && m->format != "n") m->nulls_known = false;
                    verify(c, *m, "slice");
                    verify(*px, *root);
                    if (r.chance(1, 2)) { m->nulls = c.null_count(); m->nulls_known = true; replace(std::move(c), std::move(m)); verify(*px, *root); }
                    vt::cover("edit:slice");
                    break;
                }
            }
        }
    };
    void machine(vt::Case& cs)
    {
        Rng& r = cs.rng;
        g_trace.clear();
        TD t = gen_t(r);
        Col c = gen_col(t, gen_len(r), r, r.pick({0, 30, 100}));
        Machine m(r);
        auto src = std::make_shared<Src>();
        // what the root is made of, and who owns it
        ArrowArray a{}; ArrowSchema s{};
        const int made = int(r.below(6));   // mostly by the library; foreign schema; foreign array
        ArrowArray fa{}; ArrowSchema fs{};
        {
            auto [x, y] = sp::extract_arrow_structures(sb::build(t, c, r));
            a = x; s = y;
            if (made >= 4)
            {
                fp::ProdOpts po; po.bool_bytes = true;
                fp::Producer p(src->tr, r, po);
                p.schema(t, fs); p.array(t, c, fa);
                src->foreign = true;
                if (made == 4) std::swap(s, fs); else std::swap(a, fa);
                // the other halves are not part of this
                if (fa.release) fa.release(&fa);
                if (fs.release) fs.release(&fs);
            }
        }
        const int owner = int(r.below(4));
        if (owner <= 1) m.px.emplace(std::move(a), std::move(s));
        else
        {
            src->a = a; src->s = s;
            src->lent_s = true; src->lent_a = owner == 3;
            if (owner == 2) m.px.emplace(std::move(src->a), &src->s);
            else m.px.emplace(&src->a, &src->s);
        }
        m.root = capture(*m.px);
        if (made >= 4 || owner >= 2) m.root->src = src;
        if (made >= 4) src->foreign = false;   // one half was released above: account for it at the end only
        const std::string start = td_str(t) + vt::fmt(" made %d owner %d n %zu", made, owner, c.size());
        g_trace = start;
        vt::label("start");
        verify(*m.px, *m.root);
        for (size_t i = 0, k = 4 + r.below(cs.thorough ? 40 : 16); i < k; ++i) m.step();
        vt::label("destroy");
        g_trace += "; destroyed";
        m.px.reset();
        auto old = std::move(m.root);
        detached(*old);
        vt::check(src->tr.errors.empty() && src->tr.all_released(), "root-release", g_trace);
        vt::distinct(vt::fnv(g_trace));
        if (r.chance(1, 200)) vt::sample(g_trace);
    }
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, machine);
}
