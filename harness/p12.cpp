// P12: bitsets behave like a sequence of bools with an exact null count (lockstep with std::vector<bool>).
#include "track.hpp"
#include "sparrow/buffer/dynamic_bitset.hpp"
#include <list>
namespace sp = sparrow;
using vt::Rng;
using Model = std::vector<bool>;

template <class B> void probe(B& b, const Model& m, const char* op, Rng& r)
{
    const std::string k = op;
    const B& c = b;
    const size_t n = m.size();
    if (!vt::check(c.size() == n, "size after " + k, vt::fmt("%zu want %zu", c.size(), n))) return;
    vt::check(c.empty() == (n == 0), "empty after " + k);
    size_t nulls = 0;
    for (bool x : m) nulls += !x;
    vt::check(c.null_count() == nulls, "null count after " + k, vt::fmt("%zu want %zu", c.null_count(), nulls));
    for (size_t i = 0; i < n; ++i)
        if (!vt::check(c.test(i) == m[i], "bit after " + k, vt::fmt("index %zu of %zu", i, n))) return;
    vt::check(c.end() - c.begin() == std::ptrdiff_t(n), "end - begin after " + k, vt::fmt("%td want %zu", c.end() - c.begin(), n));
    vt::check(std::distance(c.cbegin(), c.cend()) == std::ptrdiff_t(n), "distance after " + k);
    vt::check(c.block_count() >= (n + sizeof(typename B::block_type) * 8 - 1) / (sizeof(typename B::block_type) * 8) || c.data() == nullptr, "block count after " + k);
    vt::cover("states");
    if (!r.chance(1, 4)) return;
    // walk in both directions, random jumps, comparisons
    size_t i = 0;
    for (auto it = c.begin(); it != c.end() && i <= n; ++it, ++i)
        if (i < n) vt::check(*it == m[i], "forward iteration");
    vt::check(i == n, "forward iteration length", vt::fmt("%zu want %zu", i, n));
    i = n;
    for (auto it = c.end(); i > 0;) { --it; --i; vt::check(*it == m[i], "backward iteration"); vt::check(it - c.begin() == std::ptrdiff_t(i), "backward position"); }
    i = n;
    for (auto it = std::make_reverse_iterator(c.end()); it != std::make_reverse_iterator(c.begin()) && i > 0; ++it) { --i; vt::check(*it == m[i], "reverse iterator"); }
    for (size_t t = 0; t < 6; ++t)
    {
        std::ptrdiff_t p = std::ptrdiff_t(r.below(n + 1)), q = std::ptrdiff_t(r.below(n + 1));
        auto ip = c.begin() + p;
        auto iq = ip;
        iq += q - p;
        vt::check(iq - ip == q - p && ip - iq == p - q, "difference", vt::fmt("%td %td", p, q));
        vt::check(iq == c.begin() + q, "advance inverse");
        vt::check((iq - (q - p)) == ip, "subtract");
        vt::check((ip < iq) == (p < q) && (ip > iq) == (p > q) && (ip <= iq) == (p <= q) && (ip >= iq) == (p >= q) && (ip == iq) == (p == q), "iterator order");
        if (q < std::ptrdiff_t(n)) { vt::check(*iq == m[size_t(q)], "jump"); vt::check(ip[q - p] == m[size_t(q)], "subscript"); auto o = iq; auto old = iq++; vt::check(old == o && iq - o == 1, "post increment"); auto d = iq--; vt::check(iq == o && d - o == 1, "post decrement"); }
    }
    if (n) { vt::check(c.front() == m.front() && c.back() == m.back(), "front/back"); vt::check(c[n - 1] == m[n - 1], "const subscript"); }
    auto throws = [&](auto&& f) { try { f(); } catch (const std::out_of_range&) { return true; } return false; };
    vt::check(throws([&] { (void) c.at(n + r.below(3)); }), "at() beyond the end");
    if (n) { size_t x = r.below(n); vt::check(c.at(x) == m[x], "at"); }
    vt::cover("walks");
}
// writes allowed on anything mutable
template <class B> const char* write_op(B& b, Model& m, Rng& r)
{
    const size_t n = m.size();
    if (n == 0) return "nothing";
    const size_t i = r.below(n), j = r.below(n);
    const bool v = r.chance(1, 2);
    switch (r.below(12))
    {
        case 0: b.set(i, v); m[i] = v; return "set";
        case 1: b[i] = v; m[i] = v; return "ref=";
        case 2: b.at(i) = v; m[i] = v; return "at=";
        case 3: b[i] &= v; m[i] = m[i] && v; return "&=";
        case 4: b[i] |= v; m[i] = m[i] || v; return "|=";
        case 5: b[i] ^= v; m[i] = m[i] != v; return "^=";
        case 6: b[i] = b[j]; m[i] = bool(m[j]); return "ref=ref";
        case 7: { auto it = b.begin() + std::ptrdiff_t(i); *it = v; m[i] = v; return "iterator write"; }
        case 8: { b.front() = v; m.front() = v; return "front="; }
        case 9: { b.back() = v; m.back() = v; return "back="; }
        case 10: vt::check(~b[i] == !m[i], "operator~"); vt::check((b[i] == b[j]) == (m[i] == m[j]), "ref=="); vt::check((b[i] == v) == (m[i] == v), "ref==bool"); return "ref read";
        default: { auto it = b.end(); it -= std::ptrdiff_t(n - i); *it = v; m[i] = v; return "iterator write from end"; }
    }
}
inline size_t some_size(Rng& r) { return r.pick({0, 1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 70, 128, 130}); }
inline Model bits(size_t n, Rng& r) { Model m(n); const unsigned p = r.pick({0u, 20u, 50u, 90u, 100u}); for (size_t i = 0; i < n; ++i) m[i] = r.below(100) < p; return m; }

// size-changing operations, on owning and borrowing bitsets
template <class B> const char* edit_op(B& b, Model& m, Rng& r)
{
    const size_t n = m.size(), pos = r.below(n + 1);
    const auto at = [&](auto it, const char* w) { vt::check(it - b.begin() == std::ptrdiff_t(pos), std::string("position returned by ") + w, vt::fmt("%td want %zu", it - b.begin(), pos)); };
    const bool v = r.chance(1, 2);
    const auto cp = b.cbegin() + std::ptrdiff_t(pos);
    const auto mp = m.begin() + std::ptrdiff_t(pos);
    if (n > 400) { b.clear(); m.clear(); return "clear"; }
    switch (r.below(13))
    {
        case 12: { Model x = bits(r.pick({0, 1, 3, 8, 17}), r); size_t q = 0; at(b.insert(cp, tk::SinglePass<bool>{&x, &q}, tk::SinglePass<bool>{}), "insert(single pass)"); m.insert(mp, x.begin(), x.end()); return "insert(single pass)"; }
        case 0: b.push_back(v); m.push_back(v); return "push_back";
        case 1: if (n) { b.pop_back(); m.pop_back(); } return "pop_back";
        case 2: at(b.insert(cp, v), "insert"); m.insert(mp, v); return "insert";
        case 3: { size_t k = r.pick({0, 1, 2, 7, 8, 9, 20}); at(b.insert(cp, k, v), "insert(n)"); m.insert(mp, k, v); return k ? "insert(n)" : "insert(0)"; }
        case 4: { Model x = bits(r.pick({0, 1, 3, 8, 17}), r); at(b.insert(cp, x.begin(), x.end()), "insert(range)"); m.insert(mp, x.begin(), x.end()); return x.empty() ? "insert(empty range)" : "insert(range)"; }
        case 5: { Model y = bits(r.pick({1, 3, 8}), r); std::list<bool> x(y.begin(), y.end()); at(b.insert(cp, x.begin(), x.end()), "insert(list)"); m.insert(mp, x.begin(), x.end()); return "insert(list)"; }
        case 6: at(b.emplace(cp, v), "emplace"); m.insert(mp, v); return "emplace";
        case 7: if (pos < n) { at(b.erase(cp), "erase"); m.erase(mp); } return "erase";
        case 8: { size_t e = pos + r.below(n - pos + 1); at(b.erase(cp, b.cbegin() + std::ptrdiff_t(e)), "erase(range)"); m.erase(mp, m.begin() + std::ptrdiff_t(e)); return "erase(range)"; }
        case 9: { size_t k = some_size(r); b.resize(k); m.resize(k); return "resize"; }
        case 10: { size_t k = some_size(r); b.resize(k, v); m.resize(k, v); return "resize(v)"; }
        default: if (r.chance(1, 4)) { b.clear(); m.clear(); } return "clear";
    }
}

template <class T> std::string owning(Rng& r)
{
    using B = sp::dynamic_bitset<T>;
    std::string hist = "own";
    std::vector<std::unique_ptr<B>> bs;
    std::vector<Model> ms;
    auto make = [&]
    {
        Model m = bits(some_size(r), r);
        const size_t n = m.size();
        B* b = nullptr;
        switch (r.below(6))
        {
            case 0: m.clear(); b = new B(); break;
            case 1: m.assign(n, false); b = new B(n); break;
            case 2: { bool v = r.chance(1, 2); m.assign(n, v); b = new B(n, v); break; }
            case 3: case 4:
            {
                // adopted memory; bits past the end hold garbage
                const size_t bc = B::compute_block_count(n);
                T* p = std::allocator<T>().allocate(bc);
                for (size_t i = 0; i < bc; ++i) p[i] = T(r.next());
                size_t nulls = 0;
                for (size_t i = 0; i < n; ++i) { T mask = T(T(1) << (i % (sizeof(T) * 8))); T& x = p[i / (sizeof(T) * 8)]; x = m[i] ? T(x | mask) : T(x & ~mask); nulls += !m[i]; }
                b = r.chance(1, 2) ? new B(p, n) : new B(p, n, nulls);
                break;
            }
            default: b = new B(m);
        }
        bs.emplace_back(b);
        ms.push_back(m);
        probe(*b, m, "construction", r);
    };
    make();
    for (size_t s = 0, steps = 4 + r.below(26); s < steps; ++s)
    {
        const size_t k = r.below(bs.size());
        const char* op;
        hist += std::to_string(ms[k].size());
        switch (r.below(8))
        {
            case 0: case 1: op = write_op(*bs[k], ms[k], r); break;
            case 2: case 3: case 4: case 5: op = edit_op(*bs[k], ms[k], r); break;
            case 6:
                op = "copy/move/swap";
                if (bs.size() < 3) { if (r.chance(1, 2)) make(); else { bs.emplace_back(new B(*bs[k])); ms.push_back(ms[k]); } }
                else
                {
                    const size_t o = r.below(bs.size());
                    switch (r.below(4))
                    {
                        case 0: *bs[k] = std::as_const(*bs[o]); ms[k] = Model(ms[o]); break;
                        case 1: { B t(*bs[o]); *bs[k] = std::move(t); ms[k] = Model(ms[o]); break; }
                        case 2: { B t(std::move(*bs[k])); probe(t, ms[k], "move", r); *bs[k] = std::move(t); break; }
                        default: if (o != k) { bs[k]->swap(*bs[o]); std::swap(ms[k], ms[o]); }
                    }
                }
                break;
            default:
                op = "extract_storage";
                {
                    B t(*bs[k]);
                    const size_t n = t.size();
                    auto st = t.extract_storage();
                    for (size_t i = 0; i < n; ++i) vt::check(bool((st[i / (sizeof(T) * 8)] >> (i % (sizeof(T) * 8))) & 1) == ms[k][i], "extracted storage");
                }
        }
        hist += op;
        vt::cover(op);
        for (size_t j = 0; j < bs.size(); ++j) probe(*bs[j], ms[j], op, r);
    }
    return hist;
}
template <class T> std::string borrowing(Rng& r)
{
    // over a buffer that may be larger than the bitset needs
    using B = sp::non_owning_dynamic_bitset<T>;
    std::string hist = "borrow";
    Model m = bits(some_size(r), r);
    const size_t w = sizeof(T) * 8;
    sp::buffer<T> buf((m.size() + w - 1) / w, T(0));
    for (auto& x : buf) x = T(r.next());
    for (size_t i = 0; i < m.size(); ++i) { T mask = T(T(1) << (i % w)); buf[i / w] = m[i] ? T(buf[i / w] | mask) : T(buf[i / w] & ~mask); }
    {
        B b(&buf, m.size());
        probe(b, m, "construction", r);
        for (size_t s = 0, steps = 3 + r.below(20); s < steps; ++s)
        {
            hist += std::to_string(m.size());
            const char* op = r.chance(1, 3) ? write_op(b, m, r) : edit_op(b, m, r);
            hist += op;
            vt::cover(op);
            probe(b, m, op, r);
            vt::check(buf.size() >= (m.size() + w - 1) / w, "borrowed buffer is large enough");
            for (size_t i = 0; i < m.size(); ++i) if (!vt::check(bool((buf[i / w] >> (i % w)) & 1) == m[i], "borrowed buffer bit")) break;
        }
    }
    // a second borrower sees the same bits
    B b2(&buf, m.size());
    probe(b2, m, "second borrower", r);
    return hist;
}
// no memory at all: every bit is set until something else has to be stored
template <class T> std::string absent(Rng& r)
{
    using B = sp::non_owning_dynamic_bitset<T>;
    Model m(1 + some_size(r), true);
    std::string hist = "absent" + std::to_string(m.size());
    const size_t w = sizeof(T) * 8;
    sp::buffer<T> buf;
    B b(&buf, m.size());
    auto ends = [&] { const B& c = b; if (!m.empty()) vt::check(bool(c.front()) == m.front() && bool(c.back()) == m.back() && bool(b.front()) == m.front() && bool(b.back()) == m.back(), "front/back of an absent bitset"); };
    probe(b, m, "absent construction", r); ends();
    for (size_t s = 0, steps = 1 + r.below(10); s < steps; ++s)
    {
        const bool mem = b.data() != nullptr;
        const size_t n = m.size(), i = n ? r.below(n) : 0;
        const char* op = "nothing";
        hist += std::to_string(n);
        switch (r.below(mem ? 9 : 7))
        {
            case 0: if (n) { b.set(i, true); m[i] = true; op = "set(true)"; } break;
            case 1: if (n) { b[i] = true; m[i] = true; op = "ref=true"; } break;
            case 2: case 3: { size_t e = i + r.below(n - i + 1); auto it = b.erase(b.cbegin() + std::ptrdiff_t(i), b.cbegin() + std::ptrdiff_t(e)); vt::check(it - b.begin() == std::ptrdiff_t(i), "position returned by erase of absent bits"); m.erase(m.begin() + std::ptrdiff_t(i), m.begin() + std::ptrdiff_t(e)); op = "erase(range)"; break; }
            case 4: if (n) { b.pop_back(); m.pop_back(); op = "pop_back"; } break;
            case 5: { size_t k = r.below(n + 1); b.resize(k); m.resize(k); op = "resize down"; break; }
            case 6: if (r.chance(1, 2)) { op = edit_op(b, m, r); } break;
            case 7: op = write_op(b, m, r); break;
            default: op = edit_op(b, m, r);
        }
        hist += op;
        if (!mem) vt::cover(std::string("absent ") + op);
        probe(b, m, op, r); ends();
        if (b.data() != nullptr) for (size_t q = 0; q < m.size(); ++q) if (!vt::check(bool((buf[q / w] >> (q % w)) & 1) == m[q], "bit stored by a bitset which was absent")) break;
    }
    return hist;
}
template <class T> std::string viewing(Rng& r)
{
    const size_t w = sizeof(T) * 8;
    std::string hist = "view";
    Model m = bits(some_size(r), r);
    const size_t n = m.size(), bc = (n + w - 1) / w;
    std::unique_ptr<T[]> mem(new T[bc]);   // exactly sized: one block further is out of bounds
    for (size_t i = 0; i < bc; ++i) mem[i] = T(r.next());
    for (size_t i = 0; i < n; ++i) { T mask = T(T(1) << (i % w)); mem[i / w] = m[i] ? T(mem[i / w] | mask) : T(mem[i / w] & ~mask); }
    std::vector<T> before(mem.get(), mem.get() + bc);
    size_t nulls = 0;
    for (bool x : m) nulls += !x;
    hist += std::to_string(n);
    auto intact = [&](const char* op)
    {
        for (size_t i = 0; i < n; ++i) if (!vt::check(bool((mem[i / w] >> (i % w)) & 1) == m[i], std::string("viewed memory after ") + op)) return;
        if (n % w) vt::check(T(mem[bc - 1] >> (n % w)) == T(before[bc - 1] >> (n % w)), std::string("bits past the end of the view were changed by ") + op);
    };
    {
        sp::dynamic_bitset_view<const T> c = r.chance(1, 2) ? sp::dynamic_bitset_view<const T>(mem.get(), n) : sp::dynamic_bitset_view<const T>(mem.get(), n, nulls);
        probe(c, m, "const view", r);
    }
    intact("a const view");
    {
        sp::dynamic_bitset_view<T> v = r.chance(1, 2) ? sp::dynamic_bitset_view<T>(mem.get(), n) : sp::dynamic_bitset_view<T>(mem.get(), n, nulls);
        probe(v, m, "view", r);
        intact("making a view");
        for (size_t s = 0, steps = r.below(12); s < steps; ++s)
        {
            const char* op = write_op(v, m, r);
            hist += op;
            vt::cover(std::string("view ") + op);
            probe(v, m, op, r);
            intact(op);
        }
        sp::dynamic_bitset_view<T> v2(v);
        probe(v2, m, "view copy", r);
    }
    {
        // absent memory: every bit reads as set
        const sp::dynamic_bitset_view<const T> nv(static_cast<const T*>(nullptr), n);
        Model all(n, true);
        vt::check(nv.size() == n && nv.null_count() == 0, "absent bitmap size/null count");
        for (size_t i = 0; i < n; ++i) vt::check(nv.test(i) && nv[i] && nv.at(i), "absent bitmap bit");
        size_t cnt = 0;
        for (size_t i = 0; i < n; ++i) { auto it = nv.begin() + std::ptrdiff_t(i); vt::check(*it, "absent bitmap iteration"); ++cnt; }
        vt::check(nv.end() - nv.begin() == std::ptrdiff_t(n), "absent bitmap end - begin", vt::fmt("%td want %zu", nv.end() - nv.begin(), n));
        size_t len = 0;
        for (auto it = nv.begin(); it != nv.end() && len <= n; ++it) { vt::check(*it, "absent bitmap bit by iterator"); ++len; }
        vt::check(len == n, "absent bitmap iteration length");
        vt::cover("absent bitmaps");
    }
    return hist;
}
template <class T> void scenario(vt::Case& cs)
{
    std::string h;
    switch (cs.rng.below(9))
    {
        case 8: vt::label("absent"); h = absent<T>(cs.rng); break;
        case 0: case 1: case 2: case 3: vt::label("owning"); h = owning<T>(cs.rng); break;
        case 4: case 5: vt::label("borrowing"); h = borrowing<T>(cs.rng); break;
        default: vt::label("viewing"); h = viewing<T>(cs.rng);
    }
    vt::distinct(vt::fnv(h, sizeof(T)));
    vt::sample(h);
}
void run1(vt::Case&); void run2(vt::Case&); void run4(vt::Case&); void run8(vt::Case&);
#if VT_PART == 1
void run1(vt::Case& c) { scenario<uint8_t>(c); }
#elif VT_PART == 2
void run2(vt::Case& c) { scenario<uint16_t>(c); }
#elif VT_PART == 3
void run4(vt::Case& c) { scenario<uint32_t>(c); }
#elif VT_PART == 4
void run8(vt::Case& c) { scenario<uint64_t>(c); }
#else
VT_MAIN_DEFS
// more bits than fit in an int
void huge(vt::Case& cs)
{
    using B = sp::dynamic_bitset<uint64_t>;
    vt::label("huge");
    const size_t n = (size_t(1) << 31) + 3 + cs.rng.below(200), zeros = cs.index == 0 ? 0 : 1 + cs.rng.below(9);
    B b(n, true);
    auto ck = [&](const B& x, size_t want, const char* w) { vt::check(x.null_count() == want, std::string("null count of a huge bitset after ") + w, vt::fmt("%zu want %zu of %zu", x.null_count(), want, x.size())); vt::cover("huge states"); };
    ck(b, 0, "construction");
    for (size_t i = 0; i < zeros; ++i) b.set(n - 1 - i, false);
    ck(b, zeros, "set");
    b.resize(n + 70, true); ck(b, zeros, "resize");
    b.push_back(false); ck(b, zeros + 1, "push_back");
    vt::check(!b.test(n + 70) && b.test(n + 69) && b.test(0) && b.test(size_t(1) << 31), "bits of a huge bitset");
    B c(b); ck(c, zeros + 1, "copy");
    sp::dynamic_bitset_view<const uint64_t> v(b.data(), n); ck(B(n, false), n, "construction with false");
    vt::check(v.null_count() == zeros, "null count of a huge view", vt::fmt("%zu want %zu", v.null_count(), zeros));
    b.resize(100); ck(b, 0, "shrinking");
    vt::distinct(n); vt::sample(vt::fmt("%zu bits", n));
}
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        if (cs.mode == "huge") return huge(cs);
        switch (cs.rng.below(5)) { case 0: return run2(cs); case 1: return run4(cs); case 2: return run8(cs); default: return run1(cs); }
    });
}
#endif
