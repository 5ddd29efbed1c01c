// P13: typed adaptors over byte buffers, and typed buffers with byte storage, behave like std::vector of the type.
// Reference execution on std::vector, byte image comparison after every step, storage address and leak monitors.
#include "track.hpp"
#include "sparrow/buffer/buffer_adaptor.hpp"
#include "sparrow/buffer/buffer.hpp"
#include "sparrow/buffer/buffer_view.hpp"
#include "sparrow/buffer/u8_buffer.hpp"
#include <list>
#include <sstream>
#include <vector>
#include <cstring>
namespace sp = sparrow;
using vt::Rng;

struct Vec3 { float x, y, z; bool operator==(const Vec3&) const = default; };
struct Blob { uint8_t b[49]; bool operator==(const Blob&) const = default; };
struct Pod3 { uint8_t a, b, c; bool operator==(const Pod3&) const = default; };

template <class T> T mk(Rng& r)
{
    if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2);
    else if constexpr (std::is_arithmetic_v<T>) return T(r.next() >> 40) ;
    else { T t; uint8_t* p = reinterpret_cast<uint8_t*>(&t); if constexpr (std::is_same_v<T, Vec3>) { t.x = float(r.below(100)); t.y = float(r.below(100)); t.z = -1.5f; } else for (size_t i = 0; i < sizeof(T); ++i) p[i] = uint8_t(r.next()); return t; }
}
template <class T> std::vector<T> values(size_t n, Rng& r) { std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back(mk<T>(r)); return v; }
inline size_t nsz(Rng& r) { return size_t(r.pick({0, 0, 1, 2, 3, 4, 7, 8, 16, 33})); }
// vector without the bool specialisation
template <class T> struct Cell { T v; bool operator==(const Cell&) const = default; };
template <class T> using Model = std::vector<Cell<T>>;
template <class T> Model<T> model(const std::vector<T>& v) { Model<T> m; for (auto x : v) m.push_back({x}); return m; }
template <class T> Model<T> model(const T& v, size_t n) { Model<T> m; for (size_t i = 0; i < n; ++i) m.push_back({v}); return m; }

template <class T, class A> void same_const(const A& a, const Model<T>& m, const std::string& k)
{
    if (!vt::check(a.size() == m.size(), "size after " + k, vt::fmt("%zu want %zu", size_t(a.size()), m.size()))) return;
    vt::check(a.empty() == m.empty(), "empty after " + k);
    vt::check(a.capacity() >= a.size() , "capacity after " + k);
    vt::check(size_t(a.end() - a.begin()) == m.size() && size_t(a.cend() - a.cbegin()) == m.size(), "end - begin after " + k);
    for (size_t i = 0; i < m.size(); ++i)
        if (!(a[i] == m[i].v)) { vt::violation("contents after " + k, vt::fmt("index %zu of %zu", i, m.size())); return; }
    if (!m.empty())
    {
        vt::check(a.front() == m.front().v && a.back() == m.back().v, "front/back after " + k);
        vt::check(std::memcmp(a.data(), m.data(), m.size() * sizeof(T)) == 0, "byte image after " + k);
    }
    size_t i = 0;
    for (auto it = a.begin(); it != a.end(); ++it, ++i) if (!(*it == m[i].v)) { vt::violation("iteration after " + k); return; }
    for (auto it = a.crbegin(); it != a.crend(); ++it) { --i; if (!(*it == m[i].v)) { vt::violation("reverse iteration after " + k); return; } }
    vt::check(i == 0, "reverse iteration length after " + k);
    vt::cover("checks");
}
template <class T, class A> void same(A& a, const Model<T>& m, const std::string& k)
{
    same_const<T>(std::as_const(a), m, k);
    vt::check(size_t(a.end() - a.begin()) == m.size(), "mutable end - begin after " + k);
    if (!m.empty() && a.size() == m.size())
    {
        vt::check(&a.front() == a.data() && &a.back() == a.data() + (m.size() - 1) && &a[m.size() / 2] == a.data() + m.size() / 2, "mutable references after " + k);
        vt::check(&*a.begin() == a.data() && &*a.rbegin() == &a.back(), "mutable iterators after " + k);
    }
}

// one random operation
template <class T, class A> std::string op(A& a, Model<T>& m, Rng& r)
{
    const size_t n = m.size(), pos = r.below(n + 1);
    const auto cp = a.cbegin() + std::ptrdiff_t(pos);
    const auto mp = m.begin() + std::ptrdiff_t(pos);
    std::string name;
    const auto at = [&](auto it) { vt::check(it - a.begin() == std::ptrdiff_t(pos), "position returned by " + name, vt::fmt("%td want %zu", std::ptrdiff_t(it - a.begin()), pos)); };
    if (n > 300) { a.clear(); m.clear(); return "clear"; }
    switch (r.below(21))
    {
        case 0: name = "push_back"; { T v = mk<T>(r); a.push_back(v); m.push_back({v}); } break;
        case 1: name = "push_back(own element)"; if (n) { size_t q = r.below(n); auto c = m[q]; a.push_back(std::as_const(a)[q]); m.push_back(c); } break;
        case 2: name = "pop_back"; if (n) { a.pop_back(); m.pop_back(); } break;
        case 3: name = "insert"; { T v = mk<T>(r); at(a.insert(cp, v)); m.insert(mp, {v}); } break;
        case 4: name = "insert(own element)"; if (n) { size_t q = r.below(n); auto c = m[q]; at(a.insert(cp, std::as_const(a)[q])); m.insert(mp, c); } break;
        case 5: name = "insert(n)"; { T v = mk<T>(r); size_t k = nsz(r); at(a.insert(cp, k, v)); m.insert(mp, k, {v}); } break;
        case 6: name = "insert(n, own element)"; if (n) { size_t q = r.below(n), k = r.below(5); auto c = m[q]; at(a.insert(cp, k, std::as_const(a)[q])); m.insert(mp, k, c); } break;
        case 7: name = "insert(range)"; { auto v = values<T>(nsz(r), r); auto x = model<T>(v); at(a.insert(cp, v.begin(), v.end())); m.insert(mp, x.begin(), x.end()); } break;
        case 8: name = "insert(list)"; { auto v = values<T>(nsz(r), r); std::list<T> l(v.begin(), v.end()); auto x = model<T>(v); at(a.insert(cp, l.begin(), l.end())); m.insert(mp, x.begin(), x.end()); } break;
        case 9: name = "insert(ilist)"; { T x = mk<T>(r), y = mk<T>(r); at(a.insert(cp, {x, y, x})); m.insert(mp, {{x}, {y}, {x}}); } break;
        case 10: name = "emplace"; { T v = mk<T>(r); at(a.emplace(cp, v)); m.insert(mp, {v}); } break;
        case 11: name = "emplace(own element)"; if (n) { size_t q = r.below(n); auto c = m[q]; at(a.emplace(cp, std::as_const(a)[q])); m.insert(mp, c); } break;
        case 12: name = "erase"; if (pos < n) { at(a.erase(cp)); m.erase(mp); } break;
        case 13: { size_t e = pos + r.below(n - pos + 1); name = e == pos ? (pos == n ? "erase(empty range at end)" : "erase(empty range)") : "erase(range)"; at(a.erase(cp, a.cbegin() + std::ptrdiff_t(e))); m.erase(mp, m.begin() + std::ptrdiff_t(e)); break; }
        case 14: name = "resize"; { size_t k = nsz(r); const size_t keep = std::min(k, n); a.resize(k); m.resize(keep); for (size_t i = keep; i < k && i < a.size(); ++i) { T z; std::memset(&z, 0, sizeof z); m.push_back({z}); } } break;
        case 15: name = "resize(value)"; { size_t k = nsz(r); T v = mk<T>(r); a.resize(k, v); m.resize(k, {v}); } break;
        case 16: name = "resize(own element)"; if (n) { size_t q = r.below(n), k = r.chance(1, 3) ? r.below(n) : n + nsz(r); auto c = m[q]; a.resize(k, std::as_const(a)[q]); m.resize(k, c); } break;
        case 17:
            if (r.chance(1, 2)) { name = "reserve"; size_t k = nsz(r) * 2; a.reserve(k); vt::check(a.capacity() >= k, "capacity after reserve"); const T* d = a.data(); while (m.size() < k) { T v = mk<T>(r); a.push_back(v); m.push_back({v}); } if (k) vt::check(d == a.data(), "reserved storage was reallocated"); }
            else { name = "shrink_to_fit"; a.shrink_to_fit(); vt::check(a.capacity() == a.size(), "capacity after shrink_to_fit"); }
            break;
        case 19: name = "insert(single pass)"; { auto v = values<T>(nsz(r), r); size_t q = 0; at(a.insert(cp, tk::SinglePass<T>{&v, &q}, tk::SinglePass<T>{})); auto x = model<T>(v); m.insert(mp, x.begin(), x.end()); } break;
        case 18: name = "clear"; if (r.chance(1, 3)) { a.clear(); m.clear(); } break;
        default: name = "write"; if (n) { size_t q = r.below(n); T v = mk<T>(r); switch (r.below(4)) { case 0: a[q] = v; break; case 1: *(a.begin() + std::ptrdiff_t(q)) = v; break; case 2: a.data()[q] = v; break; default: q = r.chance(1, 2) ? 0 : n - 1; (q ? a.back() : a.front()) = v; } m[q] = {v}; }
    }
    return name;
}

template <class T> void scenario(vt::Case& cs)
{
    Rng& r = cs.rng;
    std::string hist;
    const auto bytes_are = [&](const auto& buf, const Model<T>& m, const std::string& k)
    {
        if (!vt::check(buf.size() == m.size() * sizeof(T), "size of the byte buffer after " + k, vt::fmt("%zu want %zu", buf.size(), m.size() * sizeof(T)))) return;
        if (!m.empty()) vt::check(std::memcmp(buf.data(), m.data(), buf.size()) == 0, "bytes of the buffer after " + k);
    };
    const unsigned kind = unsigned(r.below(4));
    if (kind < 2)
    {
        // adaptor over a byte buffer
        auto v = model<T>(values<T>(nsz(r), r));
        sp::buffer<uint8_t> buf(v.size() * sizeof(T));
        if (!v.empty()) std::memcpy(buf.data(), v.data(), buf.size());
        sp::buffer_adaptor<T, sp::buffer<uint8_t>&> a = r.chance(1, 2) ? sp::make_buffer_adaptor<T>(buf) : sp::buffer_adaptor<T, sp::buffer<uint8_t>&>(buf);
        vt::check(a.max_size() == buf.max_size() / sizeof(T), "max_size");
        same<T>(a, v, "construction");
        for (size_t s = 0, steps = 3 + r.below(25); s < steps; ++s)
        {
            hist += vt::fmt("%zu", v.size());
            const std::string o = op<T>(a, v, r);
            hist += o;
            same<T>(a, v, o);
            bytes_are(buf, v, o);
            const auto& cb = buf;
            auto ca = sp::make_buffer_adaptor<T>(cb);
            same_const<T>(ca, v, o + " (const adaptor)");
            const sp::buffer_adaptor<T, sp::buffer<uint8_t>&> a2(buf);   // a second adaptor on the same bytes sees the same
            same_const<T>(a2, v, o + " (second adaptor)");
            vt::cover("adaptor " + o);
        }
    }
    else if (kind == 2)
    {
        // typed buffer with byte storage
        using U = sp::u8_buffer<T>;
        auto v = values<T>(nsz(r), r);
        Model<T> m = model<T>(v);
        std::unique_ptr<U> u;
        switch (r.below(6))
        {
            case 0: { T x = mk<T>(r); m = model<T>(x, v.size()); u.reset(new U(v.size(), x)); hist = "n,value"; break; }
            case 1: { T z{}; m = model<T>(z, v.size()); u.reset(new U(v.size())); hist = "n"; break; }
            case 2: { std::list<T> l(v.begin(), v.end()); u.reset(new U(l)); hist = "list"; break; }
            case 3: { T x = mk<T>(r), y = mk<T>(r); m = model<T>(std::vector<T>{x, y, x}); u.reset(new U({x, y, x})); hist = "ilist"; break; }
            case 4: { u.reset(new U(v | std::views::transform([](const auto& e) { return T(e); }))); hist = "view"; break; }
            default: u.reset(new U(v)); hist = "range";
        }
        same<T>(*u, m, "construction from " + hist);
        vt::cover("typed buffer from " + hist);
        for (size_t s = 0, steps = r.below(12); s < steps; ++s)
        {
            std::string o;
            switch (r.below(6))
            {
                case 0:
                {
                    o = "copy construction";
                    U c(std::as_const(*u));
                    same<T>(c, m, o);
                    if (!m.empty()) vt::check(c.data() != u->data(), "copy shares storage");
                    Model<T> cm = m;
                    for (int q = 0; q < 3; ++q) { op<T>(c, cm, r); same<T>(c, cm, "edit of a copy"); same<T>(*u, m, "edit of a copy"); }
                    break;
                }
                case 1:
                {
                    o = "move construction";
                    const T* d = u->data();
                    std::unique_ptr<U> t(new U(std::move(*u)));
                    vt::check(m.empty() || t->data() == d, "moving copied the storage");
                    u = std::move(t);
                    break;
                }
                case 2:
                {
                    o = "storage extraction";
                    const void* d = u->data();
                    sp::buffer<uint8_t> b = std::move(*u).extract_storage();
                    vt::check(m.empty() || static_cast<const void*>(b.data()) == d, "extraction copied the storage");
                    bytes_are(b, m, o);
                    Model<T> nm = m;
                    std::vector<T> back;
                    for (size_t i = 0; i < nm.size(); ++i) back.push_back(nm[i].v);
                    u.reset(new U(back));
                    break;
                }
                default: o = op<T>(*u, m, r);
            }
            hist += o;
            same<T>(*u, m, o);
            vt::cover("typed buffer " + o);
        }
        sp::buffer<uint8_t> b = std::move(*u).extract_storage();
        bytes_are(b, m, "final extraction");
    }
    else
    {
        // adopted storage: the buffer uses the very memory it was given and gives it back when destroyed
        auto m = model<T>(values<T>(nsz(r), r));
        const size_t nb = m.size() * sizeof(T);
        uint8_t* p = std::allocator<uint8_t>().allocate(nb);
        if (nb) std::memcpy(p, m.data(), nb);
        sp::buffer<uint8_t> buf(p, nb);
        vt::check(buf.data() == p, "adopted storage copied");
        auto a = sp::make_buffer_adaptor<T>(buf);
        same<T>(a, m, "adoption");
        sp::buffer<uint8_t> moved(std::move(buf));
        vt::check(nb == 0 || moved.data() == p, "moving copied adopted storage");
        auto a2 = sp::make_buffer_adaptor<T>(moved);
        for (size_t s = 0, steps = r.below(6); s < steps; ++s) { auto o = op<T>(a2, m, r); hist += o; same<T>(a2, m, o); bytes_are(moved, m, o); }
        // typed view on the bytes
        sp::buffer_view<const uint8_t> bv(std::as_const(moved));
        vt::check(bv.size() == m.size() * sizeof(T), "view size");
        if (!m.empty()) { const T* d = std::as_const(bv).template data<T>(); vt::check(std::memcmp(d, m.data(), bv.size()) == 0, "typed view data"); }
        hist += "adopt";
        vt::cover("adopted storage");
    }
    vt::distinct(vt::fnv(hist, vt::fnv(typeid(T).name())));
    vt::sample(std::string(typeid(T).name()) + ":" + hist);
}

void run0(vt::Case&, unsigned); void run1(vt::Case&, unsigned); void run2(vt::Case&, unsigned); void run3(vt::Case&, unsigned);
#if VT_PART == 1
void run1(vt::Case& c, unsigned k) { switch (k % 3) { case 0: vt::label("int8"); return scenario<int8_t>(c); case 1: vt::label("int16"); return scenario<int16_t>(c); default: vt::label("int32"); return scenario<int32_t>(c); } }
#elif VT_PART == 2
void run2(vt::Case& c, unsigned k) { switch (k % 3) { case 0: vt::label("uint64"); return scenario<uint64_t>(c); case 1: vt::label("float"); return scenario<float>(c); default: vt::label("double"); return scenario<double>(c); } }
#elif VT_PART == 3
void run3(vt::Case& c, unsigned k) { switch (k % 3) { case 0: vt::label("3 bytes"); return scenario<Pod3>(c); case 1: vt::label("12 bytes"); return scenario<Vec3>(c); default: vt::label("49 bytes"); return scenario<Blob>(c); } }
#else
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        const unsigned k = unsigned(cs.rng.below(12));
        switch (k % 4)
        {
            case 0: vt::label("uint8"); return scenario<uint8_t>(cs);
            case 1: return run1(cs, k / 4);
            case 2: return run2(cs, k / 4);
            default: return run3(cs, k / 4);
        }
    });
}
#endif
