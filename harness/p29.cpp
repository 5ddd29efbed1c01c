// P29: a request that cannot be represented (in memory, by offsets, by views) is refused with an exception and changes nothing.
#if VT_PART == 0
#define FI_DEFS
#endif
#include "scen.hpp"
#include "fault.hpp"
#include "sparrow/layout/variable_size_binary_view_array.hpp"
#include "sparrow/builder/builder.hpp"
#include <cstring>
using namespace sc;
namespace big
{
    using u128 = unsigned __int128;
    constexpr size_t LIMIT = size_t(6) << 30; // the memory of the machine
    // a count of elements of `unit` bytes which needs more than the memory: around the powers of two, around the
    // largest sizes, and those which wrap around to something small
    inline size_t huge(Rng& r, size_t unit, size_t already = 0)
    {
        for (;;)
        {
            size_t n = 0;
            const size_t small = r.below(70);
            switch (r.below(6))
            {
                case 0: n = (size_t(1) << (36 + r.below(28))) + small; break;
                case 1: n = (size_t(1) << (36 + r.below(28))) - small; break;
                case 2: n = ~size_t(0) - small; break;
                case 3: n = ~size_t(0) / unit + small - r.below(3); break;
                case 4: n = size_t(u128(1 + r.below(unit)) * (u128(1) << 64) / unit) + small; break; // n * unit wraps to a small number
                default: n = size_t(PTRDIFF_MAX) / unit + small - r.below(35); break;
            }
            if (r.chance(1, 3)) n -= std::min(n, already);
            if (u128(n) * unit > LIMIT && u128(n) > LIMIT / 8) return n;
        }
    }
    // runs f, which must throw
    template <class F> void refused(const char* what, size_t n, F&& f)
    {
        vt::cover("requests"); vt::cover(std::string("refused: ") + what);
        try { f(); }
        catch (const std::exception& e) { vt::LedgerPause q; vt::cover(std::string("thrown: ") + (dynamic_cast<const std::length_error*>(&e) ? "length_error" : dynamic_cast<const std::bad_alloc*>(&e) ? "bad_alloc" : dynamic_cast<const std::overflow_error*>(&e) ? "overflow_error" : "other")); return; }
        vt::violation(std::string("accepted: ") + what, vt::fmt("%zu", n));
    }
    template <class T> T val(Rng& r) { if constexpr (std::is_same_v<T, bool>) return r.chance(1, 2); else return T(r.below(100)); }
    template <class T> std::vector<T> vals(Rng& r) { std::vector<T> v; for (size_t i = 0, n = r.pick({0, 1, 3, 8, 40}); i < n; ++i) v.push_back(val<T>(r)); return v; }
    template <class B, class V> void same(const B& b, const V& m, const char* what)
    {
        bool ok = b.size() == m.size();
        for (size_t i = 0; ok && i < m.size(); ++i) ok = bool(b[i] == m[i]);
        vt::check(ok, std::string("changed by a refused ") + what, vt::fmt("size %zu want %zu", size_t(b.size()), m.size()));
    }
    // an iterator over as many copies of a value as one likes
    template <class T> struct Rep
    {
        using value_type = T; using difference_type = std::ptrdiff_t; using pointer = const T*; using reference = const T&; using iterator_category = std::random_access_iterator_tag;
        const T* v = nullptr; std::ptrdiff_t i = 0;
        const T& operator*() const { return *v; } const T& operator[](std::ptrdiff_t) const { return *v; }
        Rep& operator++() { ++i; return *this; } Rep operator++(int) { Rep o = *this; ++i; return o; } Rep& operator--() { --i; return *this; } Rep operator--(int) { Rep o = *this; --i; return o; }
        Rep& operator+=(std::ptrdiff_t n) { i += n; return *this; } Rep& operator-=(std::ptrdiff_t n) { i -= n; return *this; }
        friend Rep operator+(Rep a, std::ptrdiff_t n) { return a += n; } friend Rep operator+(std::ptrdiff_t n, Rep a) { return a += n; } friend Rep operator-(Rep a, std::ptrdiff_t n) { return a -= n; }
        friend std::ptrdiff_t operator-(const Rep& a, const Rep& b) { return a.i - b.i; }
        friend bool operator==(const Rep& a, const Rep& b) { return a.i == b.i; } friend auto operator<=>(const Rep& a, const Rep& b) { return a.i <=> b.i; }
    };

    template <class T, class B> void edits(B& b, std::vector<T> m, Rng& r)
    {
        for (size_t s = 0, steps = 2 + r.below(6); s < steps; ++s)
        {
            const size_t n = huge(r, sizeof(T), m.size());
            const T v = val<T>(r);
            const auto pos = std::ptrdiff_t(r.below(m.size() + 1));
            const char* what = "";
            const auto* data = b.data();
            switch (r.below(6))
            {
                case 0: what = "resize"; vt::label(what); refused(what, n, [&] { b.resize(n); }); break;
                case 1: what = "resize with a value"; vt::label(what); refused(what, n, [&] { b.resize(n, v); }); break;
                case 2: what = "reserve"; vt::label(what); refused(what, n, [&] { b.reserve(n); }); break;
                case 3: what = "insert of copies"; vt::label(what); refused(what, n, [&] { b.insert(b.cbegin() + pos, n, v); }); break;
                case 4: what = "insert of a long range"; vt::label(what); { const size_t k = std::min(n, size_t(PTRDIFF_MAX)); if (u128(k) * sizeof(T) > LIMIT) refused(what, k, [&] { b.insert(b.cbegin() + pos, Rep<T>{&v, 0}, Rep<T>{&v, std::ptrdiff_t(k)}); }); } break;
                default: what = "size after max_size()"; vt::label(what); if (b.max_size() < ~size_t(0)) refused(what, b.max_size(), [&] { b.resize(b.max_size() + 1 + r.below(3)); });
            }
            same(b, m, what);
            vt::check(b.data() == data, std::string("moved by a refused ") + what);
            // and it goes on working
            if (r.chance(1, 2)) { b.push_back(v); m.push_back(v); same(b, m, "request, then push_back"); }
        }
        vt::distinct(vt::fnv(std::to_string(m.size()), sizeof(T) + r.next() % 1000));
    }
    template <class T> void buffers(Rng& r)
    {
        const std::vector<T> m = vals<T>(r);
        const size_t n = huge(r, sizeof(T));
        switch (r.below(8))
        {
            case 0: vt::label("buffer(n)"); refused("buffer(n)", n, [&] { sp::buffer<T> b(n); vt::check(b.size() == n, "size"); }); break;
            case 1: vt::label("buffer(n, v)"); refused("buffer(n, v)", n, [&] { sp::buffer<T> b(n, val<T>(r)); }); break;
            case 2: vt::label("u8_buffer(n)"); refused("u8_buffer(n)", n, [&] { sp::u8_buffer<T> b(n); }); break;
            case 3: vt::label("u8_buffer(n, v)"); refused("u8_buffer(n, v)", n, [&] { sp::u8_buffer<T> b(n, val<T>(r)); }); break;
            case 4: vt::label("u8_buffer(range)"); { const T v = val<T>(r); const size_t k = std::min(n, size_t(PTRDIFF_MAX)); if (u128(k) * sizeof(T) > LIMIT) refused("u8_buffer(range)", k, [&] { sp::u8_buffer<T> b(std::ranges::subrange(Rep<T>{&v, 0}, Rep<T>{&v, std::ptrdiff_t(k)})); }); break; }
            case 5: { sp::buffer<T> b(m); edits<T>(b, m, r); break; }
            case 6: { sp::u8_buffer<T> b(m); edits<T>(b, m, r); break; }
            default:
            {
                sp::buffer<uint8_t> raw(m.size() * sizeof(T));
                auto a = sp::make_buffer_adaptor<T>(raw);
                for (size_t i = 0; i < m.size(); ++i) a[i] = m[i];
                edits<T>(a, m, r);
            }
        }
        vt::distinct(vt::fnv(std::to_string(n), sizeof(T)));
    }
    template <class T> void bits(Rng& r)
    {
        using B = sp::dynamic_bitset<T>;
        auto hb = [&](size_t already) { size_t n; do n = huge(r, 1, already); while (n / 8 <= LIMIT); return n; };
        std::vector<bool> m = [&] { std::vector<bool> v; for (size_t i = 0, n = r.pick({0, 1, 3, 8, 40, 65}); i < n; ++i) v.push_back(r.chance(1, 2)); return v; }();
        const size_t n = hb(0);
        vt::label("bitset");
        if (r.chance(1, 4)) { refused("bitset(n)", n, [&] { B b(n); }); refused("bitset(n, v)", n, [&] { B b(n, r.chance(1, 2)); }); return; }
        B own(m);
        sp::buffer<T> mem(own.block_count()); for (size_t i = 0; i < mem.size(); ++i) mem[i] = own.data()[i];
        sp::non_owning_dynamic_bitset<T> lent(&mem, m.size());
        auto run = [&](auto& b)
        {
            for (size_t s = 0, steps = 2 + r.below(5); s < steps; ++s)
            {
                const size_t k = hb(m.size());
                const bool v = r.chance(1, 2);
                const char* what = "";
                switch (r.below(3))
                {
                    case 0: what = "bitset.resize(n)"; vt::label(what); refused(what, k, [&] { b.resize(k); }); break;
                    case 1: what = "bitset.resize(n, v)"; vt::label(what); refused(what, k, [&] { b.resize(k, v); }); break;
                    default: what = "bitset.insert"; vt::label(what); refused(what, k, [&] { b.insert(b.cbegin() + std::ptrdiff_t(r.below(m.size() + 1)), k, v); });
                }
                same(std::as_const(b), m, what);
                vt::check(b.null_count() == size_t(std::count(m.begin(), m.end(), false)), std::string("null count changed by a refused ") + what);
                if (r.chance(1, 2)) { b.push_back(v); m.push_back(v); same(std::as_const(b), m, "request, then push_back"); }
            }
        };
        if (r.chance(1, 2)) run(own); else run(lent);
        vt::distinct(vt::fnv(std::to_string(n), sizeof(T)));
    }
    // sizes to offsets: exact or refused
    template <class A, class O, class S> void offsets(Rng& r, const char* what)
    {
        vt::label(what);
        constexpr u128 max = u128(std::numeric_limits<O>::max());
        std::vector<S> sizes;
        u128 sum = 0;
        bool fits = true;
        std::vector<O> want{0};
        for (size_t i = 0, n = r.below(12); i < n; ++i)
        {
            u128 s;
            switch (r.below(5))
            {
                case 0: s = r.below(100); break;
                case 1: s = u128(r.next()) >> r.below(64); break;
                case 2: s = max - (sum <= max ? sum : 0) + r.below(3) - std::min<u128>(1, max); break; // just reaches, or just exceeds
                case 3: s = ~uint64_t(0) - r.below(5); break;
                default: s = max / (1 + r.below(4)); break;
            }
            const S x = S(s > u128(std::numeric_limits<S>::max()) ? (r.chance(1, 2) ? u128(std::numeric_limits<S>::max()) : s & 0x7f) : s);
            sizes.push_back(x);
            sum += x;
            if (sum > max) fits = false;
            else if (fits) want.push_back(O(sum));
        }
        bool thrown = false;
        try
        {
            auto off = A::offset_from_sizes(sizes);
            if (!fits) { vt::violation(std::string("offsets wrapped around: ") + what, vt::fmt("%zu sizes", sizes.size())); return; }
            bool ok = off.size() == want.size();
            for (size_t i = 0; ok && i < want.size(); ++i) ok = off[i] == want[i];
            vt::check(ok, std::string("offsets: ") + what);
        }
        catch (const std::exception&) { thrown = true; }
        vt::check(thrown == !fits, std::string("sizes which can be represented are refused: ") + what, vt::fmt("%zu sizes, sum %zu", sizes.size(), size_t(sum)));
        vt::cover(fits ? "offsets computed" : "offsets refused");
        if (sum == max) vt::cover("offsets which just fit");
        vt::distinct(vt::fnv(std::to_string(size_t(sum)), sizes.size()));
    }
    // `whole`: nothing changed; otherwise (a failed insertion between elements) the array is valid and has its length
    template <class A> void intact(A& a, const Col& want, const char* what, bool whole = true)
    {
        if (!whole)
        {
            vt::check(a.size() == want.size(), std::string("length changed by a refused ") + what);
            const Col now = sr::read_index(a);
            auto& px = sp::detail::array_access::get_arrow_proxy(a);
            vt::check(px.null_count() == int64_t(std::count_if(now.begin(), now.end(), [](auto& x) { return x.null; })), std::string("null count changed by a refused ") + what);
            Reader rd; rd.o = strict(); TD seen;
            auto c = rd.read(&px.array(), &px.schema(), &seen);
            vt::check(c && *c == now, std::string("structures are not valid after a refused ") + what);
            return;
        }
        const std::string w = std::string("changed by a refused ") + what;
        if (!vt::check(a.size() == want.size(), w, vt::fmt("size %zu want %zu", size_t(a.size()), want.size()))) return;
        vt::check(sr::read_index(a) == want, w, col_str(want) + " now " + col_str(sr::read_index(a)));
        auto& px = sp::detail::array_access::get_arrow_proxy(a);
        vt::check(px.null_count() == int64_t(std::count_if(want.begin(), want.end(), [](auto& x) { return x.null; })), "null count " + w);
        Reader rd; rd.o = strict(); TD seen;
        auto c = rd.read(&px.array(), &px.schema(), &seen);
        vt::check(c && *c == want, "structures " + w, col_str(want));
    }
    template <class T, K KK> void arrays(Rng& r)
    {
        TD t; t.k = KK;
        using A = std::conditional_t<std::is_same_v<T, std::string>, sp::string_array, sp::primitive_array<std::conditional_t<std::is_same_v<T, std::string>, int, T>>>;
        const size_t unit = std::is_same_v<T, std::string> ? 4 : sizeof(T);
        Col c = gen_col(t, r.pick({0, 1, 5, 8, 33}), r, r.pick({0, 30, 100}));
        auto value = [&] { LV x = gen_value(t, r, 0); return x; };
        auto nv = [&](const LV& x) { if constexpr (std::is_same_v<T, std::string>) return sp::nullable<std::string>(x.null ? std::string() : std::string(atom_bytes(x)), !x.null); else return sp::nullable<T>(x.null ? T{} : sb::pod<T>(x, r), !x.null); };
        if constexpr (!std::is_same_v<T, std::string>)
            if (r.chance(1, 5)) { const size_t n = huge(r, unit); vt::label("array(n, v)"); refused("array(n, v)", n, [&] { A a(n, T{}); }); return; }
        std::vector<std::decay_t<decltype(nv(LV{}))>> src; for (auto& x : c) src.push_back(nv(x));
        A a(src);
        for (size_t s = 0, steps = 1 + r.below(4); s < steps; ++s)
        {
            bool whole = true;
            size_t n; do n = huge(r, unit, c.size()); while (n / 8 <= LIMIT);
            LV x = value(); if (r.chance(1, 3)) x = null_lv();
            const auto v = nv(x);
            const char* what = "";
            switch (r.below(2))
            {
                case 0: what = "array.resize"; vt::label(what); refused(what, n, [&] { a.resize(n, v); }); break;
                default: what = "array.insert"; vt::label(what); { const size_t at = r.below(c.size() + 1); whole = at == c.size(); refused(what, n, [&] { a.insert(a.cbegin() + std::ptrdiff_t(at), v, n); }); }
            }
            intact(a, c, what, whole);
            if (!whole) break;
            if (r.chance(1, 2)) { a.push_back(v); c.push_back(x); intact(a, c, "request, then push_back"); }
        }
        vt::distinct(vt::fnv(td_str(t) + col_str(c)));
    }
    // strings: more characters in total than the offsets can address, by repeating a value
    inline void repeated(Rng& r)
    {
        TD t; t.k = K::STR;
        Col c = gen_col(t, r.pick({0, 1, 5, 8}), r, 30);
        std::vector<sp::nullable<std::string>> src; for (auto& x : c) src.emplace_back(x.null ? std::string() : std::string(atom_bytes(x)), !x.null);
        sp::string_array a(src);
        const std::string v(1000 + r.below(5000), 'x');
        const size_t n = size_t(INT32_MAX) / v.size() + 1 + r.below(100000);
        const bool valid = r.chance(2, 3);
        vt::label("repeated string");
        const size_t at = r.below(c.size() + 1);
        bool whole = true;
        if (r.chance(1, 2)) refused("resize of strings", n, [&] { a.resize(c.size() + n, sp::nullable<std::string>(std::string(v), bool(valid))); });
        else whole = at == c.size(), refused("insert of strings", n, [&] { a.insert(a.cbegin() + std::ptrdiff_t(at), sp::nullable<std::string>(std::string(v), bool(valid)), n); });
        intact(a, c, "repeated string", whole);
        vt::distinct(vt::fnv(std::to_string(n) + col_str(c)));
    }
    // values of which each is a view of the same long text, in total too long
    template <class A, class C> void long_values(Rng& r, const char* what)
    {
        static const std::vector<C> text(size_t(1) << 20, C('t'));
        std::vector<std::span<const C>> v;
        const size_t each = r.pick({size_t(1) << 20, (size_t(1) << 20) - 1, size_t(700000)});
        const size_t n = size_t(INT32_MAX) / each + 2 + r.below(300);
        for (size_t i = 0; i < n; ++i) { if (r.chance(1, 50)) v.emplace_back(text.data(), r.below(13)); v.emplace_back(text.data(), each); }
        vt::label(what);
        refused(what, v.size(), [&]
        {
            if constexpr (requires(std::vector<typename A::inner_value_type> q) { A(q); } && std::is_constructible_v<typename A::inner_value_type, const C*, size_t>)
            { std::vector<typename A::inner_value_type> w; for (auto& s : v) w.emplace_back(s.data(), s.size()); A a(w); }
            else A a(v);
        });
        vt::distinct(n);
    }
}
void part1(Rng&); void part2(Rng&); void part3(Rng&); void real(vt::Case&);
using namespace big;
#if VT_PART == 0
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    fi::too_big = LIMIT;
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        if (cs.mode == "real") return real(cs);
        switch (r.below(10)) { case 0: case 1: case 2: part1(r); break; case 3: case 4: case 5: part2(r); break; default: part3(r); }
    });
}
#elif VT_PART == 1
void part1(Rng& r)
{
    switch (r.below(8))
    {
        case 0: return buffers<uint8_t>(r); case 1: return buffers<int16_t>(r); case 2: return buffers<uint32_t>(r); case 3: return buffers<float>(r);
        case 4: return buffers<int64_t>(r); case 5: return buffers<double>(r); case 6: return buffers<std::byte>(r); default: return buffers<uint64_t>(r);
    }
}
#elif VT_PART == 2
void part2(Rng& r)
{
    switch (r.below(13))
    {
        case 12:
        {
            // a length which cannot be told
            vt::label("fixed size lists of size 0");
            const size_t n = r.below(40);
            std::vector<int32_t> v(n, 7);
            refused("fixed size lists of size 0", n, [&] { if (r.chance(1, 2)) sp::fixed_sized_list_array a(uint64_t(0), sp::array(sp::primitive_array<int32_t>(v))); else sp::fixed_sized_list_array a(uint64_t(0), sp::array(sp::primitive_array<int32_t>(v)), std::vector<bool>(n, true)); });
            vt::distinct(n);
            return;
        }
        case 0: return bits<uint8_t>(r); case 1: return bits<uint16_t>(r); case 2: return bits<uint32_t>(r); case 3: return bits<uint64_t>(r);
        case 4: return offsets<sp::list_array, int32_t, uint64_t>(r, "offsets of a list");
        case 5: return offsets<sp::list_array, int32_t, uint32_t>(r, "offsets of a list, sizes of 32 bits");
        case 6: return offsets<sp::big_list_array, int64_t, uint64_t>(r, "offsets of a large list");
        case 7: return offsets<sp::string_array, int32_t, uint64_t>(r, "offsets of a string array");
        case 8: return offsets<sp::variable_size_binary_array_impl<std::vector<std::byte>, std::span<const std::byte>, int64_t>, int64_t, uint64_t>(r, "offsets of a large binary array");
        case 9: return offsets<sp::list_array, int32_t, uint16_t>(r, "offsets of a list, sizes of 16 bits");
        default: return offsets<sp::string_array, int32_t, uint32_t>(r, "offsets of a string array, sizes of 32 bits");
    }
}
#elif VT_PART == 3
void part3(Rng& r)
{
    switch (r.below(8))
    {
        case 0: return arrays<uint8_t, K::U8>(r); case 1: return arrays<int32_t, K::I32>(r); case 2: return arrays<double, K::F64>(r); case 3: return arrays<bool, K::BOOL>(r);
        case 4: return arrays<uint64_t, K::U64>(r); case 5: return arrays<std::string, K::STR>(r); default: return repeated(r);
    }
}
#else
// with gigabytes of real data: the limits of the offsets and of the views reached and exceeded
void real(vt::Case& cs)
{
    Rng& r = cs.rng;
    const size_t max = size_t(INT32_MAX);
    const int kind = int(cs.index % 4);
    if (kind == 0) { long_values<sp::string_view_array, char>(r, "string views in total"); long_values<sp::binary_view_array, std::byte>(r, "binary views in total"); return; }
    if (kind == 1)
    {
        // a single value longer than a view can say
        const std::vector<char> text(max + 1 + r.below(1000), 'y');
        vt::label("a string view of 2 GiB");
        refused("a string view of 2 GiB", text.size(), [&] { std::vector<std::string_view> v{std::string_view("short"), std::string_view(text.data(), text.size())}; sp::string_view_array a(v); });
        vt::label("a string of 2 GiB");
        refused("a string of 2 GiB", text.size(), [&] { std::vector<std::string_view> v{std::string_view("short"), std::string_view(text.data(), text.size())}; auto b = sp::build(v); });
        vt::distinct(text.size());
        return;
    }
    // an array a few bytes below the limit
    const size_t room = r.pick({size_t(0), size_t(1), size_t(7), size_t(100)});
    const size_t total = max - room;
    std::vector<size_t> sizes{total / 2, 3, total - total / 2 - 3};
    sp::u8_buffer<char> text(total, 'z');
    text[0] = 'A'; text[total / 2] = 'B'; text[total / 2 + 3] = 'C'; text[total - 1] = 'D';
    auto off = sp::string_array::offset_from_sizes(sizes);
    sp::string_array a(std::move(text), std::move(off));
    size_t n = 3, sum = total;
    auto valid = [&](const char* what)
    {
        const auto& c = a;
        bool ok = a.size() == n;
        size_t at = 0;
        for (size_t i = 0; ok && i < n; ++i) { ok = c[i].has_value() && c[i].value().size() == sizes[i]; at += sizes[i]; }
        ok = ok && at == sum && c[0].value()[0] == 'A' && c[0].value().size() == total / 2;
        vt::check(ok, std::string("array of 2 GiB after ") + what);
        vt::cover("arrays near the limit");
    };
    valid("construction");
    for (int s = 0; s < 3; ++s)
    {
        const size_t k = r.chance(1, 2) ? max - sum + 1 + r.below(9) : r.below(max - sum + 1);   // too long, or it fits
        const std::string v(k, 'v');
        const bool fits = k <= max - sum;
        const char* what = "";
        bool thrown = false;
        try
        {
            switch ((int(cs.index / 4) + s + kind) % 4)
            {
                case 0: what = "push_back"; vt::label(what); a.push_back(sp::make_nullable<std::string>(std::string(v))); break;
                case 1: what = "insert of a range"; vt::label(what); { std::vector<sp::nullable<std::string>> x{sp::make_nullable<std::string>(std::string(v))}; a.insert(a.cend(), x.begin(), x.end()); } break;
                case 2: what = "resize"; vt::label(what); a.resize(n + 1, sp::make_nullable<std::string>(std::string(v))); break;
                default:
                {
                    what = "assignment"; vt::label(what);
                    const std::string w = std::string("BBB") + v; // the second element grows by k
                    const size_t grow = w.size() - 3;
                    (void) grow;
                    if (sizes[1] == 3) { a[1] = sp::make_nullable<std::string>(std::string(w)); sizes[1] += k; sum += k; valid("assignment"); continue; }
                    a.push_back(sp::make_nullable<std::string>(std::string(v)));
                }
            }
            ++n; sizes.push_back(k); sum += k;
        }
        catch (const std::exception&) { thrown = true; }
        vt::check(thrown == !fits || (fits && thrown && false), std::string(fits ? "refused what fits: " : "accepted what does not fit: ") + what, vt::fmt("%zu bytes, %zu free", k, max - sum));
        vt::cover(fits ? "near the limit: fits" : "near the limit: refused");
        valid(what);
    }
    vt::distinct(vt::fnv("near", cs.index * 1000 + room));
}
#endif
