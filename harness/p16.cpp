// P16: the builder turns nested C++ data into arrays of the documented layout with the same contents.
// Random values of many nested types are built; the array is read back through the typed array, the dynamic array and an
// independent reader of its C structures, and compared with the C++ data itself.
#include "scen.hpp"
#include "track.hpp"
#include "sparrow/builder/builder.hpp"
#include <deque>
#include <list>
#include <set>
#include <span>
using namespace sc;
namespace bd
{
    using sp::nullable; using sp::dict_encode; using sp::run_end_encode;
    template <class T> concept Null = sp::is_nullable_v<T>;
    template <class T> concept Desire = sp::detail::is_express_layout_desire<T>;
    template <class T> concept Dict = sp::detail::is_dict_encode<T>;
    template <class T> struct tup : std::false_type {};
    template <class... A> struct tup<std::tuple<A...>> : std::true_type {};
    template <class A, class B> struct tup<std::pair<A, B>> : std::true_type {};
    template <class A, size_t N> struct tup<std::array<A, N>> : std::true_type {};
    template <class T> concept Tuple = tup<T>::value;
    template <class T> struct var : std::false_type {};
    template <class... A> struct var<std::variant<A...>> : std::true_type {};
    template <class T> concept Variant = var<T>::value;
    template <class T> concept Scalar = std::is_arithmetic_v<T>;
    template <class T> concept Range = std::ranges::range<T> && !Tuple<T>;
    template <class T> constexpr bool same_elements()
    {
        return []<size_t... I>(std::index_sequence<I...>) { return (std::same_as<std::tuple_element_t<0, T>, std::tuple_element_t<I, T>> && ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
    }
    template <class T> struct strip { using type = T; };
    template <class T> requires (Null<T> || Desire<T>) struct strip<T> { using type = typename strip<typename T::value_type>::type; };
    template <class T> using strip_t = typename strip<T>::type;
    template <class T> concept Charlike = std::same_as<T, char> || std::same_as<T, uint8_t> || std::same_as<T, std::byte>;

    template <class F> void chk(bool ok, const char* what, F&& detail)
    {
        if constexpr (std::is_invocable_v<F>) { if (!ok) vt::check(false, what, detail()); else vt::check(true, what, std::string()); }
        else vt::check(ok, what, detail);
    }
    // ---- random values
    template <class T> T gen(Rng& r);
    template <Scalar T> T gen_scalar(Rng& r)
    {
        if constexpr (std::same_as<T, bool>) return r.chance(1, 2);
        else if constexpr (std::floating_point<T>)
        {
            switch (r.below(12))
            {
                case 0: return std::numeric_limits<T>::quiet_NaN();
                case 1: return std::numeric_limits<T>::infinity();
                case 2: return -std::numeric_limits<T>::infinity();
                case 3: return std::numeric_limits<T>::max();
                default: return T(r.range(1, 12)) / 4 - 2 == 0 ? T(7) : T(r.range(1, 4));
            }
        }
        else
        {
            switch (r.below(8))
            {
                case 0: return std::numeric_limits<T>::max();
                case 1: return std::numeric_limits<T>::min();
                case 2: return T(r.next());
                default: return T(r.below(4));
            }
        }
    }
    template <class T> T gen(Rng& r)
    {
        if constexpr (Null<T>)
        {
            if (r.chance(2, 3)) return T(gen<typename T::value_type>(r));
            vt::cover("nulls");
            if (r.chance(1, 2)) return T();
            vt::cover("hidden values");
            return T(gen<typename T::value_type>(r), false);
        }
        else if constexpr (Desire<T>) return T(gen<typename T::value_type>(r));
        else if constexpr (Scalar<T>) return gen_scalar<T>(r);
        else if constexpr (std::same_as<T, std::byte>) return std::byte(r.below(256));
        else if constexpr (Tuple<T>)
        {
            T t;
            [&]<size_t... I>(std::index_sequence<I...>) { ((std::get<I>(t) = gen<std::tuple_element_t<I, T>>(r)), ...); }(std::make_index_sequence<std::tuple_size_v<T>>());
            return t;
        }
        else if constexpr (Variant<T>)
        {
            T v; size_t k = r.below(std::variant_size_v<T>);
            [&]<size_t... I>(std::index_sequence<I...>) { ((I == k ? void(v.template emplace<I>(gen<std::variant_alternative_t<I, T>>(r))) : void()), ...); }(std::make_index_sequence<std::variant_size_v<T>>());
            return v;
        }
        else
        {
            using V = std::ranges::range_value_t<T>;
            T t;
            size_t n = r.pick({0, 0, 1, 1, 2, 3, 5});
            if (Charlike<V> && r.chance(1, 8)) n = 20 + r.below(40);
            for (size_t i = 0; i < n; ++i)
            {
                if constexpr (std::same_as<V, char>) t.insert(t.end(), r.chance(1, 10) ? char(r.below(256)) : char('a' + r.below(3)));
                else t.insert(t.end(), gen<V>(r));
            }
            return t;
        }
    }
    // a column: repeated values matter to the encodings
    template <class R> R column(Rng& r)
    {
        using V = std::ranges::range_value_t<R>;
        const size_t n = r.pick({0, 1, 2, 3, 5, 8, 9, 16, 17, 30});
        std::vector<V> pool;
        R c;
        for (size_t i = 0; i < n; ++i)
        {
            if (!pool.empty() && r.chance(1, 2)) c.insert(c.end(), pool[r.chance(1, 2) ? pool.size() - 1 : r.below(pool.size())]);
            else { pool.push_back(gen<V>(r)); c.insert(c.end(), pool.back()); }
        }
        return c;
    }

    // ---- what the data says
    template <class T> LV model(const T& t)
    {
        if constexpr (Null<T>) return t.has_value() ? model(t.get()) : null_lv();
        else if constexpr (Desire<T>) return model(t.get());
        else if constexpr (Scalar<T>) return sr::of_value(t);
        else if constexpr (Tuple<T>)
        {
            std::vector<LV> c;
            std::apply([&](const auto&... x) { (c.push_back(model(x)), ...); }, t);
            return same_elements<T>() ? list_lv(std::move(c)) : struct_lv(std::move(c));
        }
        else if constexpr (Variant<T>) return std::visit([](const auto& x) { return model(x); }, t);
        else
        {
            using V = std::ranges::range_value_t<T>;
            if constexpr (Charlike<strip_t<V>>)
            {
                std::string s; for (auto x : t) s += char(x);
                return scalar("str", s);
            }
            else
            {
                std::vector<LV> c;
                for (auto&& x : t) { const V y = x; c.push_back(model(y)); }
                return list_lv(std::move(c));
            }
        }
    }
    template <class R> Col model_col(const R& rg)
    {
        Col c;
        for (auto&& x : rg) { const std::ranges::range_value_t<R> y = x; c.push_back(model(y)); }
        return c;
    }
    // ---- the documented layout of a column whose elements have type E; enc: encoding asked for the column
    template <class T> const char* code()
    {
        if constexpr (std::same_as<T, bool>) return "b"; else if constexpr (std::same_as<T, uint8_t>) return "C"; else if constexpr (std::same_as<T, int8_t>) return "c";
        else if constexpr (std::same_as<T, uint16_t>) return "S"; else if constexpr (std::same_as<T, int16_t>) return "s"; else if constexpr (std::same_as<T, uint32_t>) return "I";
        else if constexpr (std::same_as<T, int32_t>) return "i"; else if constexpr (std::same_as<T, uint64_t>) return "L"; else if constexpr (std::same_as<T, int64_t>) return "l";
        else if constexpr (std::same_as<T, float>) return "f"; else return "g";
    }
    template <class E> constexpr char desire()
    {
        if constexpr (Dict<E>) return 'd';
        else if constexpr (Desire<E>) return 'r';
        else if constexpr (Null<E>) return desire<typename E::value_type>();
        else return 0;
    }
    template <class E, bool BIG> std::string layout(char enc)
    {
        using V = strip_t<E>;
        std::string s;
        if constexpr (Scalar<V>) s = code<V>();
        else if constexpr (Tuple<V>)
        {
            if constexpr (same_elements<V>()) s = "+w:" + std::to_string(std::tuple_size_v<V>) + "(" + layout<std::tuple_element_t<0, V>, BIG>(desire<E>()) + ")";
            else
            {
                s = "+s";
                [&]<size_t... I>(std::index_sequence<I...>) { ((s += "(" + layout<std::tuple_element_t<I, V>, BIG>(desire<std::tuple_element_t<I, V>>()) + ")"), ...); }(std::make_index_sequence<std::tuple_size_v<V>>());
            }
        }
        else if constexpr (Variant<V>)
        {
            s = "+us:";
            for (size_t i = 0; i < std::variant_size_v<V>; ++i) s += (i ? "," : "") + std::to_string(i);
            [&]<size_t... I>(std::index_sequence<I...>) { ((s += "(" + layout<std::variant_alternative_t<I, V>, BIG>(desire<std::variant_alternative_t<I, V>>()) + ")"), ...); }(std::make_index_sequence<std::variant_size_v<V>>());
        }
        else
        {
            using W = std::ranges::range_value_t<V>;
            if constexpr (Charlike<strip_t<W>>) s = "u";
            else s = std::string(BIG ? "+L" : "+l") + "(" + layout<W, BIG>(desire<E>()) + ")";
        }
        return enc == 'd' ? "L<" + s + ">" : enc == 'r' ? "+r(l)(" + s + ")" : s;
    }
    inline std::string actual_layout(const ArrowSchema* s)
    {
        std::string o = s->format;
        for (int64_t i = 0; i < s->n_children; ++i) o += "(" + actual_layout(s->children[i]) + ")";
        if (s->dictionary) o += "<" + actual_layout(s->dictionary) + ">";
        return o;
    }
    template <class V> constexpr bool wants_typed()
    {
        using T = strip_t<V>;
        return Scalar<T>;
    }
    // every dictionary entry is stored once, and neighbouring runs differ
    inline void minimal(const ArrowArray* a, const ArrowSchema* s, bool nans)
    {
        for (int64_t i = 0; i < a->n_children; ++i) minimal(a->children[i], s->children[i], nans);
        auto decode_child = [&](ArrowArray* ca, ArrowSchema* cs) -> std::optional<Col> { Reader rd; rd.o = strict(); return rd.read(ca, cs, nullptr); };
        if (a->dictionary)
        {
            minimal(a->dictionary, s->dictionary, nans);
            if (auto c = decode_child(a->dictionary, s->dictionary))
            {
                std::set<std::string> seen; for (auto& v : *c) seen.insert(lv_str(v));
                if (!nans) chk(seen.size() == c->size(), "dictionary-entry-stored-twice", [&] { return col_str(*c); });
                vt::cover("dictionaries inspected");
                if (seen.size() < size_t(a->length)) vt::cover("dictionaries with repeated keys");
            }
        }
        if (std::string(s->format) == "+r")
            if (auto c = decode_child(a->children[1], s->children[1]))
            {
                vt::cover("run-end arrays inspected");
                if (int64_t(c->size()) < a->length) vt::cover("run-end arrays with runs");
                for (size_t i = 1; i < c->size() && !nans; ++i) chk(!((*c)[i] == (*c)[i - 1]), "neighbouring-runs-equal", [&] { return col_str(*c); });
            }
    }
    inline bool nan_in(const Col& c)
    {
        for (auto& v : c) if (!v.null && ((v.tag == 's' && is_nan_atom(v)) || nan_in(v.ch))) return true;
        return false;
    }

    struct Result { Col typed; std::optional<Col> typed_iter; sp::array arr; };
    inline void judge(sp::array arr, const Col& typed, const Col& want, const std::string& want_layout, const char* how)
    {
        auto ctx = [&] { return std::string(how) + " " + want_layout + " " + col_str(want); };
        chk(typed == want, "typed-array-differs-from-the-data", [&] { return ctx() + " read " + col_str(typed); });
        chk(arr.size() == want.size(), "size", ctx);
        Col dyn = sr::read(arr);
        chk(dyn == want, "dynamic-array-differs-from-the-data", [&] { return ctx() + " read " + col_str(dyn); });
        const std::string got = actual_layout(sp::get_arrow_schema(arr));
        chk(got == want_layout, "layout", [&] { return ctx() + " built " + got; });
        std::string err;
        auto dec = decode(arr, err);
        if (!dec) vt::violation("structure-rejected", ctx() + ": " + err);
        else chk(*dec == want, "structure-differs-from-the-data", [&] { return ctx() + " decoded " + col_str(*dec); });
        // nulls of several alternatives are distinct values of a variant, though they read alike
        auto nulls = [](auto&& self, const Col& c) -> bool { for (auto& v : c) if (v.null || self(self, v.ch)) return true; return false; };
        minimal(sp::get_arrow_array(arr), sp::get_arrow_schema(arr), nan_in(want) || (want_layout.find("+us") != std::string::npos && nulls(nulls, want)));
        vt::cover("arrays compared"); vt::cover("elements", want.size());
        for (auto& v : want) if (v.null) vt::cover("null elements");
        vt::distinct(vt::fnv(want_layout + col_str(want)));
        vt::sample(ctx());
    }
    template <bool BIG, class T> auto do_build(T&& t)
    {
        if constexpr (BIG) return sp::build(std::forward<T>(t), sp::large_list_flag);
        else return sp::build(std::forward<T>(t));
    }
    // R: range, possibly wrapped in the desire of an encoding
    template <class W, bool BIG = false> void one(Rng& r)
    {
        using R = std::conditional_t<Desire<W>, strip_t<W>, W>;
        using E = std::ranges::range_value_t<R>;
        R data = column<R>(r);
        const Col want = model_col(data);
        const char enc = desire<W>();
        const std::string lay = layout<E, BIG>(enc);
        vt::label(lay);
        auto run = [&](auto&& src, const char* how)
        {
            auto typed = do_build<BIG>(std::forward<decltype(src)>(src));
            Col c = sr::read_index(typed);
            Col it = sr::read_iter(typed);
            chk(c == it, "iteration-differs", [&] { return lay + " " + col_str(it) + " vs " + col_str(want); });
            judge(sp::array(std::move(typed)), c, want, lay, how);
        };
        W src(data);
        switch (r.below(3))
        {
            case 0: run(src, "lvalue"); break;
            case 1: run(std::as_const(src), "const lvalue"); break;
            default: { W copy(src); run(std::move(copy), "rvalue"); }
        }
        const Col after = [&] { if constexpr (Desire<W>) return model_col(src.get()); else return model_col(src); }();
        chk(after == want, "source-changed", [&] { return lay + " " + col_str(want) + " now " + col_str(after); });
    }
    // the data as a range that can be read only once
    template <class R> void once(Rng& r)
    {
        using E = std::ranges::range_value_t<R>;
        R data = column<R>(r);
        const Col want = model_col(data);
        const std::string lay = layout<E, false>(0);
        vt::label(lay + "|read once");
        tk::Once<E> o(data);
        auto typed = sp::build(o.range());
        Col c = sr::read_index(typed);
        chk(o.at == o.v.size(), "a range that can be read only once was not read to its end", [&] { return lay; });
        judge(sp::array(std::move(typed)), c, want, lay, "read once");
        vt::cover("built from a range read once");
    }
    template <class... R> struct Onces
    {
        static void pick(Rng& r)
        {
            using F = void (*)(Rng&);
            static constexpr F f[] = {&once<R>...};
            f[r.below(sizeof...(R))](r);
        }
    };
    template <class... W> struct Types
    {
        static void pick(Rng& r)
        {
            using F = void (*)(Rng&);
            static constexpr F f[] = {&one<W>...};
            f[r.below(sizeof...(W))](r);
        }
    };
    template <class... W> struct Big
    {
        static void pick(Rng& r)
        {
            using F = void (*)(Rng&);
            static constexpr F f[] = {&one<W, true>...};
            f[r.below(sizeof...(W))](r);
        }
    };
    template <class T> using V = std::vector<T>;
    using N = nullable<std::string>;
    using S = std::string;
    template <class T> using O = nullable<T>;
}
void part1(Rng&); void part2(Rng&); void part3(Rng&); void part4(Rng&); void part5(Rng&); void part6(Rng&); void part7(Rng&); void part8(Rng&);
using namespace bd;
#if VT_PART == 0
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        Rng& r = cs.rng;
        for (int i = 0; i < 4; ++i) switch (r.below(8))
        {
            case 7: part8(r); break;
            case 0: part1(r); break; case 1: part2(r); break; case 2: part3(r); break; case 3: part4(r); break;
            case 4: part5(r); break; case 5: part6(r); break; default: part7(r); break;
        }
    });
}
#elif VT_PART == 1
void part1(Rng& r)
{
    Types<V<bool>, V<int8_t>, V<uint16_t>, V<int16_t>, V<uint32_t>, V<int32_t>, V<uint64_t>, V<int64_t>, V<float>, V<double>, std::deque<int>, std::list<double>,
          V<O<bool>>, V<O<uint8_t>>, V<O<int32_t>>, V<O<int64_t>>, V<O<double>>, std::deque<O<int>>,
          V<S>, V<N>, std::list<S>, std::deque<N>, V<V<uint8_t>>, V<O<V<uint8_t>>>, V<std::list<char>>>::pick(r);
}
#elif VT_PART == 2
void part2(Rng& r)
{
    Types<V<V<int>>, V<V<O<double>>>, V<O<V<int>>>, V<O<V<O<int>>>>, V<V<S>>, V<O<V<S>>>, V<V<V<int16_t>>>, V<O<V<V<O<int>>>>>, std::list<std::deque<float>>,
          V<std::set<int>>, V<V<std::array<int, 2>>>, V<V<std::pair<int, S>>>, V<O<V<std::tuple<int, S>>>>>::pick(r);
}
#elif VT_PART == 3
void part3(Rng& r)
{
    Types<V<std::array<int, 3>>, V<O<std::array<int, 2>>>, V<std::array<O<double>, 1>>, V<O<std::array<S, 2>>>, V<std::array<S, 3>>,
          V<O<std::array<V<int>, 2>>>, V<std::array<std::array<int, 2>, 2>>, V<O<std::array<std::array<O<int>, 2>, 2>>>, V<std::array<std::pair<int, S>, 2>>>::pick(r);
}
#elif VT_PART == 4
void part4(Rng& r)
{
    Types<V<std::tuple<int, double>>, V<std::pair<S, bool>>, V<std::tuple<O<int>, N, O<float>>>, V<O<std::tuple<int, S>>>, V<O<std::tuple<O<int64_t>, O<V<O<int>>>>>>, V<std::tuple<V<S>, std::array<int, 2>, int8_t>>,
          V<O<std::pair<O<std::pair<int, S>>, uint16_t>>>, V<std::tuple<int, std::variant<int, S>>>, std::deque<std::pair<int, float>>>::pick(r);
}
#elif VT_PART == 5
void part5(Rng& r)
{
    Types<V<std::variant<int, double>>, V<std::variant<int, S>>, V<std::variant<O<int>, O<double>>>, V<std::variant<N, O<int>, V<int>>>, V<std::variant<std::tuple<int, S>, O<float>>>, V<V<std::variant<int, S>>>,
          V<O<V<std::variant<O<int>, S>>>>, V<std::array<std::variant<int, float>, 2>>, V<std::variant<V<V<int>>, O<V<S>>, int>>>::pick(r);
}
#elif VT_PART == 8
void part8(Rng& r)
{
    Onces<V<int>, V<bool>, V<O<double>>, V<S>, V<N>, V<V<int>>, V<O<V<O<int>>>>, V<std::tuple<int, S>>, V<O<std::pair<O<int>, S>>>, V<std::array<int, 2>>, V<std::variant<int, S>>>::pick(r);
}
#elif VT_PART == 6
template <template <class...> class D> void encoded(Rng& r)
{
    Types<D<V<int>>, D<V<O<int>>>, D<V<double>>, D<V<O<float>>>, D<V<bool>>, D<V<S>>, D<V<N>>, D<V<V<int>>>, D<V<O<V<O<int>>>>>, D<V<std::tuple<int, S>>>, D<V<O<std::tuple<O<int>, uint16_t>>>>,
          D<V<std::variant<int, S>>>, D<V<std::array<int, 2>>>, D<V<O<std::array<S, 2>>>>, D<V<V<S>>>, D<V<std::variant<O<int>, N>>>, D<std::deque<int>>>::pick(r);
}
template <class T> using De = dict_encode<T>;
void part6(Rng& r) { encoded<dict_encode>(r); }
#else
template <template <class...> class D> void nested(Rng& r)
{
    Types<V<D<V<int>>>, V<O<D<V<O<int>>>>>, V<D<std::array<S, 3>>>, V<O<D<std::array<S, 2>>>>, V<D<V<S>>>, V<O<std::tuple<D<O<S>>, int>>>, V<std::tuple<int, D<S>>>, V<std::pair<D<S>, D<N>>>,
          V<std::variant<D<S>, int>>, V<std::variant<D<N>, O<int>>>, V<D<V<double>>>>::pick(r);
}
template <template <class...> class D> void encoded(Rng& r)
{
    Types<D<V<int>>, D<V<O<int>>>, D<V<double>>, D<V<O<float>>>, D<V<bool>>, D<V<S>>, D<V<N>>, D<V<V<int>>>, D<V<O<V<O<int>>>>>, D<V<std::tuple<int, S>>>, D<V<O<std::tuple<O<int>, uint16_t>>>>,
          D<V<std::variant<int, S>>>, D<V<std::array<int, 2>>>, D<V<O<std::array<S, 2>>>>, D<V<V<S>>>, D<V<std::variant<O<int>, N>>>>::pick(r);
}
void part7(Rng& r)
{
    switch (r.below(4))
    {
        case 0: return nested<dict_encode>(r);
        case 1: return nested<run_end_encode>(r);
        case 2: return encoded<run_end_encode>(r);
        default: return Big<V<V<int>>, V<O<V<S>>>, V<V<V<int>>>, V<std::tuple<V<int>, S>>, V<std::array<V<int>, 2>>, dict_encode<V<V<int>>>>::pick(r);
    }
}
#endif
