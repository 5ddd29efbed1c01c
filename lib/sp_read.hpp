// Reads sparrow arrays (through the public API only) into the logical model.
#pragma once
#include "arrow_model.hpp"
#include "sparrow/array.hpp"
#include "sparrow/layout/dispatch.hpp"

namespace sr
{
    using namespace am;

    template <class T> LV of_value(const T& v);
    template <class V> LV of_element(const V& v);

    LV element(const sparrow::array_traits::const_reference& v);
    inline LV of_value(const sparrow::null_type&) { return null_lv(); }
    inline LV of_value(const sparrow::list_value& v)
    {
        std::vector<LV> c;
        for (size_t i = 0; i < v.size(); ++i) c.push_back(element(v[i]));
        return list_lv(std::move(c));
    }
    inline LV of_value(const sparrow::struct_value& v)
    {
        std::vector<LV> c;
        for (size_t i = 0; i < v.size(); ++i) c.push_back(element(v[i]));
        return struct_lv(std::move(c));
    }
    template <class T> constexpr K kind_of()
    {
        if constexpr (std::same_as<T, bool>) return K::BOOL;
        else if constexpr (std::same_as<T, uint8_t>) return K::U8;
        else if constexpr (std::same_as<T, int8_t>) return K::I8;
        else if constexpr (std::same_as<T, uint16_t>) return K::U16;
        else if constexpr (std::same_as<T, int16_t>) return K::I16;
        else if constexpr (std::same_as<T, uint32_t>) return K::U32;
        else if constexpr (std::same_as<T, int32_t>) return K::I32;
        else if constexpr (std::same_as<T, uint64_t>) return K::U64;
        else if constexpr (std::same_as<T, int64_t>) return K::I64;
        else if constexpr (std::same_as<T, sparrow::float16_t>) return K::F16;
        else if constexpr (std::same_as<T, float>) return K::F32;
        else return K::F64;
    }
    template <class T> LV of_value(const T& v)
    {
        if constexpr (std::same_as<T, bool>)
        {
            unsigned char x;
            memcpy(&x, &v, 1);
            return scalar_pod(K::BOOL, x);
        }
        else if constexpr (std::is_arithmetic_v<T> || std::same_as<T, sparrow::float16_t>) return scalar_pod(kind_of<T>(), v);
        else if constexpr (std::is_convertible_v<T, std::string_view>) return scalar("str", std::string_view(v));
        else if constexpr (std::ranges::range<T>)
        {
            std::string s;
            for (auto x : v) s += char(x);
            return scalar(std::same_as<std::ranges::range_value_t<T>, char> ? "str" : "bin", s);
        }
        else { LV r; r.null = false; r.tag = 's'; r.atom = "other:"; return r; }
    }
    template <class V> concept has_get = requires(const V& v) { v.has_value(); v.get(); };
    template <class V> LV of_element(const V& v)
    {
        if constexpr (has_get<V>)
        {
            if (!v.has_value()) return null_lv();
            return of_value(v.get());
        }
        else
            return std::visit([](const auto& x) { return of_element(x); }, v);
    }
    // element by element through the dynamic array (lib/model.cpp)
    Col read(const sparrow::array& a);
    LV element(const sparrow::array_traits::const_reference& v);
    template <class A> Col read_index(const A& a)
    {
        Col c;
        for (size_t i = 0; i < a.size(); ++i) c.push_back(of_element(a[i]));
        return c;
    }
    template <class A> Col read_iter(const A& a)
    {
        Col c;
        for (auto it = a.begin(); it != a.end(); ++it) c.push_back(of_element(*it));
        return c;
    }
    // through visit + iteration of the typed layout (lib/model.cpp)
    Col read_visit_iter(const sparrow::array& a);
}
