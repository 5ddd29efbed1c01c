// Every way of reading an array, checked against its logical content. Reports into a list, so that threads can use it.
#pragma once
#include "arrow_model.hpp"
#include "sparrow/array.hpp"

namespace bt
{
    using am::Col;
    using am::Rng;
    struct Problems
    {
        std::vector<std::pair<std::string, std::string>> v;
        uint64_t steps = 0, laws = 0;
        bool operator()(bool ok, const std::string& what, const std::string& detail = "")
        {
            ++steps;
            if (!ok && v.size() < 8) v.push_back({what, detail});
            return ok;
        }
        bool same(const Col& want, const Col& got, const std::string& what)
        {
            ++steps;
            if (want == got) return true;
            if (v.size() < 8) v.push_back({what, "want " + am::col_str(want) + " got " + am::col_str(got)});
            return false;
        }
        void report(const std::string& prefix = "", const std::string& context = "")
        {
            for (auto& [w, d] : v) vt::violation(prefix + w, context + " " + d);
            vt::cover("reads checked", steps);
            vt::cover("iterator laws", laws);
        }
    };
    // typed layouts, by group (lib/battery.cpp)
    void walk1(const sparrow::array& a, const Col& want, Rng& r, Problems& p);
    void walk2(const sparrow::array& a, const Col& want, Rng& r, Problems& p);
    void walk3(const sparrow::array& a, const Col& want, Rng& r, Problems& p);
    // everything through the typed layout
    void walk(const sparrow::array& a, const Col& want, Rng& r, Problems& p);
    // everything through the dynamic array, and walk(); `deep`: also through copies, slices and views
    void exercise(const sparrow::array& a, const Col& want, Rng& r, Problems& p, bool deep);
}
