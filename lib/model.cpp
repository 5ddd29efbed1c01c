// The heavy instantiations of the model, compiled in parallel parts.
#include "sp_build.hpp"
#include "sp_read.hpp"
#if VT_PART == 0
sparrow::array sb::build_scalar(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w) { return build_typed_scalar(t, c, r, o, w); }
#elif VT_PART == 1
sparrow::array sb::build_nested(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w) { return build_typed_nested(t, c, r, o, w); }
#elif VT_PART == 2
sparrow::array sb::build_dict(const TD& t, const Col& c, Rng& r, const Opts& o, Wrapper w) { return build_typed_dict(t, c, r, o, w); }
#elif VT_PART == 3
am::LV sr::element(const sparrow::array_traits::const_reference& v) { return of_element(v); }
am::Col sr::read(const sparrow::array& a)
{
    Col c;
    for (size_t i = 0; i < a.size(); ++i) c.push_back(element(a[i]));
    return c;
}
#else
am::Col sr::read_visit_iter(const sparrow::array& a)
{
    return a.visit([](const auto& t) { return read_iter(t); });
}
#endif
