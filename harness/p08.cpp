// P08 / P09 / P10: mutating primitive and string arrays, in lockstep with vectors of optionals.
#include "mut.hpp"
using namespace mt;
void run1(vt::Case&, bool, K);
void run2(vt::Case&, bool, K);
void run3(vt::Case&, bool, K);
void run4(vt::Case&, bool, K);
void run5(vt::Case&, bool, K);
#if VT_PART == 0
VT_MAIN_DEFS
int main(int argc, char** argv)
{
    return vt::run(argc, argv, [](vt::Case& cs)
    {
        const bool st = cs.mode == "structures", str = cs.mode == "strings";
        const K k = str || (st && cs.rng.chance(1, 3)) ? K::STR : K(int(K::BOOL) + cs.rng.below(12));
        vt::cover(std::string("type:") + kname(k));
        switch (k)
        {
            case K::BOOL: case K::U8: case K::I8: return run1(cs, st, k);
            case K::U16: case K::I16: case K::F16: return run2(cs, st, k);
            case K::U32: case K::I32: case K::F32: return run3(cs, st, k);
            case K::STR: return run5(cs, st, k);
            default: return run4(cs, st, k);
        }
    });
}
#else
#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
template <class T, K KK> void go(vt::Case& cs, bool st) { Machine<sp::primitive_array<T>, T, KK>(cs.rng, st).run(); }
void CAT(run, VT_PART)(vt::Case& cs, bool st, K k)
{
    switch (k)
    {
#if VT_PART == 1
        case K::BOOL: return go<bool, K::BOOL>(cs, st);
        case K::U8: return go<uint8_t, K::U8>(cs, st);
        default: return go<int8_t, K::I8>(cs, st);
#elif VT_PART == 2
        case K::U16: return go<uint16_t, K::U16>(cs, st);
        case K::I16: return go<int16_t, K::I16>(cs, st);
        default: return go<sp::float16_t, K::F16>(cs, st);
#elif VT_PART == 3
        case K::U32: return go<uint32_t, K::U32>(cs, st);
        case K::I32: return go<int32_t, K::I32>(cs, st);
        default: return go<float, K::F32>(cs, st);
#elif VT_PART == 5
        default: Machine<sp::string_array, std::string, K::STR>(cs.rng, st).run();
#else
        case K::U64: return go<uint64_t, K::U64>(cs, st);
        case K::I64: return go<int64_t, K::I64>(cs, st);
        default: return go<double, K::F64>(cs, st);
#endif
    }
}
#endif
