// Histories over the layouts only typed arrays offer: string_view_array and binary_view_array.
#pragma once
#include "vt.hpp"

namespace vw
{
    enum Focus { READ = 1, LAWS = 2, DECODE = 4, OWN = 8, MUTATE = 16, SLICE = 32, EQUAL = 64, COPY = 128 };
    // one case; violations carry labels "views|..."
    void history(vt::Case& cs, int focus);
    void history1(vt::Case& cs, int focus);
    void history2(vt::Case& cs, int focus);
}
