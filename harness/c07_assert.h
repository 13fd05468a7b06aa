#pragma once
#include <string>
struct outcome { bool value; };
// the same statements compiled with reports on (c07_assert.cpp) and off (c07_assert_off.cpp)
namespace off { int run(int which, bool test, int x, int& calls); int count(); }
