#pragma once
#include <functional>
namespace clk {
extern long reads;      // number of clock readings so far
extern double now;      // time returned when no function is installed
extern std::function<double(long)> fn;
}
