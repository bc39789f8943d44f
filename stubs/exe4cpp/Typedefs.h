// Stand-in for automatak's exe4cpp (not available offline), with the semantics of the real one.
#pragma once
#include <chrono>
#include <functional>

namespace exe4cpp {
using steady_clock_t = std::chrono::steady_clock;
using duration_t = steady_clock_t::duration;
using steady_time_t = steady_clock_t::time_point;
using action_t = std::function<void()>;
}
