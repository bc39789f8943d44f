#pragma once
#include "exe4cpp/Timer.h"
#include "exe4cpp/Typedefs.h"
namespace exe4cpp {
class ISteadyTimeSource
{
public:
    virtual ~ISteadyTimeSource() = default;
    virtual steady_time_t get_time() = 0;
};
class IExecutor : public ISteadyTimeSource
{
public:
    virtual ~IExecutor() = default;
    virtual Timer start(const duration_t& duration, const action_t& action) = 0;
    virtual Timer start(const steady_time_t& expiration, const action_t& action) = 0;
    virtual void post(const action_t& action) = 0;
};
}
