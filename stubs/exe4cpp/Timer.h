#pragma once
#include <memory>
#include "exe4cpp/ITimer.h"
namespace exe4cpp {
// Handle on a timer. Copying, overwriting or dropping it does not cancel the timer.
class Timer
{
public:
    Timer() : m_timer(nullptr) {}
    Timer(std::nullptr_t) : m_timer(nullptr) {}
    Timer(const std::shared_ptr<ITimer>& timer) : m_timer(timer) {}

    operator bool() const { return is_active(); }
    bool is_active() const { return static_cast<bool>(m_timer); }
    bool cancel()
    {
        if(!m_timer) return false;
        m_timer->cancel();
        m_timer.reset();
        return true;
    }
    steady_time_t expires_at() const { return m_timer ? m_timer->expires_at() : steady_time_t::max(); }

private:
    std::shared_ptr<ITimer> m_timer;
};
}
