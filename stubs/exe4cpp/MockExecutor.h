// Stand-in for exe4cpp's MockExecutor, only used to run the repository's own left-out unit tests
#pragma once
#include <deque>
#include <list>
#include <memory>
#include "exe4cpp/IExecutor.h"

namespace exe4cpp {

class MockExecutor;
class MockTimer final : public ITimer
{
public:
    MockTimer(MockExecutor* source, const steady_time_t& time, const action_t& action) : m_time(time), m_action(action), m_source(source) {}
    void cancel() override;
    steady_time_t expires_at() override { return m_time; }
    steady_time_t m_time;
    action_t m_action;
    MockExecutor* m_source;
};

class MockExecutor final : public IExecutor, public std::enable_shared_from_this<MockExecutor>
{
public:
    Timer start(const duration_t& delay, const action_t& action) override { return start(m_current_time + delay, action); }
    Timer start(const steady_time_t& time, const action_t& action) override
    {
        auto timer = std::make_shared<MockTimer>(this, time, action);
        m_timers.push_back(timer);
        return Timer(timer);
    }
    void post(const action_t& action) override { m_posts.push_back(action); }
    steady_time_t get_time() override { return m_current_time; }

    size_t run_many(size_t maximum = 10)
    {
        size_t num = 0;
        while(num < maximum && run_one()) ++num;
        return num;
    }
    bool run_one()
    {
        check_timers();
        if(m_posts.empty()) return false;
        auto action = m_posts.front();
        m_posts.pop_front();
        action();
        return true;
    }
    size_t advance_time(duration_t d) { m_current_time += d; return check_timers(); }
    size_t num_active() const { return m_posts.size(); }
    size_t num_pending_timers() const { return m_timers.size(); }
    void cancel(MockTimer* timer) { m_timers.remove_if([=](const std::shared_ptr<MockTimer>& t) { return t.get() == timer; }); }

private:
    size_t check_timers()
    {
        size_t n = 0;
        for(auto it = m_timers.begin(); it != m_timers.end();)
        {
            if((*it)->m_time <= m_current_time)
            {
                auto action = (*it)->m_action;
                m_posts.push_back(action);
                it = m_timers.erase(it);
                ++n;
            }
            else ++it;
        }
        return n;
    }
    steady_time_t m_current_time{};
    std::deque<action_t> m_posts;
    std::list<std::shared_ptr<MockTimer>> m_timers;
};
inline void MockTimer::cancel() { m_source->cancel(this); }

} // namespace exe4cpp
