// Deterministic executor under virtual time. It keeps the contract of the asio strand executor the
// library runs on: posted actions run one at a time in FIFO order, an expired timer's action is
// queued behind them, and cancelling a timer that has already been queued has no effect.
#pragma once
#include <deque>
#include <list>
#include <memory>
#include "exe4cpp/IExecutor.h"

class VExec;
class VTimer final : public exe4cpp::ITimer
{
public:
    enum State { Waiting, Queued, Cancelled, Done };
    VTimer(exe4cpp::steady_time_t t, exe4cpp::action_t a, uint64_t s) : time(t), action(std::move(a)), seq(s) {}
    void cancel() override { if(state == Waiting) { state = Cancelled; action = nullptr; } else if(state == Queued) cancelled_late = true; }
    exe4cpp::steady_time_t expires_at() override { return time; }
    exe4cpp::steady_time_t time;
    exe4cpp::action_t action;
    uint64_t seq;
    State state = Waiting;
    bool cancelled_late = false;
};

class VExec final : public exe4cpp::IExecutor
{
public:
    using duration_t = exe4cpp::duration_t;
    exe4cpp::Timer start(const duration_t& d, const exe4cpp::action_t& a) override
    {
        return start(now + d, a);
    }
    exe4cpp::Timer start(const exe4cpp::steady_time_t& t, const exe4cpp::action_t& a) override
    {
        auto timer = std::make_shared<VTimer>(t, a, ++m_seq);
        timers.push_back(timer);
        return exe4cpp::Timer(timer);
    }
    void post(const exe4cpp::action_t& a) override { ready.push_back({a, nullptr}); }
    exe4cpp::steady_time_t get_time() override { return now; }

    // moves expired timers to the ready queue, in order of expiry
    size_t expire()
    {
        size_t n = 0;
        for(;;)
        {
            std::shared_ptr<VTimer> best;
            for(auto it = timers.begin(); it != timers.end();)
            {
                if((*it)->state != VTimer::Waiting) { it = timers.erase(it); continue; }
                if((*it)->time <= now && (!best || (*it)->time < best->time || ((*it)->time == best->time && (*it)->seq < best->seq))) best = *it;
                ++it;
            }
            if(!best) return n;
            best->state = VTimer::Queued;
            timers.remove(best);
            ready.push_back({nullptr, best});
            ++n;
        }
    }
    bool has_waiting() { for(auto& t : timers) if(t->state == VTimer::Waiting) return true; return false; }
    // earliest waiting timer, or time_point::max()
    exe4cpp::steady_time_t next_expiry()
    {
        auto r = exe4cpp::steady_time_t::max();
        for(auto& t : timers) if(t->state == VTimer::Waiting && t->time < r) r = t->time;
        return r;
    }
    bool run_one()
    {
        if(ready.empty()) return false;
        auto item = std::move(ready.front());
        ready.pop_front();
        ++actions;
        running = true;
        if(item.timer)
        {
            item.timer->state = VTimer::Done;
            auto a = std::move(item.timer->action);
            item.timer->action = nullptr;
            if(item.timer->cancelled_late) ++late_cancelled_runs;
            a();
        }
        else item.action();
        running = false;
        return true;
    }
    // runs everything that is ready (including timers due now); returns false if it does not settle
    bool drain(size_t max = 100000)
    {
        for(size_t i = 0; i < max; ++i)
        {
            if(ready.empty()) expire();
            if(!run_one()) return true;
        }
        return false;
    }
    void advance(duration_t d) { now += d; }

    struct Item { exe4cpp::action_t action; std::shared_ptr<VTimer> timer; };
    std::deque<Item> ready;
    std::list<std::shared_ptr<VTimer>> timers;
    exe4cpp::steady_time_t now{std::chrono::hours(1)};
    uint64_t actions = 0;          // number of actions started
    uint64_t late_cancelled_runs = 0;
    bool running = false;

private:
    uint64_t m_seq = 0;
};
