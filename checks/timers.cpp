// C24: timers of client sessions, in virtual time and on a real manager
#include <atomic>
#include "client_world.h"
#include "net.h"
#include "modbus/IModbusManager.h"
#include "modbus/client/IClientChannel.h"

using namespace glue;
using pbt::Ctx;
using ref::Req;

namespace {

using tp = exe4cpp::steady_time_t;
long long us(modbus::duration_t d) { return (long long)std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }

struct TimerModel
{
    std::unique_ptr<modbus::ITimer> handle;
    bool dropped = false;
    tp expires{};
    bool cancelled = false, timely = false;
    size_t runs = 0;
};

class World
{
public:
    explicit World(Ctx& c, bool large = false) : c(c), s(c.src), limit(large ? 1500 : 40) {}
    ~World() { m_dead = true; }
    void run()
    {
        for(size_t n = (size_t)s.range(1, 3); n; --n) sessions.push_back(w.channel->create_session(modbus::UnitIdentifier{s.byte_i()}, std::chrono::milliseconds(500)));
        const size_t n = (size_t)(limit > 40 ? s.range(1000, 3000) : s.range(1, c.thorough ? 80 : 40));
        if(limit > 40) { for(int i = (int)s.range(0, 600); i--;) start(); c.label("hundreds of timers"); }
        for(size_t i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            step();
            check();
        }
        c.note("everything expires");
        for(size_t i = 0;; ++i)
        {
            drain();
            if(!w.exec->has_waiting()) break;
            if(i > 20000) c.fail("C24/endless", "timers never end");
            if(w.exec->next_expiry() > w.exec->now) w.exec->now = w.exec->next_expiry();
        }
        check();
        size_t ran = 0, cancelled = 0;
        for(size_t i = 0; i < t.size(); ++i)
        {
            if(!t[i]->cancelled && t[i]->runs != 1) c.fail("C24/lost", "timer %zu never ran", i);
            ran += t[i]->runs;
            cancelled += t[i]->timely;
        }
        if(w.exec->late_cancelled_runs) c.label("cancelled after the expiry");
        if(ran >= 2 && cancelled >= 1) c.nontrivial();
    }

private:
    modbus::duration_t gen_duration()
    {
        switch(s.weighted({5, 2, 1, 1, 1}))
        {
        case 0: return std::chrono::milliseconds(100 * s.range(1, 20));
        case 1: return std::chrono::milliseconds(s.range(1, 3000));
        case 2: return std::chrono::microseconds(s.range(0, 2000));
        case 3: return std::chrono::hours(s.range(1, 1000));
        default: return modbus::duration_t(s.range(0, 3));
        }
    }
    void start()
    {
        if(t.size() >= limit) return;
        const size_t i = t.size(), k = s.below(sessions.size());
        auto m = std::make_shared<TimerModel>();
        t.push_back(m);
        auto action = [this, i] { if(!m_dead) on_run(i); };
        if(s.chance(1, 2))
        {
            const auto d = gen_duration();
            m->expires = w.exec->now + d;
            c.note("timer %zu on session %zu: in %lld us", i, k, us(d));
            m->handle = sessions[k]->start(d, action);
            c.label("by duration");
        }
        else
        {
            m->expires = s.chance(1, 8) ? w.exec->now - gen_duration() : w.exec->now + gen_duration();
            c.note("timer %zu on session %zu: at %lld us from now", i, k, us(m->expires - w.exec->now));
            m->handle = sessions[k]->start(m->expires, action);
            c.label(m->expires < w.exec->now ? "by expiration in the past" : "by expiration");
        }
        if(!m->handle) c.fail("C24/null", "start returned nothing");
    }
    // cancelled before it expires: the executor has not yet seen the expiry
    bool expired(const TimerModel& m) { return w.exec->now >= m.expires; }
    void cancel(size_t i)
    {
        auto& m = *t[i];
        if(!m.handle) return;
        const bool timely = !expired(m) && m.runs == 0;
        c.note("cancel timer %zu%s", i, timely ? "" : " (late)");
        m.handle->cancel();
        if(!m.cancelled) { m.cancelled = true; m.timely = timely; }
        if(timely) c.label("cancelled in time");
    }
    void step()
    {
        switch(s.weighted({5, 4, 2, 4, 3, 3, 3, 2, 1}))
        {
        case 0: start(); break;
        case 1: if(!t.empty()) cancel(s.below(t.size())); break;
        case 2:
            if(t.empty()) break;
            { auto& m = *t[s.below(t.size())]; if(m.handle) { c.label("handle dropped"); c.note("drop the handle of a timer"); m.handle.reset(); m.dropped = true; } }
            break;
        case 3:
        {
            auto next = w.exec->next_expiry();
            if(next != tp::max() && s.chance(3, 4))
            {
                if(next > w.exec->now && s.chance(1, 3)) { w.exec->now = next - std::chrono::nanoseconds(1); c.note("time passes to just before the next expiry"); }
                else { w.exec->now = std::max(w.exec->now, next); c.note("time passes to the next expiry"); }
            }
            else { auto d = std::chrono::milliseconds(s.range(0, 3000)); w.exec->advance(d); c.note("%lld ms pass", (long long)d.count()); }
            break;
        }
        case 4: c.note("expired timers are queued"); w.exec->expire(); break;
        case 5: c.note("run all"); drain(); break;
        case 6: { int n = (int)s.range(1, 3); c.note("run %d", n); while(n--) w.exec->run_one(); break; }
        case 7:
        {
            Req q;
            q.fc = 3; q.qty = 1;
            c.note("issue a request");
            issue(*s.pick(sessions), q, nullptr, [](const Outcome&) {});
            c.label("with requests");
            break;
        }
        default:
            if(!w.conn->sent.empty()) { auto b = w.conn->sent.back().bytes; c.note("respond"); w.post_receive(ref::frame(ref::g16(b, 0), b[6], {0x83, 2})); }
            break;
        }
    }
    void drain()
    {
        if(!w.exec->drain()) c.fail("C24/livelock", "the executor never settles");
        for(size_t i = 0; i < t.size(); ++i)
            if(!t[i]->cancelled && expired(*t[i]) && t[i]->runs == 0) c.fail("C24/late", "timer %zu expired %lld us ago and did not run", i, us(w.exec->now - t[i]->expires));
    }
    void check()
    {
        for(size_t i = 0; i < t.size(); ++i)
            if(t[i]->handle && !t[i]->cancelled && t[i]->handle->expires_at() != t[i]->expires)
                c.fail("C24/expires-at", "timer %zu reports an expiration time that is %lld us off", i, us(t[i]->handle->expires_at() - t[i]->expires));
    }
    void on_run(size_t i)
    {
        auto& m = *t[i];
        if(++m.runs > 1) c.fail("C24/twice", "timer %zu ran %zu times", i, m.runs);
        if(w.exec->now < m.expires) c.fail("C24/early", "timer %zu ran %lld us early", i, us(m.expires - w.exec->now));
        if(m.timely) c.fail("C24/cancelled", "timer %zu ran although it was cancelled before it expired", i);
        if(c.verbose) c.note("    timer %zu runs", i);
        if(s.chance(1, 4))
        {
            c.label("operation inside an action");
            switch(s.below(3)) { case 0: start(); break; case 1: cancel(s.below(t.size())); break; default: t[i]->handle.reset(); }
        }
    }

    Ctx& c;
    pbt::Src& s;
    const size_t limit;
    std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
    std::vector<std::shared_ptr<TimerModel>> t;
    bool m_dead = false;
    ClientWorld w;
};

// real time, real threads
void real(Ctx& c)
{
    auto& s = c.src;
    struct R { std::unique_ptr<modbus::ITimer> h; tp expires; bool exact = true; std::atomic<int> runs{0}; std::atomic<bool> early{false}; bool cancelled = false, timely = false; };
    std::vector<std::shared_ptr<R>> v;
    const unsigned threads = (unsigned)s.range(1, 4);
    const size_t n = (size_t)s.range(1, 30);
    std::string bad;
    {
        auto m = modbus::IModbusManager::create(modbus::LoggerFactory::create_null_logger("t"), threads);
        std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
        for(size_t k = (size_t)s.range(1, 3); k; --k)
            sessions.push_back(m->create_client_tcp_channel("c", modbus::Ipv4Endpoint{net::own_address(), 1}, "")->create_session(modbus::UnitIdentifier{1}, std::chrono::seconds(1)));
        c.note("%u threads, %zu timers", threads, n);
        for(size_t i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            auto r = std::make_shared<R>();
            const auto d = s.chance(1, 4) ? modbus::duration_t(std::chrono::hours(1)) : modbus::duration_t(std::chrono::microseconds(s.range(0, 30000)));
            const bool far = d > std::chrono::minutes(1);
            auto action = [r] { if(std::chrono::steady_clock::now() < r->expires) r->early = true; ++r->runs; };
            r->expires = std::chrono::steady_clock::now() + d;
            auto& se = *s.pick(sessions);
            if(s.chance(1, 2)) { r->h = se.start(d, action); r->exact = false; }     // expires no earlier than computed here
            else r->h = se.start(r->expires, action);
            v.push_back(r);
            const bool cancel = far || s.chance(1, 2);
            if(!cancel) { if(s.chance(1, 2)) { const auto e = r->h->expires_at(); if(r->exact ? e != r->expires : e < r->expires || e > std::chrono::steady_clock::now() + d) bad = pbt::fmt("timer %zu reports a wrong expiration time", i); r->h.reset(); c.label("handle dropped"); } continue; }
            if(!far && s.chance(1, 2)) std::this_thread::sleep_for(std::chrono::microseconds(s.range(0, 20000)));
            r->h->cancel();
            r->cancelled = true;
            r->timely = std::chrono::steady_clock::now() < r->expires;
        }
        const bool ok = net::wait_for([&] { for(auto& r : v) if(!r->cancelled && r->runs == 0) return false; return true; }, 20000);
        if(!ok) { for(auto& r : v) r->h.reset(); m.reset(); c.fail_soft("C24/lost", "a timer did not run within 20 s"); }
        if(s.chance(1, 2)) net::sleep_ms(35);
        for(auto& r : v) r->h.reset(); // asio timers must not outlive the manager's io_service
    }
    if(!bad.empty()) c.fail("C24/expires-at", "%s", bad.c_str());
    for(size_t i = 0; i < v.size(); ++i)
    {
        auto& r = *v[i];
        if(r.runs > 1) c.fail("C24/twice", "timer %zu ran %d times", i, r.runs.load());
        if(r.early) c.fail("C24/early", "timer %zu ran before its expiration time", i);
        if(r.timely && r.runs) c.fail("C24/cancelled", "timer %zu ran although it was cancelled before it expired", i);
    }
    c.label("real manager");
    if(n >= 3) c.nontrivial();
}

void c24(Ctx& c)
{
    if(c.index % 400 == 200) { real(c); return; }
    World w(c, c.index % 4000 == 7);
    w.run();
}

pbt::Register r24([] {
    pbt::Property p;
    p.id = "C24";
    p.run = c24;
    p.quick_cases = 160000;
    p.thorough_cases = 8000000;
    p.rule = "random histories of up to 40 timers (every 4000th: up to 1500) on one to three sessions in virtual time (started by duration or time, cancelled before or after the expiry or after being queued, handles dropped, timers started and cancelled from actions, ordinary requests in between) compared with a model, and every 400th case timers of a real manager with one to four threads, where a timer cancelled while the clock was still before its expiry must never run. "
             "Non-trivial = at least two timers ran and one was cancelled in time, or at least three real timers.";
    p.assumptions = {"a timer whose expiry was queued before the cancel may still run, once (documented in ITimer.h)",
                     "ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)"};
    p.required_labels = {"by duration", "by expiration", "by expiration in the past", "cancelled in time", "cancelled after the expiry", "handle dropped", "operation inside an action", "real manager", "hundreds of timers"};
    return p;
}());

} // namespace
