// C19: scheduled requests against a lock-step model in virtual time.
// The model is kept in step with the code by the order of the executor: each model action is posted
// right behind the call it mirrors, and a shadow timer is started in the outcome handler, next to the real one.
#include "client_world.h"

using namespace glue;
using ref::Bytes;
using ref::Req;
using pbt::Ctx;

namespace {

struct Inst { uint64_t run, id; bool queued, transmitted; };   // queued: in the channel (or refused by it)
struct Sched
{
    std::shared_ptr<modbus::IScheduledRequest> real;
    Req q;
    bool valid;
    size_t session;
    uint8_t unit;
    modbus::duration_t timeout, freq, freq_asked;
    bool running = false;
    uint64_t run = 0;
    std::deque<Inst> inst;
    exe4cpp::Timer shadow;
    size_t issues = 0, outcomes = 0, restarts = 0;
    bool shut = false;          // its session was shut down: not started again
};

long long us(modbus::duration_t d) { return (long long)std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }

class World
{
public:
    explicit World(Ctx& c) : c(c), s(c.src)
    {
        w.conn->on_send = [this]() { if(!m_dead) on_send(w.conn->sent.back().bytes); };
    }
    ~World() { m_dead = true; }

    void run()
    {
        const size_t ns = (size_t)s.range(1, 2);
        for(size_t i = 0; i < ns; ++i)
        {
            const uint8_t unit = s.byte_i();
            const auto t = gen_timeout();
            sessions.push_back({w.channel->create_session(modbus::UnitIdentifier{unit}, t), unit, t, false});
        }
        add();
        const size_t n = (size_t)s.range(1, c.thorough ? 60 : 30);
        for(size_t i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            step();
        }
        if(c.index % 2500 == 9) endurance();
        // the end: stop everything, nothing may go on
        c.note("stop all");
        m_ops = 30;
        for(size_t i = 0; i < sch.size(); ++i) { sch[i]->real->stop(); mark([this, i] { stop(i); }); }
        for(size_t i = 0;; ++i)
        {
            drain();
            if(m_cur < 0 && !w.exec->has_waiting()) break;
            if(i > 3000) c.fail("C19/endless", "timers go on after every scheduled request was stopped");
            if(w.exec->next_expiry() != exe4cpp::steady_time_t::max()) w.exec->now = std::max(w.exec->now, w.exec->next_expiry());
        }
        size_t polls = 0, restarts = 0;
        for(size_t i = 0; i < sch.size(); ++i)
        {
            auto& r = *sch[i];
            if(!r.inst.empty()) c.fail("C19/no-outcome", "scheduled request %zu: %zu instances got no outcome", i, r.inst.size());
            polls += r.issues;
            restarts += r.restarts;
        }
        if(w.exec->late_cancelled_runs) c.label("timer already expired when cancelled");
        if(restarts) c.label("restarted");
        if(m_restart_in_flight) c.label("restarted while in flight");
        if(polls >= 4) c.nontrivial();
    }

private:
    struct Sess { std::shared_ptr<modbus::IClientSession> p; uint8_t unit; modbus::duration_t timeout; bool shut; };

    modbus::duration_t gen_timeout() { return std::chrono::milliseconds(s.chance(3, 4) ? 100 * s.range(1, 20) : s.range(1, 3000)); }
    modbus::duration_t gen_freq(bool valid)
    {
        // an invalid request has its outcome at once: without a period its polling takes no time at all
        if(valid && s.chance(1, 20)) { c.label("period of zero"); return modbus::duration_t::zero(); }
        switch(s.weighted({12, 6, 3, 1}))
        {
        case 3: return std::chrono::minutes(s.chance(1, 2) ? s.range(1, 120) : s.range(1, 100000));
        case 0: return std::chrono::milliseconds(100 * s.range(1, 10));
        case 1: return std::chrono::milliseconds(s.range(1, 3000));
        default: return std::chrono::microseconds(s.range(1, 2000));
        }
    }
    void mark(std::function<void()> f) { w.exec->post([this, f] { if(!m_dead) f(); }); }

    void add()
    {
        std::vector<size_t> ok;
        for(size_t i = 0; i < sessions.size(); ++i) if(!sessions[i].shut) ok.push_back(i);
        if(ok.empty() || sch.size() >= 4) return;
        const size_t i = sch.size(), k = s.pick(ok);
        auto r = std::make_shared<Sched>();
        r->q.fc = (int)s.range(1, 4);
        r->q.addr = (uint16_t)(1000 + i);
        r->q.qty = (uint16_t)s.range(1, 16);
        if(s.chance(1, 8)) r->q.qty = 0;
        r->valid = r->q.valid();
        r->session = k;
        r->unit = sessions[k].unit;
        const bool expl = s.chance(1, 2);
        r->timeout = expl ? gen_timeout() : sessions[k].timeout;
        r->freq = r->freq_asked = gen_freq(r->valid);
        c.note("schedule %zu on session %zu: %s every %lld us, timeout %lld us%s", i, k, r->q.str().c_str(), us(r->freq), us(r->timeout), expl ? "" : " (default)");
        sch.push_back(r);
        r->real = schedule(*sessions[k].p, r->q, expl ? &r->timeout : nullptr, r->freq, [this, i](const Outcome& o) { if(!m_dead) on_outcome(i, o); });
        if(!r->real) c.fail("C19/null", "schedule_request returned nothing");
        mark([this, i] { start(i); });
    }
    void step()
    {
        switch(s.weighted({2, 4, 4, 3, 1, 3, 1, 6, 3, 4, 6, 2}))
        {
        case 0: add(); break;
        case 1: op(0, s.below(sch.size())); break;
        case 2: op(1, s.below(sch.size())); break;
        case 3: op(2, s.below(sch.size())); break;
        case 4:
        {
            const size_t k = s.below(sessions.size());
            if(sessions[k].shut) break;
            sessions[k].shut = true;
            c.note("shut session %zu down", k);
            c.label("session shut down");
            sessions[k].p->shutdown();
            for(auto& r : sch) if(r->session == k) r->shut = true;
            bool done = false;
            mark([this, k, &done] {
                for(size_t i = 0; i < sch.size(); ++i) if(sch[i]->session == k) mark([this, i] { stop(i); });
                done = true;
            });
            while(!done) w.exec->run_one();     // the shutdown posts the stops, the model's must follow at once
            break;
        }
        case 5:   // other traffic on the channel
        {
            std::vector<size_t> ok;
            for(size_t i = 0; i < sessions.size(); ++i) if(!sessions[i].shut) ok.push_back(i);
            if(ok.empty()) break;
            Req q;
            q.fc = 3; q.addr = (uint16_t)s.below(900); q.qty = 1;
            const auto t = gen_timeout();
            c.note("issue an ordinary request, timeout %lld us", us(t));
            issue(*sessions[s.pick(ok)].p, q, &t, [this](const Outcome&) { if(!m_dead) { m_cur = m_cur == ORDINARY ? -1 : m_cur; } });
            break;
        }
        case 6:
            c.note("connection error");
            c.label("connection error");
            mark([this] { connection_error(); });
            break;
        case 7: respond(); break;
        case 8:
        {
            auto next = w.exec->next_expiry();
            if(next != exe4cpp::steady_time_t::max() && s.chance(3, 4))
            {
                if(next > w.exec->now && s.chance(1, 4)) { w.exec->now = next - std::chrono::nanoseconds(1); c.note("time passes to just before the next expiry"); }
                else { w.exec->now = std::max(w.exec->now, next); c.note("time passes to the next expiry"); }
            }
            else { auto d = std::chrono::milliseconds(s.range(0, 3000)); w.exec->advance(d); c.note("%lld ms pass", (long long)d.count()); }
            break;
        }
        case 9: c.note("expired timers are queued"); w.exec->expire(); break;
        case 10: c.note("run all"); drain(); break;
        default: { int n = (int)s.range(1, 3); c.note("run %d", n); while(n--) w.exec->run_one(); }
        }
    }
    void op(int what, size_t i)
    {
        auto& r = *sch[i];
        switch(what)
        {
        case 0: if(r.shut) return; c.note("start %zu", i); r.real->start(); mark([this, i] { start(i); }); break;
        case 1: c.note("stop %zu", i); r.real->stop(); mark([this, i] { stop(i); }); break;
        default:
        {
            const auto f = gen_freq(r.valid);
            c.note("set the period of %zu to %lld us", i, us(f));
            c.label("period changed");
            r.real->set_frequency(f);
            mark([this, i, f] { sch[i]->freq = f; });
        }
        }
    }
    // polls that go on for a long time, mostly with the same outcome, or are restarted very often
    void endurance()
    {
        const int kind = (int)s.below(3);
        c.label(kind == 2 ? "restarted many times" : "polled for a long time");
        m_pdu = kind == 2 ? -1 : (int)s.below(3);
        m_ops = 30;
        for(int n = (int)s.range(300, 900); n--;)
        {
            pbt::Group g(s);
            const size_t i = s.below(sch.size());
            if(kind == 2)
            {
                if(s.chance(2, 3)) op(1, i);
                op(0, i);
                if(s.chance(1, 2)) { drain(); if(s.chance(1, 2)) respond(); }
                continue;
            }
            if(n % 100 == 0) op(0, i);
            drain();
            if(m_cur >= 0 && !s.chance(1, 20)) { respond(); drain(); }
            if(w.exec->next_expiry() != exe4cpp::steady_time_t::max()) w.exec->now = std::max(w.exec->now, w.exec->next_expiry());
        }
        m_pdu = -1;
    }
    void respond()
    {
        if(m_cur < 0) { drain(); if(m_cur < 0) return; }
        c.note("respond to the outstanding request");
        const auto cur = w.conn->sent.back().bytes;
        const long who = m_cur;
        Req q;
        q.fc = cur[7]; q.addr = ref::g16(cur, 8); q.qty = ref::g16(cur, 10);
        Bytes pdu;
        switch(m_pdu >= 0 ? (size_t)m_pdu : s.weighted({4, 1, 1}))
        {
        case 0: pdu = ref::encode(ref::gen_response(s, q)); break;
        case 1: pdu = ref::encode_exception((uint8_t)q.fc, (uint8_t)s.range(1, 6)); break;
        default: pdu = Bytes{(uint8_t)q.fc};
        }
        const auto f = ref::frame(ref::g16(cur, 0), cur[6], pdu);
        const auto want = expected_outcome(q, pdu);
        const size_t sent = w.conn->sent.size();
        mark([this, f, want, who, sent] {
            auto l = w.conn->listener.lock();
            if(!l) return;
            const bool awaited = m_cur == who && w.conn->sent.size() == sent;
            m_want = awaited && who != ORDINARY ? &want : nullptr;
            l->on_receive(seq_of(f.data(), f.size()));
            m_want = nullptr;
        });
    }
    void drain()
    {
        if(!w.exec->drain()) c.fail("C19/livelock", "the channel never settles");
        for(size_t i = 0; i < sch.size(); ++i)
        {
            auto& r = *sch[i];
            for(auto& x : r.inst)
                if(!x.transmitted && (m_cur < 0 || !r.valid)) c.fail("C19/missing", "scheduled request %zu should have been sent (instance %zu) but was not", i, r.issues);
            if(r.real->is_running() != r.running) c.fail("C19/is-running", "scheduled request %zu: is_running() is %d", i, (int)r.real->is_running());
            if(r.real->get_frequency() != r.freq) c.fail("C19/get-frequency", "scheduled request %zu: get_frequency() is %lld us, expected %lld", i, us(r.real->get_frequency()), us(r.freq));
        }
        if(m_cur >= 0 && m_cur != ORDINARY && w.exec->now >= m_sent_at + sch[(size_t)m_cur]->timeout)
            c.fail("C19/timeout", "scheduled request %ld is outstanding %lld us after its transmission, its timeout is %lld us", m_cur, us(w.exec->now - m_sent_at), us(sch[(size_t)m_cur]->timeout));
    }

    void connection_error()
    {
        // not while a request is on its way to the channel: whether the error ends it cannot be told from here
        for(auto& r : sch) for(auto& x : r->inst) if(!x.queued) { mark([this] { connection_error(); }); return; }
        auto l = w.conn->listener.lock();
        if(!l) return;
        m_in_error = true;
        l->on_error("lost");
        m_in_error = false;
        m_cur = m_cur == ORDINARY ? -1 : m_cur;
    }

    // ---- the model
    void issue_instance(size_t i)
    {
        auto& r = *sch[i];
        const uint64_t id = ++r.issues;
        r.inst.push_back({r.run, id, false, false});
        // the channel queues the request in an action of its own, next to this one
        mark([this, i, id] { for(auto& x : sch[i]->inst) if(x.id == id) x.queued = true; });
    }
    void start(size_t i)
    {
        auto& r = *sch[i];
        if(r.running) return;
        r.running = true;
        if(r.run) ++r.restarts;
        ++r.run;
        if(!r.inst.empty()) ++m_restart_in_flight;
        issue_instance(i);
    }
    void stop(size_t i)
    {
        auto& r = *sch[i];
        if(!r.running) return;
        r.running = false;
        r.shadow.cancel();
    }
    void on_send(const Bytes& b)
    {
        if(b.size() < 10) c.fail("C19/frame", "transmitted %s", pbt::hex(b).c_str());
        const uint16_t addr = ref::g16(b, 8);
        if(addr < 1000) { m_cur = ORDINARY; return; }
        const size_t i = addr - 1000u;
        if(i >= sch.size() || b != ref::frame(ref::g16(b, 0), sch[i]->unit, ref::encode(sch[i]->q))) c.fail("C19/frame", "transmitted %s, which is no scheduled request", pbt::hex(b).c_str());
        auto& r = *sch[i];
        for(auto& x : r.inst)
            if(!x.transmitted)
            {
                x.transmitted = true;
                m_cur = (long)i;
                m_sent_at = w.exec->now;
                return;
            }
        c.fail("C19/unexpected", "scheduled request %zu (%s) was sent although it was %s", i, r.q.str().c_str(),
               !r.running ? "stopped" : r.inst.empty() ? "waiting for its period to elapse" : "already in flight");
    }
    void on_outcome(size_t i, const Outcome& o)
    {
        auto& r = *sch[i];
        ++r.outcomes;
        if(c.verbose) c.note("    scheduled request %zu: %s", i, o.str().c_str());
        size_t k = r.inst.size();
        // a connection error first ends what is queued, then what is on the wire
        if(!r.valid) k = 0;
        else if(m_in_error) for(size_t n = r.inst.size(); n-- > 0;) if(r.inst[n].queued && !r.inst[n].transmitted) k = n;
        if(r.valid && k == r.inst.size()) for(size_t n = 0; n < r.inst.size(); ++n) if(r.inst[n].transmitted) { k = n; break; }
        if(r.inst.empty() || k == r.inst.size()) c.fail("C19/extra-outcome", "scheduled request %zu got %s without having been sent", i, o.str().c_str());
        if(o.kind == Outcome::Timeout && w.exec->now < m_sent_at + r.timeout)
            c.fail("C19/timeout", "scheduled request %zu timed out after %lld us, its timeout is %lld us", i, us(w.exec->now - m_sent_at), us(r.timeout));
        if(!r.valid && o.kind != Outcome::MalformedRequest) c.fail("C19/outcome", "the invalid scheduled request %zu got %s", i, o.str().c_str());
        if(m_want && !(o == *m_want)) c.fail("C19/outcome", "scheduled request %zu got %s instead of %s", i, o.str().c_str(), m_want->str().c_str());
        static const char* n[] = {"outcome: value", "outcome: exception", "outcome: malformed request", "outcome: malformed response", "outcome: timeout", "outcome: connection error", "outcome: other"};
        c.label(n[o.kind]);
        const Inst x = r.inst[k];
        if(x.transmitted) m_cur = -1;
        r.inst.erase(r.inst.begin() + (long)k);
        if(r.running && x.run == r.run)
        {
            const uint64_t run = r.run;
            r.shadow = w.exec->start(r.freq, [this, i, run] {
                if(m_dead) return;
                auto& r = *sch[i];
                if(r.running && r.run == run) issue_instance(i);
            });
        }
        if(m_ops < 30 && s.chance(1, 5))
        {
            ++m_ops;
            c.label("operation inside a handler");
            op((int)s.below(3), s.chance(2, 3) ? i : s.below(sch.size()));
        }
    }

    static constexpr long ORDINARY = 100000;
    Ctx& c;
    pbt::Src& s;
    std::vector<Sess> sessions;
    std::vector<std::shared_ptr<Sched>> sch;
    long m_cur = -1;                     // scheduled request whose frame is on the wire
    exe4cpp::steady_time_t m_sent_at{};
    const Outcome* m_want = nullptr;
    bool m_in_error = false, m_dead = false;
    int m_pdu = -1;
    size_t m_ops = 0, m_restart_in_flight = 0;
    ClientWorld w;                       // last: destroyed first
};

void c19(Ctx& c)
{
    World w(c);
    w.run();
}

pbt::Register r19([] {
    pbt::Property p;
    p.id = "C19";
    p.run = c19;
    p.quick_cases = 500000;
    p.thorough_cases = 5000000;
    p.rule = "random histories of up to four scheduled requests of the four read functions (some invalid) on one or two sessions of a channel under virtual time: schedule, start, stop, change of period (also from inside handlers), session shutdown, ordinary traffic, responses, exceptions, malformed responses, timeouts, connection errors, and expired timers queued at chosen moments; some go on for hundreds of polls or restarts. "
             "A model kept in lock-step (each model action is posted right behind the real one; a shadow timer runs next to the real one) says when an instance is due; judged: every transmission has a due instance, every due instance is transmitted, every instance has one outcome, is_running/get_frequency agree, nothing goes on after the final stop. Non-trivial = at least four instances.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "the executor runs posted actions one at a time in FIFO order; a timer that expired before it was cancelled still runs, as with asio",
                     "a scheduled request is not started again after its session was shut down (the API forbids using such a session)"};
    p.required_labels = {"outcome: value", "outcome: exception", "outcome: malformed request", "outcome: malformed response", "outcome: timeout", "outcome: connection error",
                         "operation inside a handler", "period changed", "restarted", "restarted while in flight", "timer already expired when cancelled", "session shut down", "restarted many times", "polled for a long time", "period of zero"};
    return p;
}());

} // namespace
