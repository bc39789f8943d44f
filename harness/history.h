// Random histories on a client channel under virtual time. Everything observable (issue, transmission,
// outcome, received bytes, connection errors) is judged event by event; each judgement belongs to one
// or more properties and is reported only by the checks of those.
#pragma once
#include <map>
#include <set>
#include "client_world.h"
#include "server_world.h"

namespace hist {

using pbt::Ctx;
using glue::Outcome;
using ref::Bytes;
using ref::Req;

enum Prop : unsigned { C14 = 1, C15 = 2, C16 = 4, C17 = 8, C18 = 16, C20 = 32 };

struct Options
{
    unsigned props = 0;             // properties this check reports
    unsigned w_issue = 8, w_receive = 8, w_error = 1, w_advance = 4, w_expire = 2, w_run = 4, w_drain = 4;
    unsigned invalid_of_16 = 1;     // share of requests outside the limits
    unsigned foreign_of_16 = 6;     // share of frames that are not the awaited response
    unsigned steps = 30;
    unsigned max_requests = 60;
};

struct HReq
{
    size_t id;
    Req q;
    uint8_t unit;
    modbus::duration_t timeout;
    bool valid;
    size_t valid_no;                // number of valid requests issued before it
    bool queued = false, sent = false;
    exe4cpp::steady_time_t sent_at{};
    uint16_t tid = 0;
    std::vector<Outcome> outcomes;
    bool done() const { return !outcomes.empty(); }
};

struct Event { bool send; size_t req; Outcome o; exe4cpp::steady_time_t time; };

// Requests outside the limits of Modbus
inline Req gen_invalid(pbt::Src& s)
{
    Req r = ref::gen_request(s, ref::FCS[s.below(8)]);
    while(r.fc == 5 || r.fc == 6) r = ref::gen_request(s, ref::FCS[s.below(8)]);
    const bool zero = s.chance(1, 3);
    const unsigned max = ref::max_qty(r.fc);
    unsigned n = zero ? 0 : s.chance(1, 2) ? max + 1 : max + 1 + (unsigned)s.below(r.fc <= 4 ? 65535 - max : 3000);
    // lengths whose low bits look legal
    if(!zero && s.chance(1, 4)) { if(r.fc <= 4) n = 32768 + (unsigned)s.range(1, 100); else n = 65536 + (unsigned)s.range(0, 20); }
    if(r.fc <= 4) r.qty = (uint16_t)n;
    else if(r.fc == 0x0F) r.bits.assign(n, true);
    else r.regs.assign(n, 7);
    return r;
}

class History
{
public:
    History(Ctx& c, const Options& o, std::shared_ptr<modbus::Logger> logger = nullptr) : c(c), s(c.src), opt(o), w(logger)
    {
        w.conn->on_send = [this]() { if(!m_dead) on_send(w.conn->sent.back().bytes); };
    }
    ~History() { m_dead = true; }    // the world shuts the channel down, which is not judged

    void run()
    {
        const size_t ns = (size_t)s.range(1, 3);
        for(size_t i = 0; i < ns; ++i) add_session();
        const size_t n = (size_t)s.range(1, (int64_t)opt.steps);
        for(size_t i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            step();
        }
        settle();
        finish();
    }

    // --- pieces for directed histories
    void add_session()
    {
        const uint8_t unit = s.chance(1, 3) && !sessions.empty() ? sessions[s.below(sessions.size())].unit : s.byte_i();
        const auto t = gen_timeout();
        auto p = w.channel->create_session(modbus::UnitIdentifier{unit}, t);
        if(!p) c.fail("session", "create_session returned nothing");
        sessions.push_back({p, unit, t});
        c.note("session %zu: unit %u, default timeout %lld us", sessions.size() - 1, unit, us(t));
    }
    size_t issue_request(size_t k, const Req& q, const modbus::duration_t* timeout)
    {
        auto r = std::make_shared<HReq>();
        r->id = reqs.size();
        r->q = q;
        r->unit = sessions[k].unit;
        r->timeout = timeout ? *timeout : sessions[k].timeout;
        r->valid = q.valid();
        r->valid_no = m_valid;
        m_valid += r->valid;
        reqs.push_back(r);
        issue(*sessions[k].p, q, timeout, [this, r](const Outcome& o) { if(!m_dead) on_outcome(r->id, o); });
        w.exec->post([r]() { r->queued = true; });
        return r->id;
    }
    // delivers bytes to the client as one chunk
    void post_chunk(const Bytes& b)
    {
        const unsigned epoch = m_epoch;
        w.exec->post([this, b, epoch]() {
            if(epoch != m_epoch) return;      // the connection these bytes came from is gone
            auto l = w.conn->listener.lock();
            if(!l) return;                    // nothing was ever sent, so there is no connection
            m_stream.insert(m_stream.end(), b.begin(), b.end());
            Bytes rest;
            const auto fresh = ref::deframe(m_stream, &rest);
            m_stream = rest;
            const long cur = outstanding();
            m_events.clear();
            m_in_receive = true;
            std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]);
            if(!b.empty()) memcpy(p.get(), b.data(), b.size());
            l->on_receive(seq_of(p.get(), b.size()));
            m_in_receive = false;
            judge_receive(fresh, cur);
        });
    }
    void post_conn_error()
    {
        const unsigned epoch = m_epoch;
        w.exec->post([this, epoch]() {
            if(epoch != m_epoch) return;
            auto l = w.conn->listener.lock();
            if(!l) return;
            ++m_epoch;
            m_stream.clear();
            m_outbox.clear();
            std::vector<size_t> hit;
            for(size_t i = m_first_open; i < reqs.size(); ++i) { auto& r = reqs[i]; if(r->valid && r->queued && !r->done()) hit.push_back(r->id); }
            m_events.clear();
            m_in_error = true;
            l->on_error("lost");
            m_in_error = false;
            if(!hit.empty()) c.label(hit.size() > 1 ? "error with several requests" : "error with a request");
            for(size_t id : hit)
                if(!reqs[id]->done()) violate(C20 | C14, "not-cancelled", pbt::fmt("request %zu was queued or outstanding when the connection was lost, but got no outcome", id));
        });
    }
    void drain()
    {
        if(!w.exec->drain()) violate(~0u, "livelock", "the channel never settles");
        judge_idle();
    }
    void settle()
    {
        for(size_t i = 0;; ++i)
        {
            drain();
            if(m_outstanding >= 0 && i < 200 && s.chance(1, 2)) { gen_receive(); continue; }
            if(!w.exec->has_waiting()) break;
            if(i > 20 * reqs.size() + 2000) { violate(C14 | C17, "endless", "timers never end"); break; }
            if(w.exec->next_expiry() > w.exec->now) w.exec->now = w.exec->next_expiry();
        }
    }
    void finish()
    {
        size_t responses = 0;
        for(auto& r : reqs)
        {
            if(r->outcomes.size() != 1)
            {
                unsigned p = C14;
                if(!r->valid) p |= C18;
                else { if(r->sent) p |= C17; else p |= C15 | C18; }
                violate(p, "no-outcome", pbt::fmt("request %zu (%s)%s never got an outcome", r->id, r->q.str().c_str(), r->sent ? ", transmitted," : ""));
                continue;
            }
            static const char* n[] = {"outcome: value", "outcome: exception", "outcome: malformed request", "outcome: malformed response", "outcome: timeout", "outcome: connection error", "outcome: other"};
            c.label(n[r->outcomes[0].kind]);
            ++kinds[r->outcomes[0].kind];
            if(r->outcomes[0].kind <= Outcome::MalformedResponse && r->valid) ++responses;
            if(r->valid && !r->sent && r->outcomes[0].kind != Outcome::Connection)
                violate(C18 | C15, "not-transmitted", pbt::fmt("request %zu (%s) was never transmitted", r->id, r->q.str().c_str()));
        }
        if(w.exec->late_cancelled_runs) c.label("timer already expired when cancelled");
        if(m_nested) c.label("request issued from a handler");
    }

    struct Sess { std::shared_ptr<modbus::IClientSession> p; uint8_t unit; modbus::duration_t timeout; };
    std::vector<std::shared_ptr<HReq>> reqs;
    std::map<int, size_t> kinds;
    size_t foreign = 0, frames_in = 0;
    bool handlers_issue = true;
    long outstanding() const { return m_outstanding; }
    void respond_to(size_t id, const Bytes& pdu) { post_chunk(ref::frame(reqs[id]->tid, reqs[id]->unit, pdu)); }

private:
    static long long us(modbus::duration_t d) { return (long long)std::chrono::duration_cast<std::chrono::microseconds>(d).count(); }
    modbus::duration_t gen_timeout()
    {
        using namespace std::chrono;
        switch(s.weighted({12, 4, 2, 2, 1}))
        {
        case 4: return s.chance(1, 2) ? duration_cast<modbus::duration_t>(minutes(s.range(1, 600))) : duration_cast<modbus::duration_t>(hours(s.range(1, 1500)));
        case 0: return milliseconds(100 * s.range(1, 20));
        case 1: return milliseconds(s.range(1, 3000));
        case 2: return seconds(s.range(1, 100));
        default: return microseconds(s.range(0, 2000));
        }
    }
    Req gen_req()
    {
        if(s.below(16) < opt.invalid_of_16) return gen_invalid(s);
        Req r = ref::gen_request(s);
        if(s.chance(7, 8))   // keep most of them small
        {
            if(r.fc <= 4) r.qty = (uint16_t)s.range(1, 20);
            if(r.bits.size() > 20) r.bits.resize((size_t)s.range(1, 20));
            if(r.regs.size() > 8) r.regs.resize((size_t)s.range(1, 8));
        }
        return r;
    }
    void gen_issue()
    {
        if(reqs.size() >= opt.max_requests) return;
        const size_t k = s.below(sessions.size());
        const Req q = gen_req();
        auto t = gen_timeout();
        const bool expl = s.chance(1, 2);
        c.note("issue request %zu on session %zu: %s%s", reqs.size(), k, q.str().c_str(), expl ? pbt::fmt(" timeout %lld us", us(t)).c_str() : "");
        issue_request(k, q, expl ? &t : nullptr);
    }
    void step()
    {
        switch(s.weighted({opt.w_issue, opt.w_receive, opt.w_error, opt.w_advance, opt.w_expire, opt.w_run, opt.w_drain, 1}))
        {
        case 0: for(int n = s.chance(1, 4) ? (int)s.range(2, 5) : 1; n--;) gen_issue(); break;
        case 1: gen_receive(); break;
        case 2: c.note("connection error"); post_conn_error(); break;
        case 3:
        {
            auto next = w.exec->next_expiry();
            const bool have = next != exe4cpp::steady_time_t::max();
            switch(s.below(4))
            {
            case 0: if(have) { w.exec->now = std::max(w.exec->now, next); c.note("time passes to the next expiry"); break; } // fallthrough
            case 1: if(have && next > w.exec->now) { w.exec->now = next - std::chrono::nanoseconds(s.range(1, 1000)); c.note("time passes to just before the next expiry"); break; } // fallthrough
            case 2: { auto d = std::chrono::milliseconds(s.range(0, 500)); w.exec->advance(d); c.note("%lld ms pass", (long long)d.count()); break; }
            default: { auto d = std::chrono::milliseconds(s.range(0, 5000)); w.exec->advance(d); c.note("%lld ms pass", (long long)d.count()); }
            }
            break;
        }
        case 4: c.note("expired timers are queued"); w.exec->expire(); break;
        case 5: { int n = (int)s.range(1, 3); c.note("run %d", n); while(n--) w.exec->run_one(); break; }
        case 6: c.note("run all"); drain(); break;
        default: if(sessions.size() < 5) add_session();
        }
    }
    void gen_receive()
    {
        const long cur = m_outstanding;
        Bytes f;
        if(!m_outbox.empty() && s.chance(1, 2)) { /* deliver more of what was already produced */ }
        else if(s.below(16) < opt.foreign_of_16 || cur < 0) f = gen_foreign(cur);
        else
        {
            auto& r = *reqs[(size_t)cur];
            Bytes pdu;
            switch(s.weighted({6, 2, 2, 1}))
            {
            case 0: pdu = ref::encode(ref::gen_response(s, r.q)); c.note("response to request %ld", cur); break;
            case 1: pdu = ref::encode_exception((uint8_t)r.q.fc, (uint8_t)s.range(1, 12)); c.note("exception for request %ld", cur); break;
            case 2: pdu = ref::encode(ref::gen_response(s, r.q)); if(s.chance(1, 2)) pdu.resize(s.below(pdu.size())); else pdu.push_back(s.byte()); c.note("malformed response to request %ld", cur); break;
            default: pdu = s.bytes((size_t)s.range(0, 8)); c.note("random response to request %ld", cur);
            }
            f = ref::frame(r.tid, r.unit, pdu);
            ++frames_in;
        }
        m_outbox.insert(m_outbox.end(), f.begin(), f.end());
        if(m_outbox.empty()) return;
        size_t n = m_outbox.size();
        if(s.chance(1, 4)) { n = (size_t)s.range(1, (int64_t)n); c.label("partial delivery"); }
        post_chunk(Bytes(m_outbox.begin(), m_outbox.begin() + (long)n));
        m_outbox.erase(m_outbox.begin(), m_outbox.begin() + (long)n);
    }
    Bytes gen_foreign(long cur)
    {
        ++foreign;
        std::vector<size_t> old;
        for(auto& r : reqs) if(r->sent && r->done()) old.push_back(r->id);
        switch(s.weighted({3, 3, 2, 2, 1, 1, 1}))
        {
        case 0:  // late or duplicated
            if(!old.empty())
            {
                auto& r = *reqs[old[old.size() - 1 - s.below(std::min<size_t>(old.size(), 4))]];
                c.note("late or repeated response to request %zu", r.id);
                c.label("late response");
                return ref::frame(r.tid, r.unit, ref::encode(ref::gen_response(s, r.q)));
            } // fallthrough
        case 1:  // right transaction, other unit
            if(cur >= 0)
            {
                auto& r = *reqs[(size_t)cur];
                const uint8_t u = (uint8_t)(r.unit + (s.chance(1, 2) ? 1 : s.range(1, 255)));
                c.note("response to request %ld with unit %u", cur, u);
                c.label("response with another unit");
                return ref::frame(r.tid, u, ref::encode(ref::gen_response(s, r.q)));
            } // fallthrough
        case 2:  // right unit, other transaction
            if(cur >= 0)
            {
                auto& r = *reqs[(size_t)cur];
                const uint16_t t = (uint16_t)(r.tid + (s.chance(1, 2) ? s.pick(std::vector<int>{1, -1, 256, -256, 512, 0x8000}) : s.range(1, 65535)));
                c.note("response to request %ld with transaction %u", cur, t);
                c.label("response with another transaction");
                return ref::frame(t, r.unit, ref::encode(ref::gen_response(s, r.q)));
            } // fallthrough
        case 3:  // foreign protocol
            if(cur >= 0)
            {
                auto& r = *reqs[(size_t)cur];
                c.note("response to request %ld of a foreign protocol", cur);
                return ref::frame(r.tid, r.unit, ref::encode(ref::gen_response(s, r.q)), (uint16_t)s.range(1, 65535));
            } // fallthrough
        case 4: c.note("frame without length"); return ref::frame(cur >= 0 ? reqs[(size_t)cur]->tid : s.u16(), cur >= 0 ? reqs[(size_t)cur]->unit : s.byte(), {}, 0, 0);
        case 5: { c.note("over-long frame"); Bytes b = ref::encode_exception(3, 2); b.resize((size_t)s.range(254, 400), 0x55); return ref::frame(s.chance(1, 2) && cur >= 0 ? reqs[(size_t)cur]->tid : s.u16(), cur >= 0 ? reqs[(size_t)cur]->unit : 1, b); }
        default: c.note("unsolicited frame"); return ref::frame(s.u16_i(), s.pick(sessions).unit, ref::encode_exception(3, 2));
        }
    }

    // ------------------------------------------------------------------ judgements
    void violate(unsigned props, const char* key, const std::string& msg)
    {
        if(opt.props & props) { static const char* n[] = {"C14", "C15", "C16", "C17", "C18", "C20"}; std::string id; for(int i = 0; i < 6; ++i) if(opt.props & (1u << i)) { id = n[i]; break; } c.fail((id + "/" + key).c_str(), "%s", msg.c_str()); }
        c.label(std::string("other property: ") + key);
    }
    void on_send(const Bytes& b)
    {
        if(m_outstanding >= 0) violate(C15, "overlap", pbt::fmt("a frame was transmitted while request %ld is outstanding", m_outstanding));
        HReq* next = nullptr;
        for(size_t i = m_first_open; i < reqs.size(); ++i)
        {
            if(reqs[i]->done() || !reqs[i]->valid) { if(i == m_first_open) ++m_first_open; continue; }
            if(reqs[i]->sent) continue;
            next = reqs[i].get();
            break;
        }
        if(b.size() < 8) { violate(C15 | C18, "frame", "transmitted " + pbt::hex(b)); return; }
        if(!next) { violate(C15 | C18, "extra-frame", "a frame was transmitted although no request is waiting: " + pbt::hex(b, 40)); return; }
        const uint16_t tid = ref::g16(b, 0);
        if(b != ref::frame(tid, next->unit, ref::encode(next->q)))
        {
            bool inv = false;
            for(auto& r : reqs) if(!r->valid && b.size() > 9 && b[7] == r->q.fc && ref::g16(b, 8) == r->q.addr) inv = true;
            violate(inv ? C15 | C18 : C15, "order", pbt::fmt("transmitted %s, but the next request in order is %zu (%s)", pbt::hex(b, 40).c_str(), next->id, next->q.str().c_str()));
            return;
        }
        next->sent = true;
        next->sent_at = w.exec->now;
        next->tid = tid;
        m_outstanding = (long)next->id;
        auto t = m_tids.emplace(tid, next->valid_no);
        if(!t.second && next->valid_no - t.first->second < 65536)
            violate(C15, "transaction", pbt::fmt("transaction identifier %u is used again after %zu requests", tid, next->valid_no - t.first->second));
        t.first->second = next->valid_no;
        if(m_in_receive) m_events.push_back({true, next->id, {}, w.exec->now});
    }
    void on_outcome(size_t id, const Outcome& o)
    {
        auto& r = *reqs[id];
        if(c.verbose) c.note("    request %zu: %s", id, o.str().c_str());
        r.outcomes.push_back(o);
        if(r.outcomes.size() > 1)
        {
            violate(C14 | (r.valid ? 0u : C18), "twice", pbt::fmt("request %zu got a second outcome: %s after %s", id, o.str().c_str(), r.outcomes[0].str().c_str()));
            return;
        }
        if(!r.valid)
        {
            if(o.kind != Outcome::MalformedRequest) violate(C18, "invalid-outcome", pbt::fmt("the invalid request %zu (%s) got %s", id, r.q.str().c_str(), o.str().c_str()));
        }
        else switch(o.kind)
        {
        case Outcome::MalformedRequest: violate(C18, "valid-refused", pbt::fmt("the valid request %zu (%s) was refused as malformed", id, r.q.str().c_str())); break;
        case Outcome::Timeout:
            if(!r.sent) violate(C17, "timeout-unsent", pbt::fmt("request %zu timed out without having been transmitted", id));
            else if(w.exec->now < r.sent_at + r.timeout)
                violate(C17, "early-timeout", pbt::fmt("request %zu timed out after %lld us, its timeout is %lld us", id, us(w.exec->now - r.sent_at), us(r.timeout)));
            break;
        case Outcome::Connection:
            if(!m_in_error) violate(C14 | C20, "spurious-error", pbt::fmt("request %zu got a connection error although the connection was not lost", id));
            break;
        case Outcome::Other: violate(C14, "other", pbt::fmt("request %zu got %s", id, o.str().c_str())); break;
        default:
            if(!m_in_receive) violate(C16, "no-frame", pbt::fmt("request %zu got %s although nothing was received", id, o.str().c_str()));
        }
        if(m_outstanding == (long)id) m_outstanding = -1;
        if(m_in_receive) m_events.push_back({false, id, o, w.exec->now});
        if(handlers_issue && reqs.size() < opt.max_requests && m_depth < 40 && s.chance(1, 5))
        {
            ++m_depth;
            ++m_nested;
            for(int n = (int)s.range(1, 2); n--;) gen_issue();
        }
    }
    void judge_receive(const std::vector<ref::Frame>& frames, long cur)
    {
        size_t e = 0;
        auto sends = [&]() { while(e < m_events.size() && m_events[e].send) cur = (long)m_events[e++].req; };
        for(auto& f : frames)
        {
            if(cur < 0) continue;
            auto& r = *reqs[(size_t)cur];
            if(f.tid != r.tid || f.unit != r.unit) continue;
            const Outcome want = glue::expected_outcome(r.q, f.pdu);
            if(e >= m_events.size() || m_events[e].send || m_events[e].req != r.id)
            {
                violate(C16, "ignored", pbt::fmt("the response [%s] to the outstanding request %zu was not delivered to it", f.str().c_str(), r.id));
                return;
            }
            const Outcome got = m_events[e].o;
            if(got.kind != Outcome::Timeout && !(got == want))
                violate(C16, "decoded", pbt::fmt("request %zu (%s) got %s for the frame [%s], expected %s", r.id, r.q.str().c_str(), got.str().c_str(), f.str().c_str(), want.str().c_str()));
            ++e;
            cur = -1;
            sends();
        }
        for(; e < m_events.size(); ++e)
            if(!m_events[e].send)
            {
                auto k = m_events[e].o.kind;
                if(k == Outcome::Value || k == Outcome::Modbus || k == Outcome::MalformedResponse)
                    violate(C16, "foreign", pbt::fmt("request %zu (transaction %u, unit %u) got %s although its response was not received", m_events[e].req, reqs[m_events[e].req]->tid, reqs[m_events[e].req]->unit, m_events[e].o.str().c_str()));
                else if(k != Outcome::Timeout)
                    violate(C14, "unexpected", pbt::fmt("request %zu got %s on reception", m_events[e].req, m_events[e].o.str().c_str()));
            }
    }
    void judge_idle()
    {
        if(m_outstanding >= 0)
        {
            auto& r = *reqs[(size_t)m_outstanding];
            if(w.exec->now >= r.sent_at + r.timeout)
                violate(C17, "late-timeout", pbt::fmt("request %zu is still outstanding %lld us after its transmission, its timeout is %lld us", r.id, us(w.exec->now - r.sent_at), us(r.timeout)));
            return;
        }
        for(size_t i = m_first_open; i < reqs.size(); ++i)
        {
            auto& r = *reqs[i];
            if(r.valid && r.queued && !r.sent && !r.done())
                violate(C14 | C15 | C17 | C18, "stuck", pbt::fmt("request %zu waits although nothing is outstanding", r.id));
        }
    }

    Ctx& c;
    pbt::Src& s;
    Options opt;
    Bytes m_stream, m_outbox;
    unsigned m_epoch = 0;
    bool m_in_receive = false, m_in_error = false, m_dead = false;
    long m_outstanding = -1;
    size_t m_first_open = 0, m_depth = 0, m_nested = 0;
    std::vector<Event> m_events;
    std::map<uint16_t, size_t> m_tids;    // identifier -> last valid_no
    size_t m_valid = 0;
public:
    std::vector<Sess> sessions;
    ClientWorld w;       // last: destroyed first
};

} // namespace hist
