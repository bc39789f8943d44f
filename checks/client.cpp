// C14 .. C18: the client channel over random histories in virtual time
#include "history.h"

using namespace glue;
using namespace hist;

namespace {

std::vector<std::string> base_assumptions()
{
    return {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
            "the executor runs posted actions one at a time in FIFO order; a timer that expired before it was cancelled still runs, as with asio"};
}
Options options(unsigned prop, bool thorough)
{
    Options o;
    o.props = prop;
    o.steps = thorough ? 60 : 30;
    return o;
}

// A long history: more requests than there are transaction identifiers
void long_run(Ctx& c, unsigned prop, size_t total)
{
    Options o = options(prop, false);
    o.max_requests = total + 1000;
    History h(c, o);
    h.handlers_issue = false;
    h.add_session();
    h.add_session();
    Req q;
    q.fc = 3; q.qty = 1;
    const modbus::duration_t t = std::chrono::seconds(1);
    const unsigned burst = (unsigned)c.src.range(1, 7), lose = (unsigned)c.src.range(500, 3000);
    for(size_t n = 0; n < total;)
    {
        for(unsigned k = 0; k < burst; ++k, ++n) { q.addr = (uint16_t)n; h.issue_request(n & 1, q, &t); }
        h.w.exec->drain();
        if(n % lose < burst) { h.post_conn_error(); h.w.exec->drain(); continue; }
        while(h.outstanding() >= 0) { h.respond_to((size_t)h.outstanding(), {0x83, 2}); h.w.exec->drain(); }
        h.w.conn->sent.clear();
    }
    h.settle();
    h.finish();
    c.label("more than 65536 requests");
    c.nontrivial();
}

// A long queue: many requests of many sessions wait at the same time, and end in every possible way
void deep_queue(Ctx& c, unsigned prop)
{
    Options o = options(prop, false);
    const size_t n = (size_t)c.src.pick(std::vector<int>{130, 260, 1030, 2100, 4100, c.thorough ? 70000 : 9000});
    o.max_requests = 2 * n + 1000;
    o.invalid_of_16 = 1;
    History h(c, o);
    h.handlers_issue = c.src.chance(1, 2);
    const size_t ns = c.src.chance(1, 4) ? 300 : (size_t)c.src.range(1, 5);
    for(size_t i = 0; i < ns; ++i) h.add_session();
    const modbus::duration_t t = std::chrono::milliseconds(c.src.range(1, 3000));
    const bool drained = c.src.chance(1, 2);
    for(size_t i = 0; i < n; ++i)
    {
        Req q;
        q.fc = 3; q.qty = (uint16_t)(i % 97 == 5 ? 0 : 1 + i % 125); q.addr = (uint16_t)i;
        h.issue_request(i % ns, q, &t);
        if(drained && i % 100 == 0) h.w.exec->drain();
    }
    h.w.exec->drain();
    const uint64_t error_every = (uint64_t)c.src.pick(std::vector<int>{5, 700, 100000}), timeout_every = (uint64_t)c.src.pick(std::vector<int>{2, 10, 100000});
    for(size_t k = 0; h.outstanding() >= 0 && k < 3 * n; ++k)
    {
        if(k % error_every == error_every - 1) { h.post_conn_error(); h.drain(); }
        else if(k % timeout_every == timeout_every - 1) { h.w.exec->now = std::max(h.w.exec->now, h.w.exec->next_expiry()); h.drain(); }
        else { h.respond_to((size_t)h.outstanding(), {0x83, 2}); h.drain(); }
        h.w.conn->sent.clear();
    }
    h.settle();
    h.finish();
    c.label("long queue");
    if(n > 1000) c.label("queue of more than 1000");
    c.nontrivial();
}
bool deep_turn(const Ctx& c) { return c.index % 5000 < 3; }

void c14(Ctx& c)
{
    if(deep_turn(c)) { deep_queue(c, C14); return; }
    Options o = options(C14, c.thorough);
    o.w_error = 2;
    o.invalid_of_16 = 2;
    History h(c, o);
    h.run();
    if(h.reqs.size() >= 3 && h.kinds.size() >= 2) c.nontrivial();
}
void c15(Ctx& c)
{
    if(c.index < (c.thorough ? 16u : 2u)) { long_run(c, C15, 67000); return; }
    Options o = options(C15, c.thorough);
    o.w_issue = 12;
    o.foreign_of_16 = 3;
    History h(c, o);
    h.run();
    size_t sent = 0;
    for(auto& r : h.reqs) sent += r->sent;
    if(sent >= 4) c.nontrivial();
}
void c16(Ctx& c)
{
    Options o = options(C16, c.thorough);
    o.w_receive = 14;
    o.foreign_of_16 = 9;
    o.w_error = 1;
    History h(c, o);
    h.run();
    if(h.foreign >= 2 && h.kinds[Outcome::Value] + h.kinds[Outcome::Modbus] + h.kinds[Outcome::MalformedResponse] >= 1) c.nontrivial();
}
void c17(Ctx& c)
{
    if(deep_turn(c)) { deep_queue(c, C17); return; }
    Options o = options(C17, c.thorough);
    o.w_advance = 8;
    o.w_expire = 5;
    o.w_drain = 3;
    History h(c, o);
    h.run();
    if(h.kinds[Outcome::Timeout] >= 1 && h.reqs.size() >= 3) c.nontrivial();
}
void c18(Ctx& c)
{
    if(deep_turn(c)) { deep_queue(c, C18); return; }
    Options o = options(C18, c.thorough);
    o.invalid_of_16 = 7;
    History h(c, o);
    h.run();
    size_t inv = 0, val = 0;
    for(auto& r : h.reqs) (r->valid ? val : inv)++;
    if(inv && val) c.nontrivial();
}

pbt::Property base(const char* id, void (*f)(Ctx&), uint64_t quick, uint64_t thorough)
{
    pbt::Property p;
    p.id = id;
    p.run = f;
    p.quick_cases = quick;
    p.thorough_cases = thorough;
    p.assumptions = base_assumptions();
    return p;
}
const std::vector<std::string> ALL{"outcome: value", "outcome: exception", "outcome: malformed response", "outcome: timeout", "outcome: connection error",
                                   "request issued from a handler", "timer already expired when cancelled", "partial delivery"};

const std::string HOW = "random histories on a client channel with 1-5 sessions under virtual time: requests of all kinds with default and explicit timeouts (also issued inside handlers), responses, exceptions, malformed, late, repeated, foreign and partial frames, connection errors, time steps to, before and past timer expiries, with the moment at which expired timers are queued chosen freely; at the end time runs until everything has ended; some cases let hundreds to thousands of requests of up to 300 sessions wait at the same time. ";
pbt::Register r14([] { auto p = base("C14", c14, 150000, 4000000); p.rule = HOW + "Judged: exactly one outcome per request, connection errors only when the connection was lost. Non-trivial = three or more requests with two or more kinds of outcome."; p.required_labels = ALL; p.required_labels.push_back("outcome: malformed request"); return p; }());
pbt::Register r15([] { auto p = base("C15", c15, 150000, 4000000); p.rule = HOW + "Judged: every transmitted frame is that of the oldest unfinished valid request, none while another is outstanding, transaction identifiers distinct; directed cases issue 67000 requests. Non-trivial = at least four transmissions."; p.required_labels = ALL; p.required_labels.push_back("more than 65536 requests"); p.case_timeout_s = 120; return p; }());
pbt::Register r16([] { auto p = base("C16", c16, 150000, 4000000); p.rule = HOW + "Judged: a request completes with a response exactly when the first frame with its transaction and unit identifiers arrives while it is outstanding, with the reference decoding of it. Non-trivial = two or more foreign frames and a delivered response."; p.required_labels = ALL; for(auto l : {"late response", "response with another unit", "response with another transaction"}) p.required_labels.push_back(l); return p; }());
pbt::Register r17([] { auto p = base("C17", c17, 150000, 4000000); p.rule = HOW + "Judged: timeouts only at or after transmission plus the request's own timeout, and always once that has passed and all due timers have run. Non-trivial = at least one timeout among three or more requests."; p.required_labels = ALL; return p; }());
pbt::Register r18([] { auto p = base("C18", c18, 120000, 3000000); p.rule = HOW + "Nearly half of the requests are outside the limits (zero, one too many, far too many, counts whose low bits look legal). Judged: these get exactly one malformed-request outcome and no transmission, all others are transmitted. Non-trivial = both kinds present."; p.required_labels = ALL; p.required_labels.push_back("outcome: malformed request"); return p; }());

} // namespace
