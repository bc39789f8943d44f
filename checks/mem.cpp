// C29: finished work leaves nothing behind. A generated activity is repeated; the memory and the descriptors in use after
// it must not grow with the number of repetitions.
#include "dbmodel.h"
#include "netkit.h"
#include "pbt.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include <sanitizer/allocator_interface.h>

namespace {

using namespace netkit;
using glue::Outcome;
using modbus::duration_t;
using std::chrono::milliseconds;

// Measurements after 4, 10, 24 and 60 repetitions: each is more than twice the one before, so that a vector that is only
// appended to is reallocated within every interval.
const int AT[] = {4, 10, 24, 60};

struct Growth
{
    size_t bytes[4], fds[4];
    // true if something grew throughout, by at least `unit` bytes per repetition
    bool grew(size_t unit) const
    {
        for(int i = 1; i < 4; ++i) if(bytes[i] < bytes[i - 1] + unit * (size_t)(AT[i] - AT[i - 1])) return false;
        return true;
    }
    bool fds_grew() const { return fds[3] > fds[2] && fds[2] > fds[1] && fds[1] > fds[0]; }
    std::string str() const
    {
        return pbt::fmt("after %d, %d, %d, %d repetitions %zu, %zu, %zu, %zu bytes and %zu, %zu, %zu, %zu descriptors are in use", AT[0], AT[1], AT[2], AT[3],
                        bytes[0], bytes[1], bytes[2], bytes[3], fds[0], fds[1], fds[2], fds[3]);
    }
};
size_t live() { return __sanitizer_get_current_allocated_bytes(); }

template <class F, class M> Growth measure(F&& period, M&& settle_and_count)
{
    Growth g{};
    int done = 0;
    for(int k = 0; k < 4; ++k)
    {
        for(; done < AT[k]; ++done) period();
        g.bytes[k] = settle_and_count();
        g.fds[k] = net::open_fds();
    }
    return g;
}

Bytes garbage(pbt::Src& s)
{
    Bytes b;
    switch(s.below(5))
    {
    case 4:                                                                                         // frames that are fine
        for(auto k = s.range(1, 12); k > 0; --k) { const Bytes f = ref::frame(s.u16(), s.byte(), s.bytes((size_t)s.range(1, 12))); b.insert(b.end(), f.begin(), f.end()); }
        break;
    case 0: b = s.bytes((size_t)s.range(0, 6)); break;                                              // part of a header
    case 1: b = ref::frame(s.u16(), s.byte(), s.bytes((size_t)s.range(1, 60)), (uint16_t)s.range(1, 65535)); break;   // foreign protocol
    case 2: b = ref::frame(s.u16(), s.byte(), s.bytes((size_t)s.range(254, 700))); break;           // too long
    default: b = ref::frame(s.u16(), s.byte(), s.bytes((size_t)s.range(1, 40)), 0, (int)s.range(0, 50));             // wrong length
    }
    return b;
}

// A client channel in virtual time
void client_virtual(Ctx& c)
{
    auto& s = c.src;
    ClientWorld w;
    const size_t sessions = 1 + s.below(3);
    std::vector<std::shared_ptr<modbus::IClientSession>> se;
    const duration_t dt = milliseconds(s.range(1, 100000));
    for(size_t i = 0; i < sessions; ++i) se.push_back(w.channel->create_session(modbus::UnitIdentifier{(uint8_t)(1 + i)}, dt));

    struct Op { int kind; size_t session; std::vector<Req> reqs; std::vector<int> fate; duration_t timeout; Bytes bytes; int extra; };
    std::vector<Op> ops;
    static const char* const FATE[] = {"response", "malformed response", "exception", "timeout", "connection error", "foreign frame first, then response, then its duplicate"};
    const int n = (int)s.range(1, 7);
    int polls = 0;
    for(int i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        Op o{};
        o.kind = (int)s.weighted({10, 2, 2, 2, 2, 2, 2});
        o.session = s.below(sessions);
        o.timeout = milliseconds(s.chance(1, 3) ? s.range(3600000, 100000000) : s.range(1, 1000));
        switch(o.kind)
        {
        case 0:
        {
            const int k = (int)s.range(1, 5);
            for(int j = 0; j < k; ++j) { o.reqs.push_back(ref::gen_request(s)); o.fate.push_back((int)s.below(6)); }
            std::string t;
            for(int f : o.fate) t += std::string(t.empty() ? "" : ", ") + FATE[f];
            c.note("%d requests issued together (%s)", k, t.c_str());
            for(int f : o.fate) c.label(FATE[f]);
            o.extra = s.chance(1, 4);            // the next request from within the handler
            break;
        }
        case 1: o.reqs.push_back(ref::gen_request(s, s.pick(std::vector<int>{1, 2, 3, 4}))); o.reqs[0].qty = 0; c.note("an invalid request"); c.label("invalid request"); break;
        case 2: o.extra = 1; c.note("a timer that fires"); c.label("timer fires"); break;
        case 3: c.note("a timer that is cancelled"); c.label("timer cancelled"); break;
        case 4: o.bytes = garbage(s); c.note("unsolicited bytes, %zu", o.bytes.size()); c.label("unsolicited bytes"); break;
        case 5: c.note("a connection error"); c.label("idle connection error"); break;
        default: o.extra = (int)s.below(3); ++polls; c.note("a poll is started, answered and %s", o.extra == 0 ? "stopped" : o.extra == 1 ? "answered again, and stopped" : "restarted and stopped"); c.label("poll"); break;
        }
        ops.push_back(std::move(o));
    }
    std::vector<std::shared_ptr<modbus::IScheduledRequest>> poll;
    std::vector<size_t> poll_of(ops.size(), 0);
    uint64_t issued = 0, outcomes = 0;
    const milliseconds F(500);
    for(size_t i = 0; i < ops.size(); ++i)
        if(ops[i].kind == 6)
        {
            poll_of[i] = poll.size();
            Req q; q.fc = 3; q.addr = 5; q.qty = 2;
            poll.push_back(schedule(*se[ops[i].session], q, nullptr, F, [&](const Outcome&) { ++outcomes; }));
            w.exec->drain();
            poll.back()->stop();
        }
    auto settle = [&] { if(!w.exec->drain()) c.inconclusive("does not settle"); };
    settle();
    // answers whatever is outstanding in the way `fate` says
    auto answer = [&](int fate) {
        if(w.conn->sent.empty()) return;
        const Bytes f = w.conn->sent.back().bytes;
        const uint16_t tid = ref::g16(f, 0);
        const uint8_t unit = f[6];
        Req q;
        Bytes pdu(f.begin() + 7, f.end());
        ref::decode_request(pdu[0], pdu, q);
        q.fc = pdu[0];
        w.conn->sent.clear();
        const Bytes ok = ref::frame(tid, unit, ref::encode(answer_for(q)));
        switch(fate)
        {
        case 0: w.post_receive(ok); break;
        case 1: w.post_receive(ref::frame(tid, unit, Bytes{(uint8_t)q.fc, 1})); break;
        case 2: w.post_receive(ref::frame(tid, unit, ref::encode_exception(q.fc, 2))); break;
        case 3: w.exec->now = std::max(w.exec->now, w.exec->next_expiry()); break;
        case 4: w.post_error("lost"); break;
        default: w.post_receive(ref::frame((uint16_t)(tid + 1), unit, pdu)); w.post_receive(ok); w.post_receive(ok);
        }
        settle();
    };
    auto period = [&] {
        for(size_t i = 0; i < ops.size(); ++i)
        {
            auto& o = ops[i];
            auto& session = *se[o.session];
            switch(o.kind)
            {
            case 0:
                for(size_t j = 0; j < o.reqs.size(); ++j)
                {
                    ++issued;
                    const bool nest = o.extra && j + 1 == o.reqs.size();
                    issue(session, o.reqs[j], &o.timeout, [&, nest](const Outcome&) {
                        ++outcomes;
                        if(nest) { ++issued; issue(session, o.reqs[0], nullptr, [&](const Outcome&) { ++outcomes; }); }
                    });
                }
                settle();
                for(int f : o.fate) answer(f);
                for(int k = 0; k < 3 && outcomes < issued; ++k) answer(0);       // the nested one
                break;
            case 1: ++issued; issue(session, o.reqs[0], nullptr, [&](const Outcome&) { ++outcomes; }); settle(); break;
            case 2: { auto t = session.start(duration_t(milliseconds(3)), [] {}); w.exec->advance(milliseconds(3)); settle(); break; }
            case 3: { auto t = session.start(duration_t(std::chrono::hours(10)), [] {}); t->cancel(); settle(); break; }
            case 4: w.post_receive(o.bytes); settle(); w.post_error("resynchronised"); settle(); break;
            case 5: w.post_error("lost"); settle(); break;
            default:
            {
                auto& p = *poll[poll_of[i]];
                const uint64_t before = outcomes;
                p.start(); settle(); answer(0);
                if(o.extra == 1) { w.exec->advance(F); settle(); answer(0); }
                if(o.extra == 2) { p.stop(); p.start(); settle(); answer(0); }
                p.stop(); settle();
                issued += outcomes - before;
            }
            }
        }
        w.post_error("end of the period");         // whatever is still outstanding
        settle();
        w.conn->sent.clear();
        w.exec->expire();       // the virtual executor forgets cancelled timers only here
    };
    const auto g = measure(period, [&] { return live(); });
    c.label("client");
    if(outcomes == issued && issued) c.nontrivial();
    if(g.grew(8)) c.fail("C29/client", "a client channel accumulates memory: %s", g.str().c_str());
}

// A server channel in virtual time
void server_virtual(Ctx& c)
{
    auto& s = c.src;
    ServerWorld w;
    w.channel->start();
    auto make_session = [] { return echo_session(); };
    for(int u = 1; u <= 2; ++u) w.channel->add_session(modbus::UnitIdentifier{(uint8_t)u}, make_session());
    auto db = std::make_shared<modbus::InMemoryDatabase>();
    for(int a = 0; a < 40; ++a) { db->add_coil((uint16_t)a, a & 1); db->add_discrete_input((uint16_t)a, !(a & 1)); db->add_holding_register((uint16_t)a, (uint16_t)a); db->add_input_register((uint16_t)a, (uint16_t)(7 * a)); }
    w.channel->add_session(modbus::UnitIdentifier{3}, db);
    w.exec->drain();
    auto lasting = w.connect();
    struct Op { int kind; std::vector<Bytes> chunks; bool fresh; uint8_t unit; bool cut; };
    std::vector<Op> ops;
    const int n = (int)s.range(1, 6);
    for(int i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        Op o{};
        o.kind = (int)s.weighted({8, 2, 3});
        o.unit = (uint8_t)s.range(1, 4);        // 4 is unknown
        o.fresh = s.chance(1, 2);
        if(o.kind == 0)
        {
            Bytes b;
            const int k = (int)s.range(1, 6);
            for(int j = 0; j < k; ++j)
            {
                Req q = ref::gen_request(s);
                Bytes pdu = ref::encode(q);
                switch(s.weighted({8, 2, 2, 2}))
                {
                case 0: break;
                case 1: pdu.resize(1 + s.below(pdu.size())); break;
                case 2: pdu[0] = s.byte(); break;
                default: pdu.push_back(s.byte());
                }
                const Bytes f = s.chance(1, 8) ? garbage(s) : ref::frame(s.u16(), o.unit, pdu);
                b.insert(b.end(), f.begin(), f.end());
            }
            if(s.chance(1, 4)) { b.resize(1 + s.below(b.size())); o.cut = true; o.fresh = true; }
            o.chunks = split(s, b, (int)s.below(4));
            c.note("%d frames for unit %u in %zu chunks on %s connection%s", k, o.unit, o.chunks.size(), o.fresh ? "a new" : "the lasting", o.cut ? ", then lost" : "");
            c.label(o.fresh ? "new connections" : "lasting connection");
        }
        else if(o.kind == 1) { o.unit = (uint8_t)(1 + o.unit % 2); c.note("the session of unit %u is replaced", o.unit); c.label("session replaced"); }
        else { c.note("a transaction on the database"); c.label("transaction"); }
        ops.push_back(std::move(o));
    }
    int tick = 0;
    auto period = [&] {
        ++tick;
        for(auto& o : ops)
        {
            if(o.kind == 0)
            {
                auto k = o.fresh ? w.connect() : lasting;
                for(auto& b : o.chunks) w.post_receive(k, b);
                w.exec->drain();
                if(o.fresh) { if(o.cut) k->listener->on_error("lost"); k->listener.reset(); }
                k->out.clear();
                k->sends.clear();
            }
            else if(o.kind == 1) { w.channel->add_session(modbus::UnitIdentifier{o.unit}, make_session()); w.exec->drain(); }
            else { db->add_coil(3, true); db->add_discrete_input(4, true); db->add_holding_register(5, 6); db->add_input_register(7, 8); db->execute_transaction([&](modbus::IDatabase& d) { for(int a = 0; a < 40; a += 3) { d.set_coil((uint16_t)a, tick & 1); d.set_holding_register((uint16_t)a, (uint16_t)tick); d.set_input_register((uint16_t)(a + 60000), 1); } }); }
        }
    };
    const auto g = measure(period, [&] { return live(); });
    lasting->listener.reset();
    w.channel->shutdown();
    w.exec->drain();
    c.label("server");
    c.nontrivial();
    if(g.grew(8)) c.fail("C29/server", "a server channel accumulates memory: %s", g.str().c_str());
}

// The transport: connections of a real manager that come and go
void real(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    const unsigned threads = (unsigned)s.range(1, 3);
    auto m = make_manager(threads);
    const Endpoint ep = fresh_endpoint(), ep2 = fresh_endpoint(1);
    const unsigned maximum = (unsigned)s.range(1, 4);
    auto srv = m->create_server_tcp_channel("s", ep.modbus(), maximum);
    srv->add_session(modbus::UnitIdentifier{1}, echo_session());
    srv->start();
    net::Sock l;                                            // the peer of the client channel
    auto channel = m->create_client_tcp_channel("c", ep2.modbus(), "");
    auto session = channel->create_session(modbus::UnitIdentifier{1}, duration_t(std::chrono::seconds(60)));
    net::Sock conn, lasting;
    struct Op { int kind; int a; int b; };
    std::vector<Op> ops;
    const int n = (int)s.range(1, 4);
    for(int i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        Op o{};
        o.kind = (int)s.below(6);
        o.a = (int)s.range(1, 5);
        o.b = (int)s.below(o.kind == 2 ? 4 : 3);
        static const char* const END[] = {"closed", "reset", "cut within a frame", "kept"};
        switch(o.kind)
        {
        case 0: case 1: c.note("%d clients come, get a reply, and are %s (server for %u)", o.a, END[o.b], maximum); c.label("clients come and go"); if(o.a > (int)maximum) c.label("connections over the maximum"); break;
        case 2: c.note("%d requests of the client channel are answered, then the connection is %s", o.a, END[o.b]); c.label("reconnections"); break;
        case 3: c.note("%d requests of the client channel are refused", o.a); c.label("refused connections"); break;
        case 4: c.note("%d requests of the client channel time out", o.a); c.label("timeouts"); break;
        default: c.note("%d requests on a lasting connection to the server", o.a); c.label("lasting connection to the server");
        }
        ops.push_back(o);
    }
    std::atomic<int> outcomes{0};
    int issued = 0;
    Req q; q.fc = 3; q.addr = 9; q.qty = 1;
    const Bytes pdu = ref::encode(q), reply = ref::encode(answer_for(q));
    auto lose = [&](int how) {
        if(!conn) return;
        const auto end = other_end(conn.fd);
        if(how == 1) conn.reset();
        else { if(how == 2) { const uint8_t part[] = {0, 1, 0, 0, 0}; net::send_all(conn.fd, part, 5); } conn.close(); }
        if(!net::wait_for([&] { return !end.open(); }, DEADLINE)) c.fail_soft("C29/not-noticed", "the client keeps a lost connection");
        if(!barrier(*session)) c.fail_soft("C29/stuck", "the channel does not run");
    };
    auto ask = [&](const duration_t* t) { ++issued; issue(*session, q, t, [&outcomes](const Outcome&) { ++outcomes; }); };
    auto all = [&] { if(!net::wait_for([&] { return outcomes == issued; }, DEADLINE)) c.fail_soft("C29/no-outcome", "a request got no outcome"); };
    auto listen = [&] {
        if(!l) l = net::listen_on(ep2.ip, ep2.port);
        if(!l) c.inconclusive("the port is taken");
    };
    auto period = [&] {
        for(auto& o : ops) switch(o.kind)
        {
        case 0: case 1:
        {
            std::vector<net::Sock> k;
            std::vector<SockId> ends;
            for(int i = 0; i < o.a; ++i)
            {
                k.push_back(net::connect_to(ep.ip, ep.port));
                if(!k.back()) c.fail_soft("C29/refused", "the server does not accept connections");
                net::send_all(k.back().fd, ref::frame((uint16_t)i, 1, pdu));
                Bytes in;
                if(net::read_until(k.back().fd, in, 7 + reply.size(), DEADLINE) != net::Rd::Data) c.fail_soft("C29/unserved", "the server does not reply");
                ends.push_back(other_end(k.back().fd));
            }
            for(int i = 0; i < o.a; ++i)
            {
                if(o.b == 1) k[i].reset();
                else { if(o.b == 2) { const uint8_t part[] = {0, 1, 0, 0, 0}; net::send_all(k[i].fd, part, 5); } k[i].close(); }
                if(!net::wait_for([&] { return !ends[i].open(); }, DEADLINE)) c.fail_soft("C29/not-noticed", "the server keeps a lost connection");
            }
            break;
        }
        case 2:
            listen();
            for(int i = 0; i < o.a; ++i)
            {
                ask(nullptr);
                if(!conn) conn = net::accept_on(l.fd, DEADLINE);
                Bytes in;
                if(!conn || net::read_until(conn.fd, in, 7 + pdu.size(), DEADLINE) != net::Rd::Data) c.fail_soft("C29/no-request", "the request did not arrive");
                net::send_all(conn.fd, ref::frame(ref::g16(in, 0), 1, reply));
                all();
            }
            if(o.b < 3) lose(o.b);
            break;
        case 3:
            lose(0);
            l.close();
            for(int i = 0; i < o.a; ++i) { ask(nullptr); all(); }
            break;
        case 5:
            for(int attempt = 0;; ++attempt)
            {
                if(!lasting) lasting = net::connect_to(ep.ip, ep.port);
                int answered = 0;
                while(lasting && answered < o.a)
                {
                    Bytes in;
                    if(!net::send_all(lasting.fd, ref::frame((uint16_t)answered, 1, pdu)) || net::read_until(lasting.fd, in, 7 + reply.size(), DEADLINE) != net::Rd::Data) break;
                    ++answered;
                }
                if(answered == o.a) break;
                if(attempt == 5) c.fail_soft("C29/unserved", "the server does not reply");
                lasting.close();         // it was the oldest of too many
            }
            break;
        default:
        {
            listen();
            const duration_t t = milliseconds(1);
            for(int i = 0; i < o.a; ++i) ask(&t);
            if(!conn) conn = net::accept_on(l.fd, DEADLINE);
            if(!conn) c.fail_soft("C29/no-connection", "the client does not connect");
            all();
            lose(o.b);
        }
        }
    };
    auto clean_period = [&] { period(); fault::take_looked_up(); };      // the interposer's own record
    size_t last = 0;
    int round = 0;
    auto count = [&] {
        // the last connections are still being released by the threads
        const int k = round++;
        size_t best = SIZE_MAX;
        auto enough = [&] { if(!barrier(*session)) return false; best = std::min(best, live()); return k == 0 ? false : best < last + 16u * (unsigned)(AT[k] - AT[k - 1]); };
        net::wait_for(enough, k == 0 ? 20 : 1500);
        return last = best;
    };
    const auto g = measure(clean_period, count);
    const bool more = g.grew(16), leak = g.fds_grew();
    conn.close();
    lasting.close();
    m.reset();
    c.label("real sockets");
    c.nontrivial();
    if(more || leak) c.fail_soft("C29/transport", "%s", g.str().c_str());
}

// Clients that send requests but do not read the replies
void flood(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    auto m = make_manager((unsigned)s.range(1, 3));
    const Endpoint ep = fresh_endpoint();
    auto srv = m->create_server_tcp_channel("s", ep.modbus(), 8);
    srv->add_session(modbus::UnitIdentifier{1}, echo_session());
    srv->start();
    const int clients = (int)s.range(1, 3);
    Req q; q.fc = (int)s.range(1, 4); q.addr = 9; q.qty = (uint16_t)(q.fc <= 2 ? s.range(1500, 2000) : s.range(90, 125));
    const size_t limit = (size_t)s.range(500, 1500) * 1000;
    Bytes batch;
    while(batch.size() < 16000) { auto f = ref::frame((uint16_t)batch.size(), 1, ref::encode(q)); batch.insert(batch.end(), f.begin(), f.end()); }
    c.note("%d clients send up to %zu bytes of requests each (%s) and read no reply", clients, limit, q.str().c_str());
    std::vector<net::Sock> k;
    for(int i = 0; i < clients; ++i)
    {
        k.push_back(net::connect_to(ep.ip, ep.port, 4096));
        if(!k.back()) c.fail_soft("C29/refused", "the server does not accept connections");
        Bytes in;
        net::send_all(k.back().fd, ref::frame(1, 1, ref::encode(q)));
        if(net::read_until(k.back().fd, in, 9, DEADLINE) != net::Rd::Data) c.fail_soft("C29/unserved", "the server does not reply");
    }
    const size_t before = live();
    size_t most = before, sent = 0;
    for(auto& x : k)
    {
        size_t n = 0, at = 0;
        auto idle = net::clk::now();
        while(n < limit && net::clk::now() - idle < milliseconds(60))
        {
            const ssize_t r = ::send(x.fd, batch.data() + at, batch.size() - at, MSG_NOSIGNAL);
            if(r > 0) { n += (size_t)r; at = (at + (size_t)r) % batch.size(); idle = net::clk::now(); }
            else std::this_thread::sleep_for(std::chrono::microseconds(200));
            most = std::max(most, live());
        }
        sent += n;
    }
    // the server may still be working on what the kernel holds
    const auto start = net::clk::now();
    for(auto quiet = start; most < before + 5000000 && net::clk::now() - quiet < milliseconds(100) && net::clk::now() - start < std::chrono::seconds(8);)
    {
        net::sleep_ms(1);
        const size_t x = live();
        if(x > most) { most = x; quiet = net::clk::now(); }
    }
    c.label("unread replies");
    if(sent > 100000) c.nontrivial();
    // another client is served meanwhile
    auto other = net::connect_to(ep.ip, ep.port);
    Bytes in;
    if(!other || !net::send_all(other.fd, ref::frame(1, 1, ref::encode(q))) || net::read_until(other.fd, in, 9, DEADLINE) != net::Rd::Data) c.fail_soft("C29/starved", "another client is not served");
    k.clear();
    other.close();
    m.reset();
    if(most > before + 4000000) c.fail("C29/unbounded", "%zu bytes of requests whose replies are not read made the server hold %zu bytes", sent, most - before);
}

pbt::Register r29([] {
    pbt::Property p;
    p.id = "C29";
    p.run = [](Ctx& c) { if(c.index % 40 == 0) real(c); else if(c.index % 200 == 3) flood(c); else if(c.index % 3 == 1) server_virtual(c); else client_virtual(c); };
    p.quick_cases = 6000;
    p.thorough_cases = 200000;
    p.rule = "a generated activity (requests with all kinds of outcomes, polls, timers, stray bytes, connection errors on a client channel; frames, connections, replaced sessions, transactions on a server channel; every 40th case connections that come and go on a real manager) is repeated 60 times; the heap in use is compared after 4, 10, 24 and 60 repetitions, and growth in all three intervals is a violation. In a few cases clients flood a real server with requests and read no reply; the heap must stay within 4 MB. "
             "Non-trivial = every request got its outcome, so that only open channels, sessions and polls may hold memory.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)", "heap use is counted by AddressSanitizer's allocator for the whole process; the harness itself holds a fixed amount between the measurements"};
    p.required_labels = {"client", "server", "real sockets", "response", "malformed response", "exception", "timeout", "connection error", "invalid request", "timer fires", "timer cancelled", "unsolicited bytes", "poll", "new connections", "lasting connection",
                         "session replaced", "transaction", "clients come and go", "connections over the maximum", "reconnections", "refused connections", "timeouts", "lasting connection to the server", "unread replies"};
    return p;
}());

} // namespace
