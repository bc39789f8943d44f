// C20 (recovery from connection failures) and C25 (endpoint and adapter), on real sockets and, for C20,
// also over random histories in virtual time
#include <netdb.h>
#include "history.h"
#include "netkit.h"

using namespace glue;
using namespace netkit;

namespace {

const modbus::duration_t LONG = std::chrono::seconds(600);

// ------------------------------------------------------------------------------------------- C20
class Recovery
{
public:
    explicit Recovery(Ctx& c) : c(c), s(c.src) {}
    ~Recovery() { m.reset(); fault::reset(); }
    void run()
    {
        fault::exempt = true;
        fault::reset();
        ep = fresh_endpoint();
        named = s.chance(1, 2);
        name = "server.test";
        set_name(0);
        const unsigned threads = (unsigned)s.range(1, 3);
        m = make_manager(threads);
        channel = m->create_client_tcp_channel("c", modbus::Ipv4Endpoint{named ? name : ep.ip, ep.port});
        for(int n = (int)s.range(1, 2); n; --n) { const uint8_t u = s.byte(); sessions.push_back({channel->create_session(modbus::UnitIdentifier{u}, LONG), u}); }
        c.note("%u threads, %s, %zu sessions", threads, named ? "host name" : "address", sessions.size());
        if(s.chance(3, 4)) up();
        const int n = (int)s.range(2, c.thorough ? 25 : 10);
        for(int i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            step();
        }
        if(c.index % 160 == 0) series();
        if(c.index % 640 == 80) slow();
        c.note("finally the server is reachable");
        fix();
        exchange(2);
        m.reset();
        for(size_t i = 0; i < out.size(); ++i)
            if(out.count(i) != 1) c.fail("C20/outcomes", "request %zu got %d outcomes", i, out.count(i));
        if(kinds.size() >= 2) c.nontrivial();
    }

private:
    struct Sess { std::shared_ptr<modbus::IClientSession> p; uint8_t unit; };
    struct One { size_t id; Req q; uint8_t unit; };

    void failed(const char* what) { kinds.insert(what); c.label(what); }
    void set_name(int error, bool detour = false)
    {
        fault::Name n{name, error, {ep.ip}};
        if(detour) n.addresses = {net::own_address(1), ep.ip};
        fault::set_names({n});
        resolves = error == 0;
    }
    void up() { if(listener) return; listener = net::listen_on(ep.ip, ep.port); if(!listener) c.inconclusive("cannot listen again"); c.note("server up"); }
    void down() { if(!listener) return; listener.close(); c.note("server down"); }
    bool reachable() { return listener && (!named || resolves); }
    void fix() { if(!reachable()) { up(); if(!resolves) set_name(0); } }
    One issue_one(const modbus::duration_t* t = nullptr)
    {
        auto& se = s.pick(sessions);
        One o{out.add(), small_request(s), se.unit};
        c.note("request %zu: %s", o.id, o.q.str().c_str());
        auto p = &out;
        const size_t id = o.id;
        issue(*se.p, o.q, t, [p, id](const Outcome& x) { p->put(id, x); });
        return o;
    }
    std::vector<One> issue_many(int n, const modbus::duration_t* t = nullptr)
    {
        std::vector<One> v;
        while(n--) v.push_back(issue_one(t));
        return v;
    }
    void want_error(const std::vector<One>& v, const char* why)
    {
        for(auto& o : v)
        {
            if(!out.wait(o.id)) c.fail_soft("C20/no-error", "request %zu got no outcome within %d ms although %s", o.id, DEADLINE, why);
            const auto r = out.get(o.id);
            if(r.kind != Outcome::Connection) c.fail("C20/not-error", "request %zu got %s although %s", o.id, r.str().c_str(), why);
        }
    }
    void accept()
    {
        conn = net::accept_on(listener.fd, DEADLINE);
        in.clear();
        if(!conn) c.fail_soft("C20/no-connection", "no new connection was made for a request although the server is reachable");
        ++accepted;
    }
    // The next request arrives; returns its transaction identifier
    uint16_t expect_request(const One& o)
    {
        const auto pdu = ref::encode(o.q);
        const size_t n = 7 + pdu.size();
        const auto r = net::read_until(conn.fd, in, n, DEADLINE);
        if(r == net::Rd::Again) c.fail_soft("C20/not-sent", "request %zu did not arrive at the server", o.id);
        if(in.size() < n) c.fail("C20/closed", "the client closed a healthy connection while request %zu is outstanding", o.id);
        const uint16_t tid = ref::g16(in, 0);
        const Bytes f(in.begin(), in.begin() + (long)n);
        if(f != ref::frame(tid, o.unit, pdu)) c.fail("C20/wrong-request", "the server received %s instead of request %zu", pbt::hex(in).c_str(), o.id);
        in.erase(in.begin(), in.begin() + (long)n);
        return tid;
    }
    void reply(const One& o, uint16_t tid)
    {
        const auto f = ref::frame(tid, o.unit, ref::encode(answer_for(o.q)));
        if(s.chance(1, 4)) { const size_t k = (size_t)s.range(1, (int64_t)f.size() - 1); net::send_all(conn.fd, f.data(), k); if(s.chance(1, 2)) std::this_thread::yield(); net::send_all(conn.fd, f.data() + k, f.size() - k); }
        else net::send_all(conn.fd, f);
    }
    void want_value(const One& o)
    {
        if(!out.wait(o.id)) c.fail_soft("C20/no-outcome", "request %zu got no outcome although it was answered", o.id);
        const auto r = out.get(o.id);
        Outcome w; w.kind = Outcome::Value; w.resp = answer_for(o.q);
        if(!(r == w)) c.fail("C20/not-served", "request %zu (%s) was answered but got %s", o.id, o.q.str().c_str(), r.str().c_str());
    }
    void exchange(int n)
    {
        auto v = issue_many(n);
        for(auto& o : v)
        {
            if(!conn) accept();
            const auto tid = expect_request(o);
            reply(o, tid);
            want_value(o);
        }
        c.label("served");
    }
    void kill()
    {
        switch(s.below(3))
        {
        case 0: c.note("the server closes the connection"); failed("clean close"); conn.close(); break;
        case 1: c.note("the server resets the connection"); failed("reset"); conn.reset(); break;
        default: c.note("the server ends its sending direction"); failed("half close"); ::shutdown(conn.fd, SHUT_WR); half.push_back(std::move(conn)); conn = net::Sock(); break;
        }
    }
    void step()
    {
        switch(s.weighted({6, 8, 5, 3, 3, 2, 3, 2, 2, 3, 3}))
        {
        case 0: if(!reachable() && !conn) { refused(); break; } exchange((int)s.range(1, 3)); break;
        case 1:  // lost with requests outstanding
        {
            if(!conn && !reachable()) fix();
            const int n = (int)s.range(1, 5), served = (int)s.below((uint64_t)n);
            auto v = issue_many(n);
            if(!barrier(*sessions[0].p)) c.fail_soft("C20/stuck", "the channel does not run");
            if(!conn) accept();
            for(int i = 0; i < served; ++i) { const auto tid = expect_request(v[(size_t)i]); reply(v[(size_t)i], tid); want_value(v[(size_t)i]); }
            const auto& o = v[(size_t)served];
            if(s.chance(4, 5))
            {
                const auto tid = expect_request(o);
                auto f = ref::frame(tid, o.unit, ref::encode(answer_for(o.q)));
                Bytes b;
                switch(s.below(4))
                {
                case 0: break;
                case 1: { f.resize((size_t)s.range(1, (int64_t)f.size() - 1)); b = f; break; }
                case 2: b = ref::frame((uint16_t)(tid + 1), o.unit, {}, 0, (int)s.range(2, 250)); b.resize((size_t)s.range(1, (int64_t)b.size())); break;
                default: b = ref::frame(tid, (uint8_t)(o.unit + 1), Bytes((size_t)s.range(1, 100), 0x11), 0, 200); break;
                }
                if(!b.empty()) { net::send_all(conn.fd, b); failed("partial frame before the loss"); c.note("the server sends %zu bytes of a frame", b.size()); if(s.chance(1, 2)) net::sleep_ms(1); }
            }
            else c.label("lost before the request arrived");
            if(s.chance(1, 4)) down();
            kill();
            want_error(std::vector<One>(v.begin() + served, v.end()), "the connection was lost");
            if(n - served > 1) c.label("several requests at the loss");
            if(s.chance(1, 2) && reachable()) exchange(1);
            break;
        }
        case 2:  // lost while idle
            if(!conn) break;
            if(s.chance(1, 3)) { Bytes b((size_t)s.range(1, 12), 0); b[0] = 1; if(b.size() > 5) b[5] = 90; net::send_all(conn.fd, b); c.note("%zu stray bytes", b.size()); failed("stray bytes before the loss"); }
        {
            const auto end = other_end(conn.fd);
            kill();
            if(s.chance(2, 3))
            {
                if(!net::wait_for([&] { return !end.open(); }, DEADLINE)) c.fail_soft("C20/not-noticed", "the client keeps a connection that the server has closed");
                // the descriptor is closed just before the loss is reported to the channel, in the same action
                if(!barrier(*sessions[0].p)) c.fail_soft("C20/stuck", "the channel does not run");
                fix();
                exchange(1);
                failed("lost while idle, noticed");
            }
            else
            {
                fix();
                auto o = issue_one();
                const bool ok = net::wait_for([&] { if(out.count(o.id)) return true; if(conn) return true; conn = net::accept_on(listener.fd, 0); in.clear(); return false; }, DEADLINE);
                if(!ok) c.fail_soft("C20/no-outcome", "a request issued right after a loss got no outcome and made no connection");
                if(conn && out.count(o.id) == 0) { const auto tid = expect_request(o); reply(o, tid); want_value(o); }
                else if(out.get(o.id).kind != Outcome::Connection) c.fail("C20/not-error", "a request issued right after a loss got %s", out.get(o.id).str().c_str());
                failed("lost while idle, unnoticed");
            }
            break;
        }
        case 3: if(conn) break; refused(); break;
        case 4:  // name resolution fails
        {
            if(!named || conn) break;
            const int errs[] = {EAI_NONAME, EAI_AGAIN, EAI_FAIL, EAI_MEMORY, EAI_SYSTEM, EAI_SERVICE};
            const int e = errs[s.below(6)];
            c.note("the name cannot be resolved: %s", gai_strerror(e));
            set_name(e);
            want_error(issue_many((int)s.range(1, 4)), "the host name cannot be resolved");
            failed("name resolution failure");
            set_name(0);
            if(s.chance(1, 2)) { fix(); exchange(1); }
            break;
        }
        case 5:  // the first address of the host is dead
            if(!named || conn) break;
            c.note("the host has two addresses, the first is dead");
            set_name(0, true);
            up();
            exchange(1);
            set_name(0);
            failed("first address dead");
            break;
        case 6:
        {
            if(conn) break;
            c.note("no more sockets");
            fault::socket_errors = 1000000;
            want_error(issue_many((int)s.range(1, 4)), "the system refuses to create a socket");
            fault::socket_errors = 0;
            failed("no more sockets");
            if(s.chance(1, 2)) { fix(); exchange(1); }
            break;
        }
        case 7:  // silent peer
        {
            if(!conn && !reachable()) break;
            const modbus::duration_t t = std::chrono::milliseconds(s.range(20, 40));
            // only requests that arrived are certain to have been transmitted
            auto o = issue_one(&t);
            if(!conn) accept();
            const auto tid = expect_request(o);
            c.note("the server is silent");
            if(!out.wait(o.id)) c.fail_soft("C20/no-timeout", "request %zu did not time out", o.id);
            if(out.get(o.id).kind != Outcome::Timeout) c.fail("C20/not-timeout", "request %zu got %s from a silent server", o.id, out.get(o.id).str().c_str());
            if(s.chance(1, 2)) reply(o, tid);
            failed("silent peer");
            if(s.chance(1, 2)) exchange(1);
            break;
        }
        case 9:  // a write fails, at any byte
        {
            if(!conn && !reachable()) fix();
            const int errs[] = {EPIPE, ECONNRESET, ETIMEDOUT, EHOSTUNREACH, ENETDOWN, ENOBUFS};
            std::vector<fault::SendStep> steps;
            for(int k = (int)s.below(3); k--;) steps.push_back({(size_t)s.range(1, 5), 0});      // a request has at least 12 bytes
            steps.push_back({0, errs[s.below(6)]});
            c.note("a write fails after %zu parts: %s", steps.size() - 1, strerror(steps.back().error));
            std::vector<One> v;
            {
                Gate g(*sessions[0].p);
                if(!g.held) c.fail_soft("C20/stuck", "the channel does not run");
                fault::script_sends(steps);
                v = issue_many((int)s.range(1, 4));
            }
            want_error(v, "its transmission failed");
            if(fault::script_left()) c.fail("C20/not-sent", "the request was given up before its transmission had failed");
            fault::script_sends({});
            if(!conn) accept();
            Bytes rest;
            const auto r = net::read_until(conn.fd, rest, SIZE_MAX, DEADLINE);
            if(r == net::Rd::Again) c.fail_soft("C20/not-closed", "the client keeps a connection on which it cannot send");
            conn.close();
            failed(steps.size() > 1 ? "write error within a request" : "write error");
            if(s.chance(2, 3)) { fix(); exchange(1); }
            break;
        }
        case 10:  // lost while the channel is busy and requests wait
        {
            if(!conn) { fix(); exchange(1); }
            std::vector<One> v;
            {
                Gate g(*sessions[0].p);
                if(!g.held) c.fail_soft("C20/stuck", "the channel does not run");
                v = issue_many((int)s.range(1, 4));
                kill();
                if(s.chance(1, 2)) net::sleep_ms(1);
            }
            want_error(v, "the connection was lost");
            failed("lost while the channel is busy");
            if(s.chance(1, 2)) { fix(); exchange(1); }
            break;
        }
        default:  // many requests from several threads to a refusing endpoint
        {
            if(conn) break;
            down();
            const int nt = (int)s.range(1, 3), per = (int)s.range(5, 60);
            c.note("%d threads issue %d requests each", nt, per);
            std::vector<One> v;
            std::mutex mu;
            std::vector<std::thread> th;
            Req q; q.fc = 3; q.qty = 1;
            for(int k = 0; k < nt; ++k)
                th.emplace_back([&, k] {
                    for(int i = 0; i < per; ++i)
                    {
                        const size_t id = out.add();
                        { std::lock_guard<std::mutex> l(mu); v.push_back({id, q, 0}); }
                        auto p = &out;
                        issue(*sessions[(size_t)k % sessions.size()].p, q, nullptr, [p, id](const Outcome& x) { p->put(id, x); });
                        if(i % 7 == k) std::this_thread::sleep_for(std::chrono::microseconds(50));
                    }
                });
            for(auto& t : th) t.join();
            want_error(v, "the connection is refused");
            failed("many refused requests");
            break;
        }
        }
    }
    // The connection takes long to be established: the server's queue of connections is full
    void slow()
    {
        if(conn) lose();
        down();
        if(!resolves) set_name(0);
        listener = net::listen_on(ep.ip, ep.port, 0);
        if(!listener) c.inconclusive("cannot listen again");
        std::vector<net::Sock> fill;
        std::set<uint16_t> mine;
        bool full = false;
        for(int i = 0; i < 6 && !full; ++i)
        {
            net::Sock k(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0));
            auto a = net::addr_of(ep.ip, ep.port);
            ::connect(k.fd, (sockaddr*)&a, sizeof a);
            pollfd q{k.fd, POLLOUT, 0};
            if(::poll(&q, 1, 30) != 1) { full = true; break; }
            mine.insert(local_port(k.fd));
            fill.push_back(std::move(k));
        }
        if(!full) { c.label("queue of connections never full"); fill.clear(); down(); return; }
        c.note("the server does not accept for now");
        std::vector<One> all;
        for(int n = (int)s.range(0, 3); n; --n)
        {
            const modbus::duration_t t = std::chrono::milliseconds(s.range(10, 60));
            all.push_back(issue_one(&t));
            if(!out.wait(all.back().id)) c.fail_soft("C20/no-timeout", "request %zu did not time out", all.back().id);
            if(out.get(all.back().id).kind != Outcome::Timeout) c.fail("C20/not-timeout", "request %zu got %s while the connection is being established", all.back().id, out.get(all.back().id).str().c_str());
        }
        const bool before = s.chance(1, 2);
        if(c.index / 640 % 3 == 1 || s.chance(1, 8))
        {
            auto o = issue_many((int)s.range(1, 3));
            if(!barrier(*sessions[0].p)) c.fail_soft("C20/stuck", "the channel does not run");
            down();
            want_error(o, "the connection is refused");
            failed("refused in the end");
            fix();
            exchange(1);
            return;
        }
        if(before || all.empty()) { all.push_back(issue_one()); if(!barrier(*sessions[0].p)) c.fail_soft("C20/stuck", "the channel does not run"); }
        for(;;)
        {
            sockaddr_in peer{};
            conn = net::accept_on(listener.fd, DEADLINE, &peer);
            if(!conn) c.fail_soft("C20/no-connection", "the connection was never established although the server accepts again");
            if(!mine.count(ntohs(peer.sin_port))) break;
        }
        ++accepted;
        in.clear();
        if(!before && out.count(all.back().id)) all.push_back(issue_one());
        // requests that were given up may still be transmitted, in order, and then the last one
        size_t at = 0;
        for(;;)
        {
            const auto r = net::read_until(conn.fd, in, 6, DEADLINE);
            if(r == net::Rd::Again) c.fail_soft("C20/not-sent", "request %zu did not arrive at the server", all.back().id);
            const size_t n = in.size() < 6 ? 6 : 6u + ref::g16(in, 4);
            if(in.size() < n && net::read_until(conn.fd, in, n, DEADLINE) == net::Rd::Again) c.fail_soft("C20/not-sent", "part of a request arrived at the server");
            if(in.size() < n) c.fail("C20/closed", "the client closed a healthy connection");
            const Bytes f(in.begin(), in.begin() + (long)n);
            in.erase(in.begin(), in.begin() + (long)n);
            const uint16_t tid = ref::g16(f, 0);
            size_t k = at;
            while(k < all.size() && f != ref::frame(tid, all[k].unit, ref::encode(all[k].q))) ++k;
            if(k == all.size()) c.fail("C20/wrong-request", "the server received %s, which was not issued or arrives twice or out of order", pbt::hex(f).c_str());
            at = k + 1;
            const bool last = at == all.size();
            if(last || s.chance(1, 2)) reply(all[k], tid);
            if(last) break;
        }
        want_value(all.back());
        failed("slow to connect");
        if(!before && s.chance(1, 2)) exchange(1);
    }
    // The connection is closed and the client has noticed it
    void lose()
    {
        const auto end = other_end(conn.fd);
        conn.close();
        if(!net::wait_for([&] { return !end.open(); }, DEADLINE)) c.fail_soft("C20/not-noticed", "the client keeps a connection that the server has closed");
        if(!barrier(*sessions[0].p)) c.fail_soft("C20/stuck", "the channel does not run");
    }
    // Failures one after the other, far more than any ordinary history has
    void series()
    {
        const int n = (int)s.range(30, c.thorough ? 1200 : 300);
        const int sort = (int)s.below(5);
        c.note("a series of %d failures of sort %d", n, sort);
        if(conn) lose();
        fix();
        for(int i = 0; i < n; ++i)
        {
            switch(sort)
            {
            case 0:  // refused
                if(listener) down();
                want_error(issue_many(1), "the connection is refused");
                break;
            case 1:  // lost with requests outstanding
            case 2:  // served, then lost while idle or busy
            {
                auto v = issue_many(sort == 1 ? (int)s.range(1, 2) : 1);
                if(!conn) accept();
                const auto tid = expect_request(v[0]);
                if(sort == 2) { reply(v[0], tid); want_value(v[0]); v = issue_many(1); expect_request(v[0]); }
                s.chance(1, 2) ? conn.close() : conn.reset();
                want_error(v, "the connection was lost");
                break;
            }
            case 3:  // transient shortage of sockets
                fault::socket_errors = 1;
                want_error(issue_many(1), "the system refuses to create a socket");
                fault::socket_errors = 0;
                break;
            default:  // silent server: timeouts on one connection
            {
                const modbus::duration_t t = std::chrono::milliseconds(i ? 1 : 20);
                auto o = issue_one(&t);
                if(!conn) accept();
                if(!out.wait(o.id)) c.fail_soft("C20/no-timeout", "request %zu did not time out", o.id);
                if(out.get(o.id).kind != Outcome::Timeout) c.fail("C20/not-timeout", "request %zu got %s from a silent server", o.id, out.get(o.id).str().c_str());
                break;
            }
            }
        }
        if(conn) lose();
        c.label("long series of failures");
    }
    void refused()
    {
        down();
        want_error(issue_many((int)s.range(1, 5)), "the connection is refused");
        failed("refused");
        if(s.chance(1, 2)) { fix(); exchange((int)s.range(1, 2)); }
    }

    Ctx& c;
    pbt::Src& s;
    Endpoint ep;
    bool named = false, resolves = true;
    std::string name;
    net::Sock listener, conn;
    std::vector<net::Sock> half;
    Bytes in;
    size_t accepted = 0;
    std::set<std::string> kinds;
    std::vector<Sess> sessions;
    std::shared_ptr<modbus::IClientChannel> channel;
    Outcomes out;
    std::unique_ptr<modbus::IModbusManager> m;
};

void c20(Ctx& c)
{
    if(c.index % 8 == 0) { Recovery r(c); r.run(); c.label("real sockets"); return; }
    hist::Options o;
    o.props = hist::C20;
    o.steps = c.thorough ? 60 : 30;
    o.w_error = 6;
    o.w_drain = 2;
    hist::History h(c, o);
    h.run();
    c.label("virtual time");
    if(h.kinds[Outcome::Connection] >= 1 && h.kinds[Outcome::Value] + h.kinds[Outcome::Modbus] >= 1) c.nontrivial();
}

// ------------------------------------------------------------------------------------------- C25
std::string random_loopback(pbt::Src& s) { return pbt::fmt("127.%d.%d.%d", (int)s.range(200, 250), (int)s.below(256), (int)s.range(1, 254)); }

// Ports of the whole range, where they are free
Endpoint any_port(Ctx& c, Endpoint e)
{
    auto& s = c.src;
    uint16_t port = e.port;
    switch(s.weighted({4, 3, 2, 1}))
    {
    case 0: break;
    case 1: port = (uint16_t)s.range(61000, 65535); break;
    case 2: port = (uint16_t)s.range(1, 2000); break;
    case 3: port = s.pick(std::vector<uint16_t>{502, 802, 1, 255, 256, 1023, 32767, 32768, 65280, 65534, 65535}); break;
    }
    if(port == e.port || !net::listen_on(e.ip, port)) return e;
    c.label(port > 32767 ? "high port" : "low port");
    e.port = port;
    return e;
}

void client_endpoint(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    struct Guard { ~Guard() { fault::reset(); } } guard;
    const Endpoint ep = any_port(c, fresh_endpoint());
    auto l = net::listen_on(ep.ip, ep.port);
    if(!l) c.inconclusive("cannot listen");
    // decoys nearby
    std::vector<net::Sock> decoys;
    std::vector<std::string> where;
    auto decoy = [&](const std::string& ip, int port) { if(port < 1024 || port > 65535) return; auto d = net::listen_on(ip, (uint16_t)port); if(d) { decoys.push_back(std::move(d)); where.push_back(pbt::fmt("%s:%d", ip.c_str(), port)); } };
    decoy(net::own_address(1), ep.port);
    decoy(ep.ip, ep.port + 1);
    decoy(ep.ip, ep.port - 1);
    decoy(ep.ip, (uint16_t)((ep.port << 8) | (ep.port >> 8)));
    const bool named = s.chance(1, 3);
    std::string host = ep.ip;
    if(named) { host = s.pick(std::vector<std::string>{"a.test", "plc-7.plant.test", "x.y.z.test"}); fault::set_names({{host, 0, {ep.ip}}}); c.label("host name"); }
    const unsigned threads = (unsigned)s.range(1, 2);
    Outcomes out;
    auto m = make_manager(threads);
    struct Channel { std::string adapter; bool good = true; std::shared_ptr<modbus::IClientSession> session; net::Sock conn; };
    std::vector<Channel> channels((size_t)s.range(1, 3));
    bool configured = false;
    for(size_t n = 0; n < channels.size(); ++n)
    {
        auto& k = channels[n];
        if(n && s.chance(1, 2)) { k.adapter = channels[0].adapter; k.good = channels[0].good; if(!k.adapter.empty() && k.good) c.label("shared adapter"); }
        else switch(s.weighted({4, 2, 2, 2}))
        {
        case 0:
            if(s.chance(1, 3)) { k.adapter = s.chance(1, 4) ? "127.0.0.1" : ep.ip; c.label("adapter of the server"); }
            else k.adapter = random_loopback(s);
            c.label("local adapter");
            break;
        case 1: c.label("no adapter"); break;
        case 2:
            k.adapter = s.pick(std::vector<std::string>{"abc", "127.0.0.256", "300.1.1.1", "127.0.0", "127.0.0.1:80", "127.0.0.1 ", " 127.0.0.1", "eth0", "lo", "127.0.0.1.1", "::g", "-1", "127,0,0,1", "0x7f.0.0.1x"});
            k.good = false;
            c.label("malformed adapter");
            break;
        default:
            k.adapter = s.pick(std::vector<std::string>{"192.0.2.1", "8.8.8.8", "198.51.100.77", "1.2.3.4", "203.0.113.9", "::1"});
            k.good = false;
            c.label("foreign adapter");
        }
        configured = configured || !k.adapter.empty();
        c.note("channel %zu: host '%s' port %u, adapter '%s'", n, host.c_str(), ep.port, k.adapter.c_str());
        k.session = m->create_client_tcp_channel("c", modbus::Ipv4Endpoint{host, ep.port}, k.adapter)->create_session(modbus::UnitIdentifier{3}, LONG);
    }
    const bool many = c.index % 150 == 0;
    const int rounds = (int)(many ? s.range(20, 120) : s.range(1, 4)) + (int)channels.size() - 1;
    if(many) c.label("many reconnections");
    for(int round = 0; round < rounds; ++round)
    {
        pbt::Group g(s);
        const size_t n = s.below(channels.size());
        auto& k = channels[n];
        const Req q = small_request(s);
        c.note("request on channel %zu", n);
        const auto id = out.add();
        issue(*k.session, q, nullptr, [&out, id](const Outcome& o) { out.put(id, o); });
        if(!k.good)
        {
            if(!out.wait(id)) { m.reset(); c.fail_soft("C25/no-outcome", "a request with the adapter '%s' got no outcome", k.adapter.c_str()); }
            const auto o = out.get(id);
            auto a = net::accept_on(l.fd, 0);
            if(a || o.kind != Outcome::Connection) { m.reset(); c.fail("C25/bad-adapter", "with the adapter '%s' a request got %s%s", k.adapter.c_str(), o.str().c_str(), a ? ", and a connection was made" : ""); }
            continue;
        }
        if(!k.conn)
        {
            sockaddr_in peer{};
            const bool ok = net::wait_for([&] { return !!(k.conn = net::accept_on(l.fd, 10, &peer)) || out.count(id); }, 5000);
            if(!k.conn) k.conn = net::accept_on(l.fd, 0, &peer);
            if(!k.conn)
            {
                for(size_t i = 0; i < decoys.size(); ++i) if(net::accept_on(decoys[i].fd, 0)) { m.reset(); c.fail("C25/endpoint", "the client connected to %s instead of %s", where[i].c_str(), ep.str().c_str()); }
                const std::string o = ok ? out.get(id).str() : std::string("nothing");
                m.reset();
                c.fail_soft("C25/no-connection", "the client made no connection to %s with the adapter '%s'; the request got %s", ep.str().c_str(), k.adapter.c_str(), o.c_str());
            }
            if(!k.adapter.empty() && net::ip_of(peer) != k.adapter) { m.reset(); c.fail("C25/adapter", "the connection comes from %s instead of the adapter %s", net::ip_of(peer).c_str(), k.adapter.c_str()); }
            size_t open = 0;
            for(auto& x : channels) open += !!x.conn;
            if(open > 1) c.label("several connections");
        }
        Bytes in;
        const auto want = ref::encode(q);
        if(net::read_until(k.conn.fd, in, 7 + want.size(), DEADLINE) != net::Rd::Data) { m.reset(); c.fail_soft("C25/no-request", "the request did not arrive"); }
        net::send_all(k.conn.fd, ref::frame(ref::g16(in, 0), 3, ref::encode(answer_for(q))));
        if(!out.wait(id)) { m.reset(); c.fail_soft("C25/no-outcome", "a request got no outcome"); }
        if(out.get(id).kind != Outcome::Value) { auto o = out.get(id); m.reset(); c.fail("C25/failed", "a request got %s", o.str().c_str()); }
        if(s.chance(1, 2))       // the next connection, too
        {
            const auto end = other_end(k.conn.fd);
            k.conn.reset();
            if(!net::wait_for([&] { return !end.open(); }, DEADLINE)) { m.reset(); c.fail_soft("C25/not-noticed", "the client keeps a lost connection"); }
            if(!barrier(*k.session)) { m.reset(); c.fail_soft("C25/stuck", "the channel does not run"); }
            c.label("reconnected");
        }
    }
    m.reset();
    for(auto& k : channels) k.session.reset();
    if(net::accept_on(l.fd, 0)) c.fail("C25/extra", "a connection was made that no request called for");
    for(size_t i = 0; i < decoys.size(); ++i) if(net::accept_on(decoys[i].fd, 0)) c.fail("C25/endpoint", "the client also connected to %s", where[i].c_str());
    for(auto& h : fault::take_looked_up()) if(h != host) c.fail("C25/host", "the host '%s' was looked up instead of '%s'", h.c_str(), host.c_str());
    if(configured) c.nontrivial();
}

void server_endpoint(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    auto m = make_manager((unsigned)s.range(1, 2));
    std::vector<Endpoint> eps;
    std::vector<std::shared_ptr<modbus::IServerChannel>> servers;
    const int n = (int)s.range(1, 4);
    for(int i = 0; i < n; ++i)
    {
        pbt::Group g(s);
        Endpoint e = any_port(c, fresh_endpoint((unsigned)s.below(2)));
        if(s.chance(1, 3)) e.ip = random_loopback(s);
        if(i && s.chance(1, 3) && !eps.empty()) e.port = eps[0].port;                       // same port, other address
        bool dup = false;
        for(auto& o : eps) dup |= o.ip == e.ip && o.port == e.port;
        if(dup) continue;
        std::shared_ptr<modbus::IServerChannel> srv;
        for(int attempt = 0; !srv; ++attempt)
        {
            const bool is_free = !!net::listen_on(e.ip, e.port);          // others use the range of ephemeral ports, too
            try { srv = m->create_server_tcp_channel("s", e.modbus(), 4); }
            catch(const std::system_error& x)
            {
                if(!is_free || !net::listen_on(e.ip, e.port)) break;
                if(attempt == 5) c.fail("C25/create", "a server at %s, which is free, cannot be created: %s", e.str().c_str(), x.what());
            }
        }
        if(!srv) { c.label("port in use"); continue; }
        const uint16_t tag = (uint16_t)(100 + i);
        auto se = std::make_shared<ScriptSession>();
        se->handler = [tag](const Req& q) { Answer a; a.resp.fc = 3; a.resp.points.push_back({q.addr, tag}); return a; };
        srv->add_session(modbus::UnitIdentifier{1}, se);
        srv->start();
        eps.push_back(e);
        servers.push_back(srv);
        c.note("server %zu at %s", eps.size() - 1, e.str().c_str());
    }
    // each server answers at its own endpoint
    for(size_t i = 0; i < eps.size(); ++i)
    {
        auto k = net::connect_to(eps[i].ip, eps[i].port);
        if(!k) c.fail("C25/not-listening", "the server does not listen at %s: %s", eps[i].str().c_str(), strerror(errno));
        Req q; q.fc = 3; q.addr = 7; q.qty = 1;
        net::send_all(k.fd, ref::frame(1, 1, ref::encode(q)));
        Bytes in;
        if(net::read_until(k.fd, in, 11, DEADLINE) != net::Rd::Data) c.fail_soft("C25/unserved", "no reply from the server at %s", eps[i].str().c_str());
        size_t local = sockets_at(eps[i]).size();
        if(local != 2) c.fail("C25/sockets", "%zu sockets at %s", local, eps[i].str().c_str());
    }
    // and nowhere else: other addresses with the same port, neighbouring ports
    for(size_t i = 0; i < eps.size(); ++i)
    {
        std::vector<Endpoint> others{{"127.0.0.1", eps[i].port}, {net::own_address(0), eps[i].port}, {net::own_address(1), eps[i].port}, {random_loopback(s), eps[i].port},
                                     {eps[i].ip, (uint16_t)(eps[i].port + 1)}, {eps[i].ip, (uint16_t)(eps[i].port - 1)}, {eps[i].ip, (uint16_t)((eps[i].port << 8) | (eps[i].port >> 8))}, {eps[i].ip, 502}};
        for(auto& o : others)
        {
            bool is_server = false;
            for(auto& e : eps) is_server |= e.ip == o.ip && e.port == o.port;
            if(is_server) continue;
            for(auto& x : sockets_at(o)) if(x.listening) c.fail("C25/also-listening", "a server of %s also listens at %s", eps[i].str().c_str(), o.str().c_str());
        }
        // every listening socket of this process belongs to one of the servers
    }
    size_t listening = 0;
    if(DIR* d = opendir("/proc/self/fd"))
    {
        while(dirent* f = readdir(d))
        {
            int v = 0;
            socklen_t l = sizeof v;
            if(getsockopt(atoi(f->d_name), SOL_SOCKET, SO_ACCEPTCONN, &v, &l) == 0 && v) ++listening;
        }
        closedir(d);
    }
    if(listening != eps.size()) c.fail("C25/listeners", "%zu servers, but %zu listening sockets", eps.size(), listening);
    c.label("server endpoints");
    if(eps.size() >= 2) c.nontrivial();
}

pbt::Register r20([] {
    pbt::Property p;
    p.id = "C20";
    p.run = c20;
    p.quick_cases = 16000;
    p.thorough_cases = 1000000;
    p.rule = "every eighth case: a client channel of a real manager and a scripted peer: refused connections, failing name resolution, dead first address, no more sockets, clean closes, half closes and resets at any byte of a reply with several requests queued, losses while idle, silent peers, failing writes, losses while the channel is busy and many requests from several threads, each followed by recoveries; the others: random histories with many connection errors in virtual time. "
             "Non-trivial = two or more kinds of failure, or a connection error and a response in one history.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "name resolution and socket failures are injected by interposing getaddrinfo() and socket()", "deadlines of 15 s, believed only if they reproduce"};
    p.required_labels = {"real sockets", "virtual time", "refused", "clean close", "reset", "half close", "partial frame before the loss", "stray bytes before the loss", "lost while idle, noticed", "lost while idle, unnoticed",
                         "name resolution failure", "first address dead", "no more sockets", "silent peer", "many refused requests", "several requests at the loss", "write error", "write error within a request", "long series of failures", "slow to connect", "refused in the end", "lost while the channel is busy", "lost before the request arrived"};
    return p;
}());

pbt::Register r25([] {
    pbt::Property p;
    p.id = "C25";
    p.run = [](Ctx& c) { if(c.index % 3 == 2) server_endpoint(c); else client_endpoint(c); };
    p.quick_cases = 40000;
    p.thorough_cases = 300000;
    p.rule = "client channels with random endpoints, host names and adapters (valid loopback addresses, malformed ones, foreign ones), decoy listeners at neighbouring addresses and ports, and reconnections; groups of servers at random loopback addresses and ports, with all listening sockets of the process accounted for. "
             "Non-trivial = an adapter is configured, or two or more servers.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)", "only loopback addresses exist in the sandbox"};
    p.required_labels = {"local adapter", "adapter of the server", "no adapter", "malformed adapter", "foreign adapter", "host name", "reconnected", "shared adapter", "several connections", "server endpoints", "many reconnections", "high port"};
    return p;
}());

} // namespace
