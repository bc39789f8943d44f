// C22 (shutdown and teardown): client and server channels in virtual time, and whole managers on real sockets
#include "netkit.h"

using namespace glue;
using namespace netkit;

namespace {

const modbus::duration_t LONG = std::chrono::seconds(600);
modbus::duration_t ms(int64_t n) { return std::chrono::milliseconds(n); }

// --------------------------------------------------------------------- client channel, virtual time
// Like the real connection, shuts down in an action of its own: what was under way before may still arrive
class LateConn : public modbus::ITcpConnection
{
public:
    explicit LateConn(std::shared_ptr<VExec> e) : exec(std::move(e)) {}
    void set_listener(std::shared_ptr<modbus::IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& data) override
    {
        const uint8_t* p = data;
        last = Bytes(p, p + data.length());
        ++sends;
        if(on_send) on_send();
    }
    void close() override {}
    void shutdown() override { ++shutdowns; exec->post([w = flag] { *w = true; }); }
    std::shared_ptr<VExec> exec;
    std::weak_ptr<modbus::IConnectionListener> listener;
    std::shared_ptr<bool> flag = std::make_shared<bool>(false);
    std::function<void()> on_send;
    Bytes last;
    int sends = 0, shutdowns = 0;
};

class ClientHistory
{
public:
    explicit ClientHistory(Ctx& c) : c(c), s(c.src) {}
    ~ClientHistory()
    {
        over = true;
        if(auto ch = weak.lock()) ch->shutdown();
        exec->drain();
    }
    void run()
    {
        conn = std::make_shared<LateConn>(exec);
        conn->on_send = [this] { if(dead && !over) c.fail("C22/send", "%d bytes were sent after shutdown had taken effect", (int)conn->last.size()); };
        channel = std::make_shared<modbus::ClientChannelTcp>(exec, modbus::LoggerFactory::create_null_logger("t"), conn);
        weak = channel;
        create();
        const int n = (int)s.range(4, c.thorough ? 60 : 30);
        const int at = (int)s.range(n / 2, n);
        for(int i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            if(i == at) shutdown_now("main"); else step();
        }
        if(!asked) shutdown_now("main");
        if(!exec->drain()) c.fail("C22/livelock", "the channel does not come to rest");
        if(!dead) c.fail("C22/order", "the executor did not run an action");
        for(int k = (int)s.below(6); k--;) { pbt::Group g(s); step(); }
        if(conn->shutdowns == 0) c.fail("C22/connection", "the connection was not shut down");
        // Everything the user holds is dropped; all timers run out
        const bool before = s.chance(1, 2);
        if(before) drop();
        for(int k = 0; k < 200 && exec->has_waiting(); ++k) { exec->now = std::max(exec->now, exec->next_expiry()); if(!exec->drain()) c.fail("C22/livelock", "the channel does not come to rest"); }
        if(!exec->drain()) c.fail("C22/livelock", "the channel does not come to rest");
        drop();
        exec->timers.remove_if([](const std::shared_ptr<VTimer>& t) { return t->state != VTimer::Waiting; });
        if(!exec->timers.empty()) c.fail("C22/timers", "%zu timers are still waiting", exec->timers.size());
        if(!weak.expired()) c.fail("C22/leak", "the channel still exists after shutdown, with %ld references", weak.use_count());
        if(token.use_count() != 1) c.fail("C22/leak-handlers", "%ld handlers still exist after shutdown", token.use_count() - 1);
        for(auto& w : weak_sessions) if(!w.expired()) c.fail("C22/leak-session", "a session still exists after shutdown");
        for(auto& w : weak_polls) if(!w.expired()) c.fail("C22/leak-poll", "a scheduled request still exists after shutdown");
        if(busy) c.nontrivial();
    }

private:
    void drop() { channel.reset(); sessions.clear(); polls.clear(); }
    // what a handler does besides counting: 1 another request, 2 shutdown, 3 stop a poll, 4 a new session, 5 session shutdown
    OutcomeHandler handler(const char* what)
    {
        const int id = next_id++;
        const int then = (int)s.weighted({10, 3, 2, 1, 1, 1});
        Req q = small_request(s);
        return [this, id, what, then, q, t = token](const Outcome& o) {
            if(over) return;
            if(dead) c.fail("C22/handler", "the handler of %s %d ran after shutdown had taken effect, with %s", what, id, o.str().c_str());
            ++handled;
            switch(then)
            {
            case 1: if(!sessions.empty() && handled < 500) issue(*sessions[(size_t)id % sessions.size()], q, nullptr, [this, t = token](const Outcome& x) { if(dead && !over) c.fail("C22/handler", "a handler ran after shutdown had taken effect, with %s", x.str().c_str()); }); break;
            case 2: c.label("shutdown from a handler"); shutdown_now("a handler"); break;
            case 3: if(!polls.empty()) polls[(size_t)id % polls.size()]->stop(); break;
            case 4: if(channel && !dead) { if(auto x = channel->create_session(modbus::UnitIdentifier{1}, ms(5))) { sessions.push_back(x); weak_sessions.push_back(x); } } break;
            case 5: if(!sessions.empty()) sessions[(size_t)id % sessions.size()]->shutdown(); break;
            }
        };
    }
    void shutdown_now(const char* from)
    {
        if(!channel) return;
        c.note("shutdown from %s", from);
        if(polls.size() + (size_t)conn->sends > 0) busy = true;
        channel->shutdown();
        if(s.chance(1, 10)) { channel->shutdown(); }
        asked = true;
        exec->post([this] { dead = true; });
    }
    void create()
    {
        if(!channel) return;
        auto x = channel->create_session(modbus::UnitIdentifier{(uint8_t)s.range(1, 3)}, s.pick(std::vector<modbus::duration_t>{ms(0), ms(1), ms(10), ms(1000)}));
        c.note("create session: %s", x ? "yes" : "refused");
        if(dead && x) c.fail("C22/session", "a session was created after shutdown had taken effect");
        if(!x && !asked) c.fail("C22/refused", "a session was refused although the channel was not shut down");
        if(x) { sessions.push_back(x); weak_sessions.push_back(x); }
    }
    void step()
    {
        switch(s.weighted({1, 6, 1, 4, 6, 2, 2, 6, 4, 3, 1, 2}))
        {
        case 0: create(); break;
        case 1: case 2:
        {
            if(sessions.empty()) break;
            auto q = small_request(s);
            if(s.chance(1, 8)) { q = Req(); q.fc = 3; q.qty = 0; }
            const auto t = ms(s.range(0, 20));
            const bool with = s.chance(1, 2);
            c.note("request %d: %s", next_id, q.str().c_str());
            issue(*s.pick(sessions), q, with ? &t : nullptr, handler("request"));
            break;
        }
        case 3:
        {
            if(sessions.empty() || polls.size() > 8) break;
            Req q; q.fc = (int)s.range(1, 4); q.qty = s.chance(1, 8) ? 0 : 1;
            const auto t = ms(s.range(0, 20));
            c.note("schedule %d: %s", next_id, q.str().c_str());
            auto p = schedule(*s.pick(sessions), q, s.chance(1, 2) ? &t : nullptr, ms(s.range(1, 20)), handler("poll"));
            if(p) { polls.push_back(p); weak_polls.push_back(p); }
            break;
        }
        case 4:
        {
            Bytes b;
            if(!conn->last.empty() && s.chance(3, 4))
            {
                Req q;
                const auto pdu = Bytes(conn->last.begin() + 7, conn->last.end());
                uint8_t code = 0;
                Bytes r;
                ref::Resp x;
                q.fc = pdu.empty() ? 3 : pdu[0];
                r = {(uint8_t)(q.fc | 0x80), 2};
                (void)code; (void)x;
                b = ref::frame(ref::g16(conn->last, 0), conn->last[6], r);
                if(s.chance(1, 6)) b.resize((size_t)s.range(1, (int64_t)b.size() - 1));
            }
            else b = s.bytes((size_t)s.below(20));
            c.note("receive %s", pbt::hex(b).c_str());
            exec->post([this, b] {
                auto l = conn->listener.lock();
                if(!l || *conn->flag) return;
                std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() + 1]);
                if(!b.empty()) memcpy(p.get(), b.data(), b.size());
                l->on_receive(seq_of(p.get(), b.size()));
            });
            break;
        }
        case 5: c.note("connection error"); exec->post([this] { auto l = conn->listener.lock(); if(l && !*conn->flag) l->on_error("lost"); }); break;
        case 6: { const auto d = ms(s.range(0, 30)); c.note("time passes"); exec->advance(d); if(s.chance(1, 2)) exec->expire(); break; }
        case 7: for(int k = (int)s.range(1, 4); k--;) exec->run_one(); break;
        case 8: c.note("drain"); drain(); break;
        case 9:
            if(polls.empty()) break;
            switch(s.below(4)) { case 0: s.pick(polls)->stop(); break; case 1: s.pick(polls)->start(); break; case 2: s.pick(polls)->set_frequency(ms(s.range(1, 5))); break; default: s.pick(polls)->is_running(); }
            break;
        case 10: if(!sessions.empty()) { c.note("session shutdown"); s.pick(sessions)->shutdown(); } break;
        default: if(s.chance(1, 8)) shutdown_now("main"); break;
        }
    }
    void drain()
    {
        // polls with an immediate timeout never come to rest by themselves while time stands still, so only a bounded amount
        for(int k = 0; k < 400; ++k) { if(exec->ready.empty()) exec->expire(); if(!exec->run_one()) return; }
    }

    Ctx& c;
    pbt::Src& s;
    std::shared_ptr<int> token = std::make_shared<int>(0);
    std::shared_ptr<LateConn> conn;
    std::shared_ptr<modbus::ClientChannelTcp> channel;
    std::weak_ptr<modbus::ClientChannelTcp> weak;
    std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
    std::vector<std::weak_ptr<modbus::IClientSession>> weak_sessions;
    std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
    std::vector<std::weak_ptr<modbus::IScheduledRequest>> weak_polls;
    int next_id = 0, handled = 0;
    bool asked = false, dead = false, over = false, busy = false;
    std::shared_ptr<VExec> exec = std::make_shared<VExec>();
};

// --------------------------------------------------------------------- server channel, virtual time
class ServerHistory
{
public:
    explicit ServerHistory(Ctx& c) : c(c), s(c.src) {}
    void run()
    {
        w = std::make_unique<ServerWorld>();
        std::weak_ptr<modbus::ServerChannelTcp> weak = w->channel;
        const int n = (int)s.range(4, c.thorough ? 50 : 25);
        const int at = (int)s.range(n / 2, n);
        for(int i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            if(i == at) shutdown_now("main"); else step();
        }
        if(!asked) shutdown_now("main");
        w->exec->drain();
        for(int k = (int)s.below(6); k--;) { pbt::Group g(s); step(); }
        w->exec->drain();
        // the test server keeps the listener builder, as the real one does; its connections end with it
        const auto exec = w->exec;
        for(auto& k : conns) k->listener.reset();
        conns.clear();
        w->server.reset();
        w->channel.reset();
        exec->drain();
        if(!weak.expired()) c.fail("C22/server-leak", "the server channel still exists after shutdown, with %ld references", weak.use_count());
        for(size_t i = 0; i < units.size(); ++i)
        {
            auto ref = units[i].w;
            units[i].p.reset();
            if(!ref.expired()) c.fail("C22/server-leak-session", "session %zu still exists after shutdown", i);
        }
        if(requests) c.nontrivial();
    }

private:
    struct Unit { uint8_t unit; std::shared_ptr<ScriptSession> p; std::weak_ptr<ScriptSession> w; std::shared_ptr<int> shut; bool registered; };
    void shutdown_now(const char* from)
    {
        c.note("shutdown from %s", from);
        w->channel->shutdown();
        if(s.chance(1, 8)) w->channel->shutdown();
        asked = true;
        w->exec->post([this] {
            if(dead) return;
            dead = true;
            if(started && w->server->shutdowns == 0) c.fail("C22/listening", "the server was not shut down with its channel");
            for(auto& u : units) if(u.registered && *u.shut == 0) c.fail("C22/session-shutdown", "the session of unit %u was not shut down with the channel", u.unit);
            for(auto& k : conns) sent_at_death.push_back(k->sends.size());
        });
    }
    void step()
    {
        check();
        switch(s.weighted({4, 3, 4, 8, 5, 3, 1}))
        {
        case 0:
        {
            Unit u;
            u.unit = (uint8_t)s.range(1, 4);
            u.p = std::make_shared<ScriptSession>();
            u.w = u.p;
            u.shut = std::make_shared<int>(0);
            u.registered = false;
            const int then = (int)s.weighted({6, 1});
            u.p->on_shutdown = [n = u.shut] { ++*n; };
            u.p->handler = [this, then](const Req& q) {
                if(dead) c.fail("C22/request", "a request reached a session after shutdown had taken effect: %s", q.str().c_str());
                ++requests;
                if(then == 1) { c.label("server shutdown from a session"); shutdown_now("a session"); }
                Answer a;
                a.resp = answer_for(q);
                return a;
            };
            c.note("add session for unit %u", u.unit);
            w->channel->add_session(modbus::UnitIdentifier{u.unit}, u.p);
            const size_t i = units.size();
            units.push_back(u);
            if(!asked) w->exec->post([this, i] { if(dead || asked_before(i)) return; for(auto& o : units) if(o.unit == units[i].unit) o.registered = false; units[i].registered = true; });
            break;
        }
        case 1:
            c.note("start");
            if(!asked) { w->channel->start(); w->exec->post([this] { started = true; }); }
            else { w->channel->start(); c.label("start after shutdown"); }
            break;
        case 2:
            if(conns.size() < 4) { if(auto k = w->connect()) { conns.push_back(k); if(dead) sent_at_death.push_back(0); c.note("connection %zu", conns.size() - 1); } }
            break;
        case 3:
        {
            if(conns.empty()) break;
            Bytes b;
            for(int k = (int)s.range(1, 3); k--;) { auto f = ref::frame(s.u16(), (uint8_t)s.range(1, 4), ref::encode(small_request(s))); b.insert(b.end(), f.begin(), f.end()); }
            c.note("requests arrive");
            const size_t i = s.below(conns.size());
            w->post_receive(conns[i], b);
            break;
        }
        case 4: for(int k = (int)s.range(1, 4); k--;) w->exec->run_one(); break;
        case 5: w->exec->drain(); break;
        default: if(s.chance(1, 4)) shutdown_now("main"); break;
        }
        check();
    }
    bool asked_before(size_t) { return false; }
    void check()
    {
        if(!dead) return;
        for(size_t i = 0; i < conns.size(); ++i)
            if(conns[i]->sends.size() != sent_at_death[i]) c.fail("C22/server-sent", "a reply was sent after shutdown had taken effect");
        if(w->server->starts > starts_at_death && starts_at_death >= 0) c.fail("C22/restarted", "the server was started after shutdown had taken effect");
        if(starts_at_death < 0) starts_at_death = w->server->starts;
    }

    Ctx& c;
    pbt::Src& s;
    std::vector<Unit> units;
    std::vector<std::shared_ptr<OutConn>> conns;
    std::vector<size_t> sent_at_death;
    int requests = 0, starts_at_death = -1;
    bool asked = false, dead = false, started = false;
    std::unique_ptr<ServerWorld> w;
};

// --------------------------------------------------------------------- managers on real sockets
class Teardown
{
public:
    explicit Teardown(Ctx& c) : c(c), s(c.src) {}
    ~Teardown()
    {
        stop = true;
        releases();
        m.reset();
        fault::reset();
    }
    void run()
    {
        fault::exempt = true;
        fault::reset();
        if(s.chance(1, 3)) fault::send_seed = s.below(1u << 30) + 1;
        // peers of the harness's own
        silent_ep = fresh_endpoint(0);
        silent = net::listen_on(silent_ep.ip, silent_ep.port);
        full_ep = fresh_endpoint(1);
        full = net::listen_on(full_ep.ip, full_ep.port, 0);
        refused_ep = fresh_endpoint(0);
        server_ep = fresh_endpoint(1);
        fault::set_names({{"slow.test", 0, {silent_ep.ip}}});
        fault::lookup_delay_us = (int)s.range(1, 3000);
        if(!silent || !full) c.inconclusive("cannot listen");
        const size_t baseline = net::open_fds();
        const unsigned threads = (unsigned)s.range(1, 4);
        m = make_manager(threads);
        const bool with_server = s.chance(4, 5);
        c.note("%u threads%s", threads, with_server ? ", a server" : "");
        if(with_server) make_server();
        const int n = (int)s.range(1, 4);
        for(int i = 0; i < n; ++i) make_client(with_server);
        // traffic
        for(auto& k : clients) load(*k);
        if(with_server) for(int k = (int)s.below(3); k--;) raw_client();
        pause();
        // single channels
        for(int k = (int)s.below(3); k--;)
        {
            pbt::Group g(s);
            switch(s.below(3))
            {
            case 0: if(server && !server_down) { shut_server(); } break;
            default: { auto& k2 = *s.pick(clients); if(!k2.down) shut_client(k2); } break;
            }
            pause();
        }
        // the manager
        user_timers();
        const int how = (int)s.below(4);
        if(how == 0)
        {
            c.note("manager shutdown");
            c.label("manager shutdown");
            m->shutdown();
            for(auto& k : clients) { settle(*k); k->down = true; }
            for(auto& k : clients) if(const size_t n = connected_to(k->ep, mine())) c.fail("C22/socket", "%zu connections to %s after the manager's shutdown", n, k->ep.str().c_str());
            if(server) await_server_down();
            quiet();
            if(s.chance(1, 3)) m->shutdown();
        }
        const bool early = s.chance(1, 2);
        if(early) { c.note("the user drops everything first"); releases(); }
        else { for(auto& t : timers) t.reset(); }
        pause();
        c.note("manager destroyed");
        c.label(how == 0 ? "manager destroyed after shutdown" : "manager destroyed");
        m.reset();
        // nothing runs any more: no thread is left to run it
        stop = true;
        const uint64_t h = handled, r = requests;
        releases();
        raw.clear();
        if(late_calls) c.fail("C22/handler", "%d handlers ran after shutdown had taken effect", (int)late_calls);
        if(late_requests) c.fail("C22/request", "%d requests reached sessions after the server's shutdown had taken effect", (int)late_requests);
        if(handled != h || requests != r) c.fail("C22/after-manager", "handlers or sessions were called after the manager had been destroyed");
        for(auto& k : clients) if(!k->weak.expired()) c.fail("C22/leak", "a client channel still exists after the manager was destroyed, with %ld references", k->weak.use_count());
        if(!weak_server.expired()) c.fail("C22/leak", "the server channel still exists after the manager was destroyed, with %ld references", weak_server.use_count());
        for(auto& x : weak_sessions) if(!x.expired()) c.fail("C22/leak", "a session still exists after the manager was destroyed");
        if(token.use_count() != 1) c.fail("C22/leak-handlers", "%ld handlers or server sessions still exist after the manager was destroyed", token.use_count() - 1);
        const size_t now = net::open_fds();
        if(now != baseline) c.fail("C22/leak-sockets", "%zu descriptors are open instead of %zu after the manager was destroyed", now, baseline);
        if(with_server) { auto k = net::connect_to(server_ep.ip, server_ep.port); if(k) c.fail("C22/listening", "the server still accepts connections after the manager was destroyed"); }
        if(clients.size() >= 2 || with_server) c.nontrivial();
    }

private:
    struct Client
    {
        int kind;      // 0 library server, 1 silent peer, 2 refused, 3 connect pending, 4 slow name
        std::shared_ptr<modbus::IClientChannel> p;
        std::weak_ptr<modbus::IClientChannel> weak;
        std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
        std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
        std::atomic<uint64_t> calls{0};
        std::atomic<bool> dead{false}, ask_from_handler{false}, asked{false};
        bool down = false;
        Endpoint ep;
    };
    void pause()
    {
        switch(s.below(4))
        {
        case 0: break;
        case 1: std::this_thread::sleep_for(std::chrono::microseconds(s.range(1, 500))); break;
        case 2: std::this_thread::sleep_for(std::chrono::microseconds(s.range(500, 5000))); break;
        default: for(int k = (int)s.below(200); k--;) std::this_thread::yield();
        }
    }
    void make_server()
    {
        server = m->create_server_tcp_channel("s", server_ep.modbus(), (unsigned)s.range(2, 8));
        weak_server = server;
        for(uint8_t u = 1; u <= 3; ++u)
        {
            auto se = std::make_shared<ScriptSession>();
            shut.push_back(std::make_shared<std::atomic<int>>(0));
            auto n = shut.back();
            const bool from_session = s.chance(1, 12);
            const unsigned delay = s.chance(1, 4) ? (unsigned)s.range(1, 300) : 0;
            se->handler = [this, t = token, from_session, delay](const Req& q) {
                ++requests;
                if(server_dead) late_requests++;
                if(from_session && requests == 5) { if(auto p = weak_server.lock()) { server_asked = true; p->shutdown(); } }
                if(delay) std::this_thread::sleep_for(std::chrono::microseconds(delay));
                Answer a;
                a.resp = answer_for(q);
                return a;
            };
            se->on_shutdown = [n] { ++*n; };
            server->add_session(modbus::UnitIdentifier{u}, se);
        }
        server->start();
    }
    void make_client(bool with_server)
    {
        auto k = std::make_unique<Client>();
        k->kind = (int)s.weighted({with_server ? 6u : 0u, 3, 2, 1, 2});
        static const char* const K[] = {"the server", "a silent peer", "a refusing endpoint", "a full endpoint", "a slow name"};
        c.note("client of %s", K[k->kind]);
        c.label(std::string("client of ") + K[k->kind]);
        k->ep = k->kind == 0 ? server_ep : k->kind == 2 ? refused_ep : k->kind == 3 ? full_ep : silent_ep;
        if(k->kind == 3) for(int i = 0; i < 2; ++i)
        {
            net::Sock f(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0));
            auto a = net::addr_of(full_ep.ip, full_ep.port);
            (void)!::connect(f.fd, (sockaddr*)&a, sizeof a);
            raw.push_back(std::move(f));
        }
        k->p = m->create_client_tcp_channel("c", modbus::Ipv4Endpoint{k->kind == 4 ? "slow.test" : k->ep.ip, k->ep.port});
        k->weak = k->p;
        for(int i = (int)s.range(1, 2); i--;) { k->sessions.push_back(k->p->create_session(modbus::UnitIdentifier{(uint8_t)s.range(1, 4)}, s.chance(1, 2) ? ms(s.range(1, 20)) : LONG)); weak_sessions.push_back(k->sessions.back()); }
        clients.push_back(std::move(k));
    }
    // A handler; with `again` it keeps the channel busy
    OutcomeHandler handler(Client* k, int again, Req q, size_t session)
    {
        return [this, k, again, q, session, t = token](const Outcome&) {
            ++handled;
            ++k->calls;
            if(k->dead) ++late_calls;
            if(k->ask_from_handler && !k->asked.exchange(true)) { if(auto p = k->weak.lock()) p->shutdown(); }
            if(again > 0 && !stop)
            {
                std::shared_ptr<modbus::IClientSession> x;
                { std::lock_guard<std::mutex> l(mu); if(session < k->sessions.size()) x = k->sessions[session]; }
                if(x) issue(*x, q, nullptr, handler(k, again - 1, q, session));
            }
        };
    }
    void load(Client& k)
    {
        for(int i = (int)s.below(5); i--;)
        {
            const auto q = small_request(s);
            const size_t se = s.below(k.sessions.size());
            const int again = s.chance(1, 3) ? 100000 : (int)s.below(3);
            issue(*k.sessions[se], q, nullptr, handler(&k, again, q, se));
        }
        for(int i = (int)s.below(3); i--;)
        {
            Req q; q.fc = (int)s.range(1, 4); q.qty = 3;
            const auto t = ms(s.range(1, 20));
            k.polls.push_back(schedule(*s.pick(k.sessions), q, s.chance(1, 2) ? &t : nullptr, std::chrono::microseconds(s.range(100, 5000)), handler(&k, 0, q, 0)));
        }
    }
    void raw_client()
    {
        auto k = net::connect_to(server_ep.ip, server_ep.port, 2048);
        if(!k) return;          // the server may be down already
        Bytes all;
        Req q; q.fc = 3; q.qty = 125;
        for(int i = 0; i < (int)s.range(1, 200); ++i) { auto f = ref::frame((uint16_t)i, 1, ref::encode(q)); all.insert(all.end(), f.begin(), f.end()); }
        if(s.chance(1, 2)) all.resize(all.size() - 3);
        (void)!::send(k.fd, all.data(), all.size(), MSG_NOSIGNAL);
        c.label("raw client with unread replies");
        raw.push_back(std::move(k));
    }
    // Waits until everything posted by the shutdown of `k` has run
    void settle(Client& k)
    {
        for(int i = 0; i < 3; ++i) if(!barrier(*k.sessions[0])) c.fail_soft("C22/stuck", "the channel does not run");
    }
    void shut_client(Client& k)
    {
        if(s.chance(1, 3))
        {
            c.note("a client channel is shut down from a handler");
            k.ask_from_handler = true;
            // provoke an outcome
            Req q; q.fc = 3; q.qty = 0;
            issue(*k.sessions[0], q, nullptr, handler(&k, 0, q, 0));
            if(!net::wait_for([&] { return k.asked.load(); }, DEADLINE)) c.fail_soft("C22/no-outcome", "an invalid request got no outcome");
            c.label("client shutdown from a handler");
        }
        else
        {
            c.note("a client channel is shut down");
            if(s.chance(1, 4)) { std::thread a([&] { k.p->shutdown(); }); k.p->shutdown(); a.join(); c.label("two threads shut down"); }
            else k.p->shutdown();
            c.label("client shutdown");
        }
        settle(k);
        k.dead = true;
        k.down = true;
        const uint64_t n = k.calls;
        // harmless calls
        for(int i = (int)s.below(4); i--;)
            switch(s.below(6))
            {
            case 0: { auto x = k.p->create_session(modbus::UnitIdentifier{1}, LONG); if(x) c.fail("C22/session", "a session was created after shutdown had taken effect"); break; }
            case 1: { auto q = small_request(s); issue(*s.pick(k.sessions), q, nullptr, handler(&k, 0, q, 0)); break; }
            case 2: { Req q; q.fc = 2; q.qty = 1; auto p = schedule(*s.pick(k.sessions), q, nullptr, ms(1), handler(&k, 0, q, 0)); if(s.chance(1, 2) && p) { p->start(); k.polls.push_back(p); } break; }
            case 3: k.p->shutdown(); break;
            case 4: s.pick(k.sessions)->shutdown(); break;
            default: if(!k.polls.empty()) { auto& p = s.pick(k.polls); p->stop(); p->start(); p->set_frequency(ms(1)); }
            }
        if(k.p->create_session(modbus::UnitIdentifier{9}, LONG)) c.fail("C22/session", "a session was created after shutdown had taken effect");
        settle(k);
        // sockets of this channel: those of all others to the same peer remain
        size_t others = 0;
        for(auto& o : clients) if(o->ep.port == k.ep.port && !o->down) ++others;
        const size_t have = connected_to(k.ep, mine());
        if(have > others) c.fail("C22/socket", "%zu connections to %s although only %zu channels use it after a shutdown", have, k.ep.str().c_str(), others);
        if(k.calls != n) c.fail("C22/handler", "%d handlers ran after shutdown had taken effect", (int)(k.calls - n));
    }
    // raw sockets of the harness (and its ends of accepted connections) are not the library's
    std::set<int> mine()
    {
        std::set<int> r;
        for(auto& x : raw) r.insert(x.fd);
        return r;
    }
    void shut_server()
    {
        c.note("the server is shut down");
        server->shutdown();
        c.label("server shutdown");
        await_server_down();
        if(s.chance(1, 2)) { server->shutdown(); server->start(); server->add_session(modbus::UnitIdentifier{7}, echo_session()); c.label("calls after server shutdown"); }
    }
    void await_server_down()
    {
        if(server_down) return;
        server_down = true;
        if(!net::wait_for([&] { return sockets_at(server_ep).empty(); }, DEADLINE)) c.fail_soft("C22/server-sockets", "%zu sockets of the server are still open after its shutdown", sockets_at(server_ep).size());
        for(auto& n : shut) if(!net::wait_for([&] { return n->load() > 0; }, DEADLINE)) c.fail_soft("C22/session-shutdown", "a session of the server was not shut down");
        server_dead = true;
        if(net::connect_to(server_ep.ip, server_ep.port)) c.fail("C22/listening", "the server still accepts connections after its shutdown");
        requests_at_death = requests;
    }
    void quiet()
    {
        std::vector<uint64_t> n;
        for(auto& k : clients) n.push_back(k->calls);
        const uint64_t h = handled, r = requests;
        pause();
        for(size_t i = 0; i < clients.size(); ++i) if(clients[i]->calls != n[i]) c.fail("C22/handler", "a handler ran after the manager's shutdown had taken effect");
        if(h != handled || r != requests) c.fail("C22/handler", "a handler or session was called after the manager's shutdown had taken effect");
        for(auto& k : clients) if(k->p && k->p->create_session(modbus::UnitIdentifier{9}, LONG)) c.fail("C22/session", "a session was created after the manager's shutdown had taken effect");
    }
    void user_timers()
    {
        for(int k = (int)s.below(3); k--;)
        {
            auto& cl = *s.pick(clients);
            if(cl.sessions.empty()) continue;
            timers.push_back(cl.sessions[0]->start(ms(s.range(0, 15)), [this, t = token] { ++timer_calls; }));
            if(s.chance(1, 3)) timers.back()->cancel();
            c.label("user timer at teardown");
        }
    }
    void releases()
    {
        for(auto& t : timers) t.reset();
        timers.clear();
        for(auto& k : clients)
        {
            std::vector<std::shared_ptr<modbus::IClientSession>> x;
            { std::lock_guard<std::mutex> l(mu); x.swap(k->sessions); }
            x.clear();
            k->polls.clear();
            k->p.reset();
        }
        server.reset();
    }

    Ctx& c;
    pbt::Src& s;
    std::mutex mu;
    std::shared_ptr<int> token = std::make_shared<int>(0);
    Endpoint silent_ep, full_ep, refused_ep, server_ep;
    net::Sock silent, full;
    std::vector<net::Sock> raw;
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<std::weak_ptr<modbus::IClientSession>> weak_sessions;
    std::shared_ptr<modbus::IServerChannel> server;
    std::weak_ptr<modbus::IServerChannel> weak_server;
    std::vector<std::shared_ptr<std::atomic<int>>> shut;
    std::vector<std::unique_ptr<modbus::ITimer>> timers;
    std::atomic<uint64_t> handled{0}, requests{0}, timer_calls{0};
    std::atomic<int> late_calls{0}, late_requests{0};
    std::atomic<bool> stop{false}, server_dead{false}, server_asked{false};
    uint64_t requests_at_death = 0;
    bool server_down = false;
    std::unique_ptr<modbus::IModbusManager> m;
};

void c22(Ctx& c)
{
    if(c.index % 16 == 0) { c.label("real sockets"); Teardown t(c); t.run(); }
    else if(c.index % 4 == 1) { c.label("server channel"); ServerHistory h(c); h.run(); }
    else { c.label("client channel"); ClientHistory h(c); h.run(); }
}

pbt::Register r22([] {
    pbt::Property p;
    p.id = "C22";
    p.run = c22;
    p.quick_cases = 40000;
    p.case_timeout_s = 20;
    p.thorough_cases = 2000000;
    p.rule = "random histories of a client channel and of a server channel in virtual time, shut down at a random point (also from handlers and sessions) and used further; every sixteenth case: a manager with a server and several clients (of the server, of a silent peer, refused, connecting, resolving), requests, polls, raw clients and user timers, with channels shut down and the manager destroyed at random moments and all descriptors, channels, sessions and handlers accounted for afterwards. "
             "Non-trivial = shut down with requests or polls, or with two clients or a server.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "a shutdown has taken effect once an action posted behind it has run", "thread schedules are those the machine produces", "deadlines of 15 s, believed only if they reproduce"};
    p.required_labels = {"real sockets", "server channel", "client channel", "shutdown from a handler", "server shutdown from a session", "start after shutdown", "client shutdown", "client shutdown from a handler", "two threads shut down", "server shutdown",
                         "calls after server shutdown", "manager shutdown", "manager destroyed", "user timer at teardown", "client of the server", "client of a silent peer", "client of a refusing endpoint", "client of a full endpoint", "client of a slow name", "raw client with unread replies"};
    return p;
}());

} // namespace
