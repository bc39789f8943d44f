// C23: the public API used from several threads at once, under ThreadSanitizer
#include "netkit.h"
#include "modbus/server/db/InMemoryDatabase.h"

using namespace glue;
using namespace netkit;

namespace {

const modbus::duration_t LONG = std::chrono::seconds(600);
modbus::duration_t ms(int64_t n) { return std::chrono::milliseconds(n); }

// The harness takes care not to synchronise the API threads with each other or with the library: they share
// objects created before they start, and count with relaxed atomics.
class Concurrent
{
public:
    explicit Concurrent(Ctx& c) : c(c), s(c.src) {}
    ~Concurrent() { finish(); }
    void run()
    {
        const unsigned pool = (unsigned)s.range(1, 4);
        m = make_manager(pool);
        nthreads = (int)s.range(2, 4);
        c.note("%u library threads, %d API threads", pool, nthreads);
        // servers: the first is never shut down
        const int ns = (int)s.range(1, 2);
        for(int i = 0; i < ns; ++i)
        {
            Server v;
            v.ep = fresh_endpoint((unsigned)(i & 1));
            v.p = m->create_server_tcp_channel("s", v.ep.modbus(), 16);
            servers.push_back(v);
        }
        start_early = s.chance(1, 2);
        servers[0].p->add_session(modbus::UnitIdentifier{1}, session());
        if(start_early) servers[0].p->start();
        // clients: the first one is never shut down, nor are its first session and first poll
        const int nc = (int)s.range(1, 3);
        for(int i = 0; i < nc; ++i)
        {
            auto k = std::make_unique<Client>();
            k->server = i == 0 ? 0 : (int)s.below(servers.size());
            k->p = m->create_client_tcp_channel("c", servers[(size_t)k->server].ep.modbus());
            for(int n = (int)s.range(1, 2); n--;) k->sessions.push_back(k->p->create_session(modbus::UnitIdentifier{1}, i == 0 ? LONG : ms(50)));
            Req q; q.fc = 3; q.qty = 2;
            for(auto& x : k->sessions) k->polls.push_back(schedule(*x, q, nullptr, std::chrono::microseconds(s.range(200, 3000)), [this](const Outcome&) { polled.fetch_add(1, std::memory_order_relaxed); }));
            clients.push_back(std::move(k));
        }
        phase(false);
        if(!start_early) servers[0].p->start();
        effects();
        if(s.chance(2, 3)) { c.label("manager shutdown during calls"); phase(true); }
        finish();
        for(size_t i = 0; i < used; ++i)
            if(counts[i].load() > 1) c.fail("C23/outcomes", "a request got %d outcomes", counts[i].load());
        if(ops_total >= 20) c.nontrivial();
    }

private:
    struct Server { Endpoint ep; std::shared_ptr<modbus::IServerChannel> p; };
    struct Client
    {
        int server;
        std::shared_ptr<modbus::IClientChannel> p;
        std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
        std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
    };
    enum Kind { Send, SendSafe, Invalid, Create, CreateSafe, Schedule, ScheduleSafe, PollStart, PollStop, PollFreq, PollRead, SessionShutdown, ChannelShutdown, AddSession, ServerStart, ServerShutdown,
                NewClient, NewServer, Timer, ManagerShutdown, Pause, PollFreqSafe, KINDS };
    struct Op { Kind kind; size_t client, session, id; Req q; int n; int then; };
    struct Own       // what one API thread made
    {
        std::vector<std::shared_ptr<modbus::IClientChannel>> channels;
        std::vector<std::shared_ptr<modbus::IServerChannel>> servers;
        std::vector<std::shared_ptr<modbus::IClientSession>> sessions;
        std::vector<std::shared_ptr<modbus::IScheduledRequest>> polls;
        std::vector<std::unique_ptr<modbus::ITimer>> timers;
        std::vector<Op> ops;
        std::vector<Endpoint> endpoints;
        int timers_started = 0;
    };
    static constexpr size_t MAXOPS = 4096;

    std::shared_ptr<modbus::IServerSession> session()
    {
        auto x = std::make_shared<ScriptSession>();
        x->handler = [this](const Req& q) { served.fetch_add(1, std::memory_order_relaxed); Answer a; a.resp = answer_for(q); return a; };
        return x;
    }
    Op gen(bool last)
    {
        Op o{};
        o.client = s.below(clients.size());
        o.session = s.below(clients[o.client].get()->sessions.size());
        o.n = (int)s.below(1000);
        o.then = (int)s.weighted({8, 1, 1, 1, 1});
        const unsigned down = last ? 2 : 1;
        o.kind = (Kind)s.weighted({4, 10, 1, 2, 3, 2, 2, 3, 3, 3, 3, down, down, 2, 1, 1, 1, 1, 2, last ? 3u : 0u, 3, 2});
        const bool other = clients.size() > 1 && o.client > 0;
        switch(o.kind)
        {
        case ChannelShutdown: case Send: case Create: case Schedule: case PollStart: case PollStop: case PollFreq:
            if(!other && !last && o.kind != PollStart) { o.kind = SendSafe; } break;
        case SessionShutdown: if(o.client == 0 && o.session == 0 && !last) o.kind = SendSafe; break;
        default: break;
        }
        if(o.kind == SendSafe || o.kind == CreateSafe || o.kind == ScheduleSafe) { o.client = 0; o.session = 0; }
        do o.q = small_request(s); while((o.kind == Schedule || o.kind == ScheduleSafe) && o.q.fc > 4);
        if(o.kind == Invalid) { o.q = Req(); o.q.fc = 3; o.q.qty = 0; o.client = 0; o.session = 0; }
        o.id = used;
        const bool outcome = o.kind == SendSafe || o.kind == Invalid || o.kind == CreateSafe;
        if(outcome || o.kind == Send) { if(used + 1 >= MAXOPS) o.kind = Pause; else { ++used; if(outcome && !last) must.push_back(o.id); } }
        c.label(std::string("op ") + NAMES[o.kind]);
        ++ops_total;
        return o;
    }
    void phase(bool last)
    {
        own.clear();
        own.resize((size_t)nthreads);
        const int n = (int)s.range(3, c.thorough ? 80 : 25);
        for(int t = 0; t < nthreads; ++t)
            for(int i = 0; i < n; ++i)
            {
                pbt::Group g(s);
                auto o = gen(last);
                c.note("thread %d: %s client %zu session %zu", t, NAMES[o.kind], o.client, o.session);
                own[(size_t)t].ops.push_back(o);
                own[(size_t)t].endpoints.push_back(o.kind == NewServer ? fresh_endpoint(0) : Endpoint{});
            }
        std::vector<std::thread> th;
        go.store(0);
        for(int t = 0; t < nthreads; ++t)
            th.emplace_back([this, t] {
                ++go;
                while(go.load() < nthreads) std::this_thread::yield();
                auto& me = own[(size_t)t];
                for(size_t i = 0; i < me.ops.size(); ++i) exec(me, me.ops[i], i);
            });
        for(auto& x : th) x.join();
        for(auto& o : own) { kept.push_back(std::move(o)); }
    }
    OutcomeHandler counter(size_t id, int then, size_t client)
    {
        return [this, id, then, client](const Outcome&) {
            // handlers run on the library's threads and may call the API, too
            auto& k = *clients[client];
            switch(then)
            {
            case 1: { Req q; q.fc = 1; q.qty = 3; issue(*k.sessions[0], q, nullptr, [this](const Outcome&) { polled.fetch_add(1, std::memory_order_relaxed); }); break; }
            case 2: k.p->create_session(modbus::UnitIdentifier{1}, ms(10)); break;
            case 3: k.polls[0]->start(); break;
            case 4: k.polls.back()->is_running(); break;
            }
            counts[id].fetch_add(1, std::memory_order_relaxed);
        };
    }
    void exec(Own& me, const Op& o, size_t i)
    {
        auto& k = *clients[o.client];
        switch(o.kind)
        {
        case Send: case SendSafe: case Invalid: issue(*k.sessions[o.session], o.q, nullptr, counter(o.id, o.then, o.client)); break;
        case Create: if(auto x = k.p->create_session(modbus::UnitIdentifier{1}, ms(20))) { me.sessions.push_back(x); issue(*x, o.q, nullptr, [this](const Outcome&) { polled.fetch_add(1, std::memory_order_relaxed); }); } break;
        case CreateSafe:
            if(auto x = k.p->create_session(modbus::UnitIdentifier{1}, LONG)) { me.sessions.push_back(x); issue(*x, o.q, nullptr, counter(o.id, 0, 0)); }
            else refused.fetch_add(1, std::memory_order_relaxed);
            break;
        case Schedule: case ScheduleSafe: if(auto p = schedule(*k.sessions[o.session], o.q, nullptr, std::chrono::microseconds(500 + o.n), [this](const Outcome&) { polled.fetch_add(1, std::memory_order_relaxed); })) { if(o.n % 2) p->stop(); me.polls.push_back(p); } break;
        case PollStart: k.polls[o.session]->start(); break;
        case PollStop: k.polls[o.session]->stop(); break;
        case PollFreq: case PollFreqSafe: k.polls[o.session]->set_frequency(std::chrono::microseconds(300 + 3 * o.n)); break;
        case PollRead: k.polls[o.session]->is_running(); k.polls[o.session]->get_frequency(); break;
        case SessionShutdown: k.sessions[o.session]->shutdown(); break;
        case ChannelShutdown: k.p->shutdown(); break;
        case AddSession: servers[(size_t)o.n % servers.size()].p->add_session(modbus::UnitIdentifier{(uint8_t)(1 + o.n % 3)}, session()); break;
        case ServerStart: if(servers.size() > 1) servers[1].p->start(); break;
        case ServerShutdown: if(servers.size() > 1) servers[1].p->shutdown(); break;
        case NewClient: { auto x = m->create_client_tcp_channel("n", servers[0].ep.modbus()); me.channels.push_back(x); if(auto y = x->create_session(modbus::UnitIdentifier{1}, ms(100))) { me.sessions.push_back(y); issue(*y, o.q, nullptr, [this](const Outcome&) { polled.fetch_add(1, std::memory_order_relaxed); }); } if(o.n % 3 == 0) x->shutdown(); break; }
        case NewServer: { auto x = m->create_server_tcp_channel("n", me.endpoints[i].modbus()); me.servers.push_back(x); x->add_session(modbus::UnitIdentifier{1}, session()); x->start(); if(o.n % 3 == 0) x->shutdown(); break; }
        case Timer: me.timers.push_back(k.sessions[o.session]->start(std::chrono::microseconds(o.n * 3), [this] { fired.fetch_add(1, std::memory_order_relaxed); })); ++me.timers_started; break;
        case ManagerShutdown: m->shutdown(); break;
        case Pause: if(o.n % 2) std::this_thread::yield(); else std::this_thread::sleep_for(std::chrono::microseconds(o.n / 2)); break;
        default: break;
        }
    }
    // What the calls of the first phase must have brought about
    void effects()
    {
        auto& k = *clients[0];
        const bool ok = net::wait_for([&] { for(auto i : must) if(counts[i].load() == 0) return false; return true; }, DEADLINE);
        if(refused.load()) c.fail("C23/refused", "a session was refused by a channel that was not shut down");
        if(!ok) { size_t n = 0; for(auto i : must) n += counts[i].load() == 0; c.fail_soft("C23/lost-request", "%zu of %zu requests issued on a channel that is never shut down got no outcome", n, must.size()); }
        int want = 0;
        for(auto& o : kept) want += o.timers_started;
        if(!net::wait_for([&] { return fired.load() == want; }, DEADLINE)) c.fail_soft("C23/lost-timer", "%d of %d timers fired", fired.load(), want);
        // the objects still do what they are told
        auto& p = *k.polls[0];
        if(session0_alive())
        {
            // the last call decides, whatever was still on its way when it was made
            modbus::duration_t f = p.get_frequency();
            bool running = p.is_running(), told = false;
            for(int round = 0; round < 3; ++round)
            {
                for(int n = (int)s.range(2, 6); n--;)
                {
                    switch(s.below(5))
                    {
                    case 0: case 1: p.stop(); running = false; told = true; break;
                    case 2: case 3: p.start(); running = true; told = true; break;
                    default: f = std::chrono::microseconds(s.range(400, 900)); p.set_frequency(f); break;
                    }
                }
                if(!barrier(*k.sessions[0])) c.fail_soft("C23/stuck", "the channel does not run");
                if(told && p.is_running() != running) c.fail(running ? "C23/lost-start" : "C23/lost-stop", "a scheduled request that was last told to %s is%s running", running ? "start" : "stop", running ? " not" : "");
                if(round && p.get_frequency() != f) c.fail("C23/lost-frequency", "the period set last is not in effect");
                if(!round) f = p.get_frequency();
            }
        }
        Outcomes out;
        const auto id = out.add();
        Req q; q.fc = 4; q.addr = 9; q.qty = 3;
        issue(*k.sessions[0], q, nullptr, [&](const Outcome& o) { out.put(id, o); });
        if(!out.wait(id)) { finish(); c.fail_soft("C23/lost-request", "a request got no outcome"); }
        const auto o = out.get(id);
        if(o.kind != Outcome::Value || !(o.resp == answer_for(q))) c.fail("C23/response", "a request got %s", o.str().c_str());
    }
    bool session0_alive() { return true; }
    void finish()
    {
        if(!m) return;
        for(auto& o : own) kept.push_back(std::move(o));
        own.clear();
        for(auto& o : kept) o.timers.clear();
        m.reset();
        kept.clear();
        for(auto& k : clients) { k->polls.clear(); k->sessions.clear(); k->p.reset(); }
        servers.clear();
    }

    static const char* const NAMES[KINDS];
    Ctx& c;
    pbt::Src& s;
    int nthreads = 0;
    bool start_early = false;
    std::vector<Server> servers;
    std::vector<std::unique_ptr<Client>> clients;
    std::vector<Own> own, kept;
    std::vector<size_t> must;
    size_t used = 0, ops_total = 0;
    std::atomic<int> go{0}, fired{0}, refused{0};
    std::atomic<uint64_t> served{0}, polled{0};
    std::vector<std::atomic<int>> counts = std::vector<std::atomic<int>>(MAXOPS);
    std::unique_ptr<modbus::IModbusManager> m;
};
const char* const Concurrent::NAMES[] = {"send", "send on the lasting channel", "invalid request", "create session", "create session on the lasting channel", "schedule", "schedule on the lasting channel", "start poll", "stop poll", "set frequency", "read poll", "session shutdown", "channel shutdown", "add server session", "start server", "server shutdown",
                                         "new client", "new server", "timer", "manager shutdown", "pause", "set frequency of any poll"};

pbt::Register r23([] {
    pbt::Property p;
    p.id = "C23";
    p.run = [](Ctx& c) { Concurrent x(c); x.run(); };
    p.quick_cases = 8000;
    p.thorough_cases = 100000;
    p.rule = "2-4 threads run random lists of public operations on shared channels, sessions, scheduled requests, servers and the manager while the library serves traffic, with handlers calling the API, too, and in the last phase the manager being shut down meanwhile; the whole library is instrumented by ThreadSanitizer. "
             "Every request on the channel that lasts gets exactly one outcome, every timer fires, and stop, start and period changes take effect. Non-trivial = 20 or more operations.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "ThreadSanitizer sees the schedules the machine produces", "deadlines of 15 s, believed only if they reproduce"};
    p.required_labels = {"op send", "op send on the lasting channel", "op invalid request", "op create session", "op create session on the lasting channel", "op schedule", "op schedule on the lasting channel", "op start poll", "op stop poll", "op set frequency", "op read poll", "op session shutdown", "op channel shutdown",
                         "op add server session", "op start server", "op server shutdown", "op new client", "op new server", "op timer", "op manager shutdown", "op set frequency of any poll", "manager shutdown during calls"};
    return p;
}());

} // namespace
