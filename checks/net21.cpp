// C21 (end to end: client operations take effect in order) and C22 (shutdown and teardown), on real managers;
// C22 also over random histories in virtual time (see net22.cpp)
#include "dbmodel.h"
#include "netkit.h"
#include <condition_variable>

using namespace glue;
using namespace netkit;

namespace {

const modbus::duration_t LONG = std::chrono::seconds(600);

// ------------------------------------------------------------------------------------------- C21
// What the server sessions executed, in order, over all servers and databases
struct Effects
{
    struct Entry { int db; int server; uint8_t unit; Req q; Outcome o; int table = -1, value = 0; bool ok = false; };
    std::mutex mu;
    std::vector<Entry> v;
};

// The user's session: executes requests on a database and records what it did
std::shared_ptr<ScriptSession> recording_session(Effects& log, std::shared_ptr<modbus::InMemoryDatabase> db, int db_index, int server, uint8_t unit, unsigned spin)
{
    auto s = std::make_shared<ScriptSession>();
    s->handler = [&log, db, db_index, server, unit, spin](const Req& q) {
        Outcome o;
        {
            std::lock_guard<std::mutex> l(log.mu);
            o = dbmodel::call(*db, q);
            log.v.push_back({db_index, server, unit, q, o});
        }
        if(spin) std::this_thread::sleep_for(std::chrono::microseconds(spin));
        Answer a;
        a.kind = o.kind; a.resp = o.resp; a.code = o.code;
        return a;
    };
    return s;
}

class EndToEnd
{
public:
    explicit EndToEnd(Ctx& c) : c(c), s(c.src) {}
    ~EndToEnd()
    {
        stop = true;
        for(auto& t : threads) t.join();
        channels.clear();           // sessions, too: they must not outlive the executor of their manager
        managers.clear();
        fault::reset();
    }
    void run()
    {
        fault::exempt = true;
        fault::reset();
        if(s.chance(1, 4)) { fault::send_seed = s.below(1u << 30) + 1; c.label("partial writes"); }
        const int nmanagers = (int)s.range(1, 2), nservers = (int)s.range(1, 2), ndb = (int)s.range(1, 3);
        for(int i = 0; i < nmanagers; ++i)
        {
            const unsigned n = (unsigned)s.range(1, 8);
            max_threads = std::max(max_threads, n);
            managers.push_back(make_manager(n));
            c.note("manager %d with %u threads", i, n);
        }
        const bool big = s.chance(1, 12);
        for(int i = 0; i < ndb; ++i) make_db(big);
        for(int i = 0; i < nservers; ++i)
        {
            Server v;
            v.ep = fresh_endpoint((unsigned)(i & 1));
            v.p = s.pick(managers)->create_server_tcp_channel("s", v.ep.modbus());
            servers.push_back(v);
        }
        const int nchannels = (int)s.range(1, 6);
        for(int i = 0; i < nchannels; ++i) make_channel();
        for(auto& v : servers) v.p->start();
        // a freshly started server accepts as soon as it listens, which it does since its creation

        const size_t per = (size_t)s.range(1, c.thorough ? 150 : 50);
        for(auto& ch : channels) plan(*ch, per, big);
        const bool writer = s.chance(1, 3);
        if(writer) { plan_app((size_t)s.range(1, 60)); c.label("application writes to the database"); }
        for(auto& ch : channels) if(s.chance(1, 4)) poll(*ch);

        go(writer);
        if(!net::wait_for([&] { return outstanding == 0; }, DEADLINE * 2)) c.fail_soft("C21/no-response", "%d requests got no outcome", (int)outstanding);
        stop = true;
        for(auto& t : threads) t.join();
        threads.clear();
        for(auto& p : polls) p->handle->stop();
        for(auto& p : polls) if(!barrier(*p->session)) c.fail_soft("C21/stuck", "a channel does not run");
        // a last poll may be lost when the managers end
        for(auto& p : polls) { std::lock_guard<std::mutex> l(p->mu); p->closed = true; }
        for(auto& p : polls) { p->handle.reset(); p->session.reset(); }
        if(s.chance(1, 4)) for(auto& m : managers) m->shutdown();
        managers.clear();
        judge();
        if((nchannels >= 2 || max_threads >= 2) && ops_total >= 20) c.nontrivial();
    }

private:
    struct Server { Endpoint ep; std::shared_ptr<modbus::IServerChannel> p; int channels = 0; };
    struct Db { std::shared_ptr<modbus::InMemoryDatabase> p; dbmodel::Model model; };
    struct Op { Req q; size_t session; Outcome got; std::atomic<int> n{0}; bool local_reject = false; };
    struct Session { std::shared_ptr<modbus::IClientSession> p; uint8_t unit; };
    struct Channel
    {
        int index, server, slot, mode;
        std::vector<Session> sessions;
        std::shared_ptr<modbus::IClientChannel> p;
        std::deque<Op> ops;
        std::atomic<size_t> next{0};
        std::set<uint8_t> units() const { std::set<uint8_t> r; for(auto& x : sessions) r.insert(x.unit); return r; }
    };
    struct Poll { int server; uint8_t unit; Req q; std::shared_ptr<modbus::IClientSession> session; std::shared_ptr<modbus::IScheduledRequest> handle; std::mutex mu; std::vector<Outcome> got; bool closed = false; };

    void make_db(bool big)
    {
        Db d;
        d.p = std::make_shared<modbus::InMemoryDatabase>();
        for(int t = 0; t < 4; ++t)
        {
            const int n = big ? (int)s.range(100, 2200) : (int)s.range(5, 40);
            const int gap = s.chance(1, 2) ? (int)s.range(0, n) : -1;
            for(int a = 0; a < n; ++a)
            {
                if(a == gap) continue;
                const int v = t < 2 ? (a * 7 / 3) & 1 : (a * 40503) & 0xFFFF;
                if(dbmodel::db_add(*d.p, t, (uint16_t)a, v)) d.model.t[t][a] = v;
            }
        }
        dbs.push_back(std::move(d));
    }
    void serve(int server, uint8_t unit, int db)
    {
        const unsigned spin = s.chance(1, 8) ? (unsigned)s.range(1, 200) : 0;
        servers[(size_t)server].p->add_session(modbus::UnitIdentifier{unit}, recording_session(log, dbs[(size_t)db].p, db, server, unit, spin));
        served.insert({server, unit});
    }
    void make_channel()
    {
        auto ch = std::make_unique<Channel>();
        ch->index = (int)channels.size();
        ch->server = (int)s.below(servers.size());
        if(servers[(size_t)ch->server].channels >= 4) ch->server ^= servers.size() > 1 ? 1 : 0;
        if(servers[(size_t)ch->server].channels >= 4) return;
        ch->slot = servers[(size_t)ch->server].channels++;
        ch->mode = (int)s.below(4);
        ch->p = s.pick(managers)->create_client_tcp_channel("c", servers[(size_t)ch->server].ep.modbus());
        const int n = (int)s.range(1, 3);
        for(int i = 0; i < n; ++i)
        {
            // units are shared between channels; a repeated unit within a channel is fine, too
            const uint8_t unit = s.chance(1, 2) ? (uint8_t)s.range(1, 3) : s.byte_i();
            if(unit >= 200 && unit < 210) { --i; continue; }          // for polls
            if(!served.count({ch->server, unit})) serve(ch->server, unit, (int)s.below(dbs.size()));
            ch->sessions.push_back({ch->p->create_session(modbus::UnitIdentifier{unit}, LONG), unit});
        }
        static const char* const MODES[] = {"one thread", "main thread", "from handlers", "a thread per session"};
        c.note("channel %d to server %d, slot %d, %zu sessions, %s", ch->index, ch->server, ch->slot, ch->sessions.size(), MODES[ch->mode]);
        c.label(std::string("issued: ") + MODES[ch->mode]);
        channels.push_back(std::move(ch));
    }
    // The address modulo 4 tells which channel of the server issued a request
    Req gen(int slot, bool big)
    {
        Req q;
        q.fc = ref::FCS[s.below(8)];
        const int limit = big ? 2200 : 44;
        q.addr = (uint16_t)(s.below((uint64_t)limit / 4) * 4 + (uint64_t)slot);
        if(s.chance(1, 40)) q.addr = (uint16_t)(s.below(15000) * 4 + (uint64_t)slot);
        const int maxn = big && s.chance(1, 3) ? 2000 : 12;
        auto count = [&](int m) { return (int)s.range(1, std::min(m, maxn)); };
        switch(q.fc)
        {
        case 5: q.coil = s.chance(1, 2); break;
        case 6: q.reg = s.u16(); break;
        case 0x0F: { const uint64_t x = s.below(UINT64_MAX); q.bits.resize((size_t)count(1968)); for(size_t i = 0; i < q.bits.size(); ++i) q.bits[i] = (x >> (i * 13 % 61)) & 1; break; }
        case 0x10: { const uint16_t x = s.u16(); q.regs.resize((size_t)count(123)); for(size_t i = 0; i < q.regs.size(); ++i) q.regs[i] = (uint16_t)(x + 257 * i); break; }
        default: q.qty = (uint16_t)count(ref::max_qty(q.fc));
        }
        return q;
    }
    void plan(Channel& ch, size_t per, bool big)
    {
        const size_t n = (size_t)s.range(1, (int64_t)per);
        for(size_t i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            ch.ops.emplace_back();
            auto& o = ch.ops.back();
            o.session = s.below(ch.sessions.size());
            o.q = gen(ch.slot, big);
            if(s.chance(1, 30)) { o.q = Req(); o.q.fc = 3; o.q.addr = (uint16_t)ch.slot; o.q.qty = s.chance(1, 2) ? 0 : 126; o.local_reject = true; }
            c.note("channel %d op %zu: unit %u %s", ch.index, i, ch.sessions[o.session].unit, o.q.str().c_str());
        }
        ops_total += n;
    }
    struct AppOp { int db, table; uint16_t addr; int value; bool write; };
    void plan_app(size_t n)
    {
        for(size_t i = 0; i < n; ++i) { const int t = (int)s.below(4); app.push_back({(int)s.below(dbs.size()), t, (uint16_t)s.below(44), dbmodel::gen_value(s, t), s.chance(2, 3)}); }
    }
    void poll(Channel& ch)
    {
        auto p = std::make_shared<Poll>();
        p->server = ch.server;
        p->unit = (uint8_t)(200 + ch.index);
        serve(p->server, p->unit, (int)s.below(dbs.size()));
        do p->q = gen(ch.slot, false); while(p->q.fc > 4);
        c.note("channel %d polls unit %u: %s", ch.index, p->unit, p->q.str().c_str());
        p->session = ch.p->create_session(modbus::UnitIdentifier{p->unit}, LONG);
        const modbus::duration_t period = std::chrono::microseconds(s.range(0, 3000));
        p->handle = schedule(*p->session, p->q, nullptr, period, [p](const Outcome& o) { std::lock_guard<std::mutex> l(p->mu); if(!p->closed) p->got.push_back(o); });
        polls.push_back(p);
        c.label("polling");
    }
    void issue_op(Channel& ch, size_t i, bool chain)
    {
        auto& o = ch.ops[i];
        auto p = &ch;
        issue(*ch.sessions[o.session].p, o.q, nullptr, [this, p, i, chain](const Outcome& x) {
            auto& op = p->ops[i];
            if(op.n++ == 0) op.got = x;
            if(chain && i + 1 < p->ops.size()) issue_op(*p, i + 1, true);
            --outstanding;
        });
    }
    void go(bool writer)
    {
        outstanding = (int)ops_total;
        std::vector<Channel*> main_ones;
        for(auto& chp : channels)
        {
            auto& ch = *chp;
            switch(ch.mode)
            {
            case 0: threads.emplace_back([this, &ch] { for(size_t i = 0; i < ch.ops.size(); ++i) issue_op(ch, i, false); }); break;
            case 1: main_ones.push_back(&ch); break;
            case 2: threads.emplace_back([this, &ch] { issue_op(ch, 0, true); }); break;
            default:
                for(size_t k = 0; k < ch.sessions.size(); ++k)
                    threads.emplace_back([this, &ch, k] { for(size_t i = 0; i < ch.ops.size(); ++i) if(ch.ops[i].session == k) issue_op(ch, i, false); });
            }
        }
        if(writer)
            threads.emplace_back([this] {
                for(auto& a : app)
                {
                    if(stop) return;
                    {
                        std::lock_guard<std::mutex> l(log.mu);
                        Effects::Entry e{a.db, -1, 0, {}, {}};
                        e.table = a.table;
                        e.value = a.value;
                        e.ok = a.write ? dbmodel::db_set(*dbs[(size_t)a.db].p, a.table, a.addr, a.value) : dbmodel::db_get(*dbs[(size_t)a.db].p, a.table, a.addr, e.value);
                        e.q.addr = a.addr;
                        e.q.fc = a.write ? 1 : 0;
                        log.v.push_back(e);
                    }
                    std::this_thread::yield();
                }
            });
        // the main thread goes round its channels, and now and then moves a unit to another database
        bool moved = false;
        for(size_t i = 0;; ++i)
        {
            bool any = false;
            for(auto ch : main_ones) if(i < ch->ops.size()) { issue_op(*ch, i, false); any = true; }
            if(!any) break;
            if(i % 8 == 7 && !served.empty() && s.chance(1, 6))
            {
                auto it = served.begin();
                std::advance(it, (long)s.below(served.size()));
                const auto u = *it;
                if(u.second >= 200 && u.second < 210) continue;
                serve(u.first, u.second, (int)s.below(dbs.size()));
                moved = true;
            }
        }
        if(moved) c.label("session replaced during traffic");
    }
    void judge()
    {
        // 1. The databases did what the reference databases do
        size_t n = 0;
        for(auto& e : log.v)
        {
            auto& m = dbs[(size_t)e.db].model;
            if(e.table >= 0)
            {
                auto it = m.t[e.table].find(e.q.addr);
                const bool there = it != m.t[e.table].end();
                if(there != e.ok) c.fail("C21/database", "access to %s %u of database %d: %s", dbmodel::TN[e.table], e.q.addr, e.db, e.ok ? "success" : "failure");
                if(there && e.q.fc == 1) it->second = e.value;
                if(there && e.q.fc == 0 && it->second != e.value) c.fail("C21/database", "%s %u of database %d is %d instead of %d", dbmodel::TN[e.table], e.q.addr, e.db, e.value, it->second);
                continue;
            }
            const auto want = m.request(e.q);
            if(!(want == e.o)) c.fail("C21/database", "effect %zu (server %d unit %u, %s) was %s instead of %s", n, e.server, e.unit, e.q.str().c_str(), e.o.str().c_str(), want.str().c_str());
            ++n;
        }
        // 2. What was executed is what was issued, in order
        std::map<const Poll*, size_t> polled;
        std::map<Channel*, std::vector<const Effects::Entry*>> done;
        for(auto& e : log.v)
        {
            if(e.table >= 0) continue;
            bool found = false;
            for(auto& p : polls) if(p->server == e.server && p->unit == e.unit)
            {
                found = true;
                if(!(e.q == p->q)) c.fail("C21/poll", "unit %u was asked %s instead of %s", e.unit, e.q.str().c_str(), p->q.str().c_str());
                const size_t i = polled[p.get()]++;
                if(i < p->got.size() && !(p->got[i] == e.o)) c.fail("C21/poll", "poll %zu of unit %u got %s instead of %s", i, e.unit, p->got[i].str().c_str(), e.o.str().c_str());
            }
            if(found) continue;
            for(auto& ch : channels) if(ch->server == e.server && ch->slot == (e.q.addr & 3)) { done[ch.get()].push_back(&e); found = true; }
            if(!found) c.fail("C21/unknown", "server %d executed %s, which nobody issued", e.server, e.q.str().c_str());
        }
        for(auto& p : polls)
            if(p->got.size() > polled[p.get()]) c.fail("C21/poll", "%zu polls were answered, %zu executed", p->got.size(), polled[p.get()]);
        for(auto& chp : channels)
        {
            auto& ch = *chp;
            for(size_t i = 0; i < ch.ops.size(); ++i)
            {
                auto& o = ch.ops[i];
                if(o.n != 1) c.fail("C21/outcomes", "channel %d op %zu got %d outcomes", ch.index, i, (int)o.n);
                if(o.local_reject && o.got.kind != Outcome::MalformedRequest) c.fail("C21/local", "channel %d op %zu (%s) got %s", ch.index, i, o.q.str().c_str(), o.got.str().c_str());
            }
            if(ch.mode < 3) in_order(ch, done[&ch], -1);
            else
            {
                for(size_t k = 0; k < ch.sessions.size(); ++k) in_order(ch, done[&ch], (int)k);
            }
        }
    }
    // Per thread of issue, order must hold. Sessions of one channel and the same unit cannot be told apart, so
    // with a thread per session only sessions with a unit of their own are judged.
    void in_order(Channel& ch, const std::vector<const Effects::Entry*>& done, int session)
    {
        if(session >= 0)
        {
            int same = 0;
            for(auto& x : ch.sessions) same += x.unit == ch.sessions[(size_t)session].unit;
            if(same > 1) return;
        }
        std::vector<size_t> want;
        for(size_t i = 0; i < ch.ops.size(); ++i) if(!ch.ops[i].local_reject && (session < 0 || ch.ops[i].session == (size_t)session)) want.push_back(i);
        std::vector<const Effects::Entry*> got;
        for(auto e : done) if(session < 0 || e->unit == ch.sessions[(size_t)session].unit) got.push_back(e);
        for(size_t k = 0; k < want.size(); ++k)
        {
            auto& o = ch.ops[want[k]];
            const auto unit = ch.sessions[o.session].unit;
            if(k >= got.size()) c.fail("C21/not-executed", "channel %d: only %zu of %zu operations were executed", ch.index, got.size(), want.size());
            if(!(got[k]->q == o.q) || got[k]->unit != unit) c.fail("C21/order", "channel %d: operation %zu executed was unit %u %s; issued was unit %u %s", ch.index, k, got[k]->unit, got[k]->q.str().c_str(), unit, o.q.str().c_str());
            if(!(got[k]->o == o.got)) c.fail("C21/response", "channel %d op %zu (%s) got %s; the server session computed %s", ch.index, want[k], o.q.str().c_str(), o.got.str().c_str(), got[k]->o.str().c_str());
        }
        if(got.size() != want.size()) c.fail("C21/executed-more", "channel %d: %zu operations were executed, %zu issued", ch.index, got.size(), want.size());
    }

    Ctx& c;
    pbt::Src& s;
    Effects log;
    std::vector<Db> dbs;
    std::vector<std::unique_ptr<modbus::IModbusManager>> managers;
    std::vector<Server> servers;
    std::set<std::pair<int, uint8_t>> served;
    std::vector<std::unique_ptr<Channel>> channels;
    std::vector<std::shared_ptr<Poll>> polls;
    std::vector<AppOp> app;
    std::vector<std::thread> threads;
    std::atomic<int> outstanding{0};
    std::atomic<bool> stop{false};
    size_t ops_total = 0;
    unsigned max_threads = 0;
};

void c21(Ctx& c) { EndToEnd e(c); e.run(); }

pbt::Register r21([] {
    pbt::Property p;
    p.id = "C21";
    p.run = c21;
    p.quick_cases = 6000;
    p.thorough_cases = 200000;
    p.rule = "1-2 managers with 1-8 threads, 1-2 library servers, 1-3 databases shared by units and servers, 1-6 client channels with 1-3 sessions each; random operations of every kind over overlapping addresses issued by a thread, round-robin, from handlers or by a thread per session, with polls, writes of the application, sessions replaced during traffic and partial writes. "
             "The server-side log must equal each channel's issue order, follow the reference databases, and agree with the outcomes. Non-trivial = two or more channels or threads, and 20 or more operations.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "thread schedules are those the machine produces", "deadlines of 30 s, believed only if they reproduce"};
    p.required_labels = {"issued: one thread", "issued: main thread", "issued: from handlers", "issued: a thread per session", "polling", "application writes to the database", "session replaced during traffic", "partial writes"};
    return p;
}());

} // namespace
