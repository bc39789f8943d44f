// C12 (accepting and evicting connections) and C13 (whole bytes under backpressure) on real sockets
#include "netkit.h"
#include "client/channel/AsioClientTcpConnection.h"
#include "exe4cpp/asio/StrandExecutor.h"
#include "exe4cpp/asio/ThreadPool.h"

using namespace glue;
using namespace netkit;

#include <sys/ioctl.h>

namespace {

inline void ioctl_avail(int fd, int& n) { ::ioctl(fd, FIONREAD, &n); }

// ------------------------------------------------------------------------------------------- C12
class Accepting
{
public:
    explicit Accepting(Ctx& c) : c(c), s(c.src) {}
    ~Accepting() { fault::reset(); }
    void run()
    {
        fault::exempt = true;
        fault::reset();
        const bool many = c.index % 60 == 0;
        max = (unsigned)(s.chance(3, 4) ? s.range(1, 4) : s.range(1, 12));
        if(c.index % 180 == 60) max = (unsigned)s.pick(std::vector<int64_t>{256, 257, 260, 300});
        else if(many && s.chance(3, 4)) max = (unsigned)(s.chance(1, 2) ? s.range(13, c.thorough ? 700 : 300) : s.pick(std::vector<int64_t>{127, 128, 255, 256, 257, 260}));
        else if(s.chance(1, 24)) max = (unsigned)s.pick(std::vector<int64_t>{UINT_MAX, INT_MAX, 1ll << 31, 65536, 100});
        const bool none = !many && s.chance(1, 24);
        if(none) max = 0;
        ep = fresh_endpoint();
        const unsigned threads = (unsigned)s.range(1, 3);
        m = make_manager(threads);
        auto server = m->create_server_tcp_channel("s", ep.modbus(), max);
        server->add_session(modbus::UnitIdentifier{1}, echo_session());
        server->start();
        c.note("server with at most %u connections, %u threads", max, threads);
        const int n = (int)s.range(3, c.thorough ? 60 : 25);
        if(none) return nobody();
        for(int i = 0; i < n; ++i)
        {
            pbt::Group g(s);
            step();
        }
        if(many) crowd();
        // whatever happened, a new client is served
        connect(1);
        settle();
        ask(alive.back());
        if(evicted) c.label("eviction");
        if(freed_then_accepted) c.label("slot freed and taken again");
        if(m_failures) c.label("accept failures");
        if((evicted || freed_then_accepted) && total >= 3) c.nontrivial();
        if(s.chance(1, 4)) m->shutdown();
    }

private:
    struct Cli { int id; net::Sock s; Bytes in; uint16_t port = 0, tid = 0; bool flooded = false, partial = false; };
    using P = std::shared_ptr<Cli>;

    void step()
    {
        switch(s.weighted({8, 5, 6, 3, 2, 2, 2, 2}))
        {
        case 0: connect(1); settle(); if(s.chance(1, 2)) ask(alive.back()); break;
        case 1: if(!alive.empty()) { disconnect(s.below(alive.size())); settle(); } break;
        case 2: if(!alive.empty()) ask(s.pick(alive)); break;
        case 3: c.label("burst of connections"); connect((int)s.range(2, 6)); settle(); break;
        case 4:  // connections and disconnections without waiting in between
        {
            c.label("racing connects and disconnects");
            std::vector<P> order = alive;
            std::set<P> gone;
            for(int k = (int)s.range(1, 5); k--;)
            {
                if(s.chance(1, 2) && !alive.empty()) { const size_t i = s.below(alive.size()); gone.insert(alive[i]); disconnect(i); }
                else { auto before = alive.size(); (void)before; connect(1); order.push_back(alive.back()); }
            }
            race(order, gone);
            break;
        }
        case 5:  // the system refuses to accept for a while
        {
            const int errs[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM};
            const int e = errs[s.below(4)], k = (int)s.range(1, 3);
            c.note("the next %d accepts fail: %s", k, strerror(e));
            fault::accept_consume = false;
            fault::accept_errno = e;
            fault::accept_errors = k;
            const auto f0 = fault::accept_failed.load();
            connect((int)s.range(1, 3));
            settle();
            fault::accept_errors = 0;
            if(fault::accept_failed > f0) ++m_failures;
            ask(alive.back());
            break;
        }
        case 6:  // a connection is lost before it is accepted
        {
            const int errs[] = {EPROTO, EPERM, EHOSTUNREACH, ENETDOWN, ETIMEDOUT, EINVAL};
            const int e = errs[s.below(6)];
            c.note("the next accept fails and loses the connection: %s", strerror(e));
            fault::accept_consume = true;
            fault::accept_errno = e;
            fault::accept_errors = 1;
            // The server's outstanding accept may have been tried before the fault was set and waits for readiness
            const auto f0 = fault::accept_failed.load();
            auto k = net::connect_to(ep.ip, ep.port);
            if(!k) c.inconclusive("connect failed");
            if(!net::wait_for([&] { return fault::accept_failed.load() > f0; }, DEADLINE)) { fault::accept_errors = 0; c.fail_soft("C12/not-accepted", "a connection was not accepted within %d ms", DEADLINE); }
            fault::accept_consume = false;
            ++m_failures;
            connect(1);
            settle();
            ask(alive.back());
            break;
        }
        default:
            if(!alive.empty())
            {
                auto& k = *s.pick(alive);
                if(k.flooded) break;
                if(s.chance(1, 2))
                {
                    c.note("client %d sends part of a request", k.id);
                    Req q; q.fc = 3; q.qty = 2;
                    auto f = ref::frame(9, 1, ref::encode(q));
                    f.resize((size_t)s.range(1, (int64_t)f.size() - 1));
                    net::send_all(k.s.fd, f);
                    k.flooded = true;      // no longer usable for requests
                    c.label("partial request");
                }
                else
                {
                    c.note("client %d sends many requests and reads nothing", k.id);
                    Req q; q.fc = 3; q.qty = 125;
                    Bytes all;
                    for(int i = 0; i < 300; ++i) { auto f = ref::frame((uint16_t)i, 1, ref::encode(q)); all.insert(all.end(), f.begin(), f.end()); }
                    ::send(k.s.fd, all.data(), all.size(), MSG_NOSIGNAL);
                    k.flooded = true;
                    c.label("unread replies");
                }
            }
        }
    }
    // a server that may hold no connection closes each one at once
    void nobody()
    {
        c.label("no connections allowed");
        for(int n = (int)s.range(1, 12); n--;)
        {
            pbt::Group g(s);
            connect((int)s.range(1, 4));
            if(s.chance(1, 3)) disconnect(s.below(alive.size()));
            settle();
        }
        c.nontrivial();
    }
    // far more connections than any ordinary history has, one by one or in bursts
    void crowd()
    {
        const int sort = (int)s.below(3);
        const int n = (int)max + (int)s.range(20, max > 12 ? 60 : 400);
        c.note("a crowd of %d, sort %d", n, sort);
        for(int i = 0; i < n;)
        {
            const int k = sort == 0 ? 1 : sort == 1 ? (int)s.range(1, 40) : (int)s.range(1, 5);
            connect(k);
            settle();
            i += k;
            if(sort == 2 && s.chance(1, 2)) { disconnect(s.below(alive.size())); settle(); }
            if(i % 16 == 0 && !alive.empty()) ask(s.pick(alive));
        }
        for(size_t i = 0; i < alive.size(); i += 1 + alive.size() / 20) ask(alive[i]);
        c.label("crowd");
        if(alive.size() > 12) c.label("more than 12 at once");
        if(alive.size() > 128) c.label("more than 128 at once");
        if(alive.size() > 255) c.label("more than 255 at once");
    }
    void connect(int n)
    {
        for(; n; --n)
        {
            auto k = std::make_shared<Cli>();
            k->id = (int)total++;
            k->s = net::connect_to(ep.ip, ep.port, s.chance(1, 4) ? 2048 : 0);
            if(!k->s) c.fail("C12/refused", "client %d could not connect: %s", k->id, strerror(errno));
            k->port = local_port(k->s.fd);
            c.note("client %d connects", k->id);
            if(m_freed && alive.size() < max) freed_then_accepted = true;
            alive.push_back(k);
        }
    }
    void disconnect(size_t i)
    {
        auto k = alive[i];
        const bool rst = s.chance(1, 3);
        c.note("client %d %s", k->id, rst ? "resets its connection" : "disconnects");
        if(rst) k->s.reset(); else k->s.close();
        alive.erase(alive.begin() + (long)i);
        m_freed = true;
        c.label(rst ? "reset" : "disconnect");
    }
    std::set<uint16_t> served()
    {
        std::set<uint16_t> r;
        for(auto& x : sockets_at(ep)) if(!x.listening) r.insert(x.peer_port);
        return r;
    }
    void ports(const std::vector<P>& v, std::set<uint16_t>& r) { for(auto& k : v) r.insert(k->port); }
    std::string who(const std::set<uint16_t>& p)
    {
        std::string r;
        for(auto x : p) { bool f = false; for(auto& k : everyone()) if(k->port == x) { r += pbt::fmt("%d ", k->id); f = true; break; } if(!f) r += "? "; }
        return r.empty() ? "none" : r;
    }
    std::vector<P> everyone() { auto r = alive; r.insert(r.end(), dead.begin(), dead.end()); return r; }
    // the connections the server must hold now: the newest `max` of those alive
    void settle()
    {
        while(alive.size() > max) { dead.push_back(alive.front()); alive.erase(alive.begin()); ++evicted; }
        std::set<uint16_t> want, got;
        ports(alive, want);
        const bool ok = net::wait_for([&] { got = served(); return got == want; }, DEADLINE);
        if(!ok) c.fail_soft("C12/connections", "the server holds the connections of clients %s, expected %s", who(got).c_str(), who(want).c_str());
        bury();
    }
    void bury()
    {
        for(auto& k : dead)
        {
            auto r = net::read_until(k->s.fd, k->in, SIZE_MAX, DEADLINE);
            if(r == net::Rd::Again) c.fail_soft("C12/not-closed", "client %d was not told that its connection is closed", k->id);
            k->s.close();
        }
        dead.clear();
    }
    // after a race: the closed clients are the oldest ones, no more than necessary and no more than `max` stay
    void race(const std::vector<P>& order, const std::set<P>& gone)
    {
        std::set<uint16_t> live, got;
        ports(alive, live);
        const bool newest_lives = !order.empty() && !gone.count(order.back());
        const bool ok = net::wait_for([&] {
            got = served();
            if(got.size() > max) return false;
            for(auto p : got) if(!live.count(p)) return false;
            return !newest_lives || got.count(order.back()->port) != 0;
        }, DEADLINE);
        if(!ok) c.fail_soft("C12/connections", "the server holds the connections of clients %s of %zu alive, at most %u are allowed", who(got).c_str(), alive.size(), max);
        if(newest_lives) ask(order.back());      // accepted last, so all others were accepted before
        else if(!order.empty() && alive.size() < order.size()) { connect(1); auto o = order; o.push_back(alive.back()); race(o, gone); return; }
        got.clear();
        net::wait_for([&] { got = served(); return got.size() <= max; }, DEADLINE);
        // closed = a prefix of `order` (besides those that left), of the fewest or slightly more
        size_t k = 0;
        for(size_t i = 0; i < order.size(); ++i) if(!gone.count(order[i]) && !got.count(order[i]->port)) k = i + 1;
        for(size_t i = 0; i < k; ++i)
            if(!gone.count(order[i]) && got.count(order[i]->port)) c.fail("C12/not-oldest", "client %d was closed although the older client %d is still connected", order[k - 1]->id, order[i]->id);
        const size_t excess = order.size() > max ? order.size() - max : 0;
        if(k > excess) c.fail("C12/too-many-closed", "client %d was closed although there never were more than %u newer or equally old connections", order[k - 1]->id, max - 1);
        std::vector<P> keep;
        for(auto& p : alive) { if(got.count(p->port)) keep.push_back(p); else { dead.push_back(p); ++evicted; } }
        alive = keep;
        bury();
    }
    void ask(P p)
    {
        auto& k = *p;
        if(k.flooded) return;
        Req q = small_request(s);
        const uint16_t tid = ++k.tid;
        c.note("client %d asks %s", k.id, q.str().c_str());
        if(!net::send_all(k.s.fd, ref::frame(tid, 1, ref::encode(q)))) c.fail("C12/closed", "the connection of client %d was closed although it is one of the newest %u", k.id, max);
        const auto want = ref::frame(tid, 1, ref::encode(answer_for(q)));
        k.in.clear();
        const auto r = net::read_until(k.s.fd, k.in, want.size(), DEADLINE);
        if(r == net::Rd::Eof || r == net::Rd::Error) c.fail("C12/closed", "the connection of client %d was closed although it is one of the newest %u", k.id, max);
        if(r == net::Rd::Again) c.fail_soft("C12/unserved", "client %d got no reply to %s", k.id, q.str().c_str());
        if(k.in != want) c.fail("C12/reply", "client %d got %s instead of %s", k.id, pbt::hex(k.in).c_str(), pbt::hex(want).c_str());
    }

    Ctx& c;
    pbt::Src& s;
    Endpoint ep;
    unsigned max = 1;
    size_t total = 0, evicted = 0, m_failures = 0;
    bool m_freed = false, freed_then_accepted = false;
    std::vector<P> alive, dead;
    std::unique_ptr<modbus::IModbusManager> m;
};

// ------------------------------------------------------------------------------------------- C13
struct Pipe   // a client of the server under test
{
    int id;
    net::Sock s;
    Bytes out, want, in;
    size_t sent = 0, checked = 0, hold = 0;   // reads nothing before `hold` bytes were sent or no progress is made
    int idle = 0;
    bool done() const { return sent == out.size() && checked == want.size(); }
};

void check_prefix(Ctx& c, Pipe& p)
{
    const size_t n = std::min(p.in.size(), p.want.size());
    for(size_t i = p.checked; i < n; ++i)
        if(p.in[i] != p.want[i])
        {
            size_t a = i > 20 ? i - 20 : 0;
            c.fail("C13/server-bytes", "connection %d: byte %zu of the replies differs: got ...%s, expected ...%s", p.id, i,
                   pbt::hex(Bytes(p.in.begin() + (long)a, p.in.begin() + (long)std::min(p.in.size(), i + 40))).c_str(), pbt::hex(Bytes(p.want.begin() + (long)a, p.want.begin() + (long)std::min(p.want.size(), i + 40))).c_str());
        }
    p.checked = n;
    if(p.in.size() > p.want.size()) c.fail("C13/server-extra", "connection %d: %zu bytes more than the replies call for", p.id, p.in.size() - p.want.size());
}

void server_side(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    struct Guard { ~Guard() { fault::reset(); } } guard;
    const Endpoint ep = fresh_endpoint();
    std::vector<Pipe> pipes((size_t)s.range(1, 3));
    const bool small_snd = s.chance(3, 4), small_rcv = s.chance(3, 4);
    const unsigned threads = (unsigned)s.range(1, 3);
    if(small_snd) fault::sndbuf = (int)s.range(1, 8000);
    const uint64_t seed = s.below(1ull << 60);
    if(s.chance(2, 3)) { fault::send_seed = seed | 1; c.label("partial writes"); }
    auto m = make_manager(threads);
    auto server = m->create_server_tcp_channel("s", ep.modbus(), 16);
    auto session = std::make_shared<ScriptSession>();
    session->handler = [](const Req& q) {
        Answer a;
        if(q.addr % 11 == 3) { a.kind = Outcome::Modbus; a.code = 2; }
        else if(q.addr % 11 == 7) a.kind = Outcome::Timeout;      // no reply
        else a.resp = answer_for(q);
        return a;
    };
    server->add_session(modbus::UnitIdentifier{1}, session);
    server->start();
    c.note("%zu connections, %u threads, send buffer %d, small receive buffer %d, partial writes %d", pipes.size(), threads, fault::sndbuf.load(), small_rcv, (int)(fault::send_seed != 0));
    size_t biggest = 0;
    for(size_t i = 0; i < pipes.size(); ++i)
    {
        pbt::Group g(s);
        auto& p = pipes[i];
        p.id = (int)i;
        const bool flood = c.index % 100 == 0;
        const size_t n = (size_t)(flood ? s.range(2000, 12000) : s.chance(1, 2) ? s.range(1, 30) : s.range(1, c.thorough ? 1200 : 300));
        if(flood) c.label("thousands of requests");
        const bool big = s.chance(2, 3);
        uint64_t h = s.below(1ull << 60);
        for(size_t k = 0; k < n; ++k)
        {
            h = pbt::mix(h, k);
            Req q;
            q.fc = ref::FCS[(h >> 8) % 8];
            q.addr = (uint16_t)(h >> 16);
            if(q.fc <= 4) q.qty = (uint16_t)(1 + (big && !flood ? ref::max_qty(q.fc) - 1 - (h >> 32) % 20 : (h >> 32) % 20));
            if(q.fc == 5) q.coil = h & 1;
            if(q.fc == 6) q.reg = (uint16_t)(h >> 40);
            if(q.fc == 15) q.bits.assign(1 + (h >> 32) % 30, h & 1);
            if(q.fc == 16) q.regs.assign(1 + (h >> 32) % 30, (uint16_t)(h >> 44));
            const auto f = ref::frame((uint16_t)(k + 1000 * i), 1, ref::encode(q));
            p.out.insert(p.out.end(), f.begin(), f.end());
            if(q.addr % 11 == 7) continue;
            const auto r = ref::frame((uint16_t)(k + 1000 * i), 1, q.addr % 11 == 3 ? ref::encode_exception(q.fc, 2) : ref::encode(answer_for(q)));
            p.want.insert(p.want.end(), r.begin(), r.end());
        }
        biggest = std::max(biggest, p.want.size());
        p.hold = s.chance(1, 2) ? SIZE_MAX : s.below(p.out.size() + 1);
        p.s = net::connect_to(ep.ip, ep.port, small_rcv ? 2048 : 0);
        if(!p.s) c.inconclusive("connect failed");
        if(s.chance(1, 3)) { int v = 4000; setsockopt(p.s.fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
        c.note("connection %zu: %zu requests, %zu reply bytes, reads after %s", i, n, p.want.size(), p.hold == SIZE_MAX ? "the server stops taking requests" : pbt::fmt("%zu bytes sent", p.hold).c_str());
    }
    uint64_t h = s.below(1ull << 60);
    const size_t max_read = (size_t)(s.chance(1, 3) && c.index % 100 ? s.range(1, 50) : s.range(50, 6000));
    const size_t max_send = (size_t)(s.chance(1, 3) && c.index % 100 ? s.range(1, 50) : s.range(50, 20000));
    auto progress = net::clk::now();
    bool stalled = false;
    for(uint64_t round = 0;; ++round)
    {
        bool all = true, moved = false;
        for(auto& p : pipes)
        {
            if(p.done()) continue;
            all = false;
            h = pbt::mix(h, round);
            if(p.sent < p.out.size())
            {
                const size_t n = std::min(p.out.size() - p.sent, 1 + (size_t)(h >> 10) % max_send);
                ssize_t k = ::send(p.s.fd, p.out.data() + p.sent, n, MSG_NOSIGNAL);
                if(k > 0) { p.sent += (size_t)k; moved = true; p.idle = 0; }
                else if(k < 0 && errno != EAGAIN && errno != EINTR) c.fail("C13/closed", "connection %d was closed by the server: %s", p.id, strerror(errno));
                else ++p.idle;
            }
            else if(p.hold)
            {
                // everything was sent and nothing was read: does the server still hold replies back?
                int avail = 0;
                std::this_thread::sleep_for(std::chrono::milliseconds(2));
                ioctl_avail(p.s.fd, avail);
                if((size_t)avail + p.in.size() < p.want.size()) stalled = true;
                p.hold = 0;
            }
            if(p.idle > 30) p.hold = 0;              // the server takes no more: start reading
            if(p.sent >= p.hold) p.hold = 0;
            if(p.hold == 0)
            {
                const auto r = net::read_some(p.s.fd, p.in, 1 + (size_t)(h >> 30) % max_read);
                if(r == net::Rd::Data) { moved = true; check_prefix(c, p); }
                else if(r != net::Rd::Again) c.fail("C13/closed", "connection %d was closed by the server after %zu of %zu reply bytes", p.id, p.in.size(), p.want.size());
            }
        }
        if(all) break;
        if(moved) { progress = net::clk::now(); continue; }
        if(net::clk::now() - progress > std::chrono::milliseconds(DEADLINE))
        {
            std::string st;
            for(auto& p : pipes) st += pbt::fmt(" connection %d: sent %zu of %zu, got %zu of %zu;", p.id, p.sent, p.out.size(), p.in.size(), p.want.size());
            c.fail_soft("C13/server-lost", "no progress for %d ms:%s", DEADLINE, st.c_str());
        }
        std::this_thread::sleep_for(std::chrono::microseconds(200));
    }
    // nothing follows
    for(auto& p : pipes)
    {
        Req q; q.fc = 3; q.addr = 1; q.qty = 1;
        net::send_all(p.s.fd, ref::frame(0x7777, 1, ref::encode(q)));
        const auto r = ref::frame(0x7777, 1, ref::encode(answer_for(q)));
        p.want.insert(p.want.end(), r.begin(), r.end());
        const auto e = net::read_until(p.s.fd, p.in, p.want.size(), DEADLINE);
        if(e == net::Rd::Again) c.fail_soft("C13/server-lost", "connection %d: the last reply is missing", p.id);
        check_prefix(c, p);
    }
    c.label("server");
    if(stalled) c.label("server blocked by a slow reader");
    if(stalled || (fault::send_seed && biggest > 300)) c.nontrivial();
}

// Reads what arrives at a raw peer and compares it with what must arrive
struct Inlet
{
    Ctx& c;
    net::Sock s;
    Bytes in, want;
    size_t checked = 0;
    void check()
    {
        const size_t n = std::min(in.size(), want.size());
        for(size_t i = checked; i < n; ++i)
            if(in[i] != want[i])
            {
                size_t a = i > 20 ? i - 20 : 0;
                c.fail("C13/client-bytes", "byte %zu of the requests differs: got ...%s, expected ...%s", i,
                       pbt::hex(Bytes(in.begin() + (long)a, in.begin() + (long)std::min(in.size(), i + 40))).c_str(), pbt::hex(Bytes(want.begin() + (long)a, want.begin() + (long)std::min(want.size(), i + 40))).c_str());
            }
        checked = n;
    }
    void slurp(pbt::Src&, size_t max_read, uint64_t h)
    {
        auto progress = net::clk::now();
        for(uint64_t k = 0; in.size() < want.size(); ++k)
        {
            const auto r = net::read_some(s.fd, in, 1 + (size_t)(pbt::mix(h, k) % max_read));
            if(r == net::Rd::Data) { check(); progress = net::clk::now(); continue; }
            if(r != net::Rd::Again) c.fail("C13/client-closed", "the connection was closed after %zu of %zu bytes", in.size(), want.size());
            if(net::clk::now() - progress > std::chrono::milliseconds(DEADLINE)) c.fail_soft("C13/client-lost", "only %zu of %zu bytes arrived", in.size(), want.size());
            pollfd q{s.fd, POLLIN, 0};
            ::poll(&q, 1, 1);
        }
        check();
        if(in.size() > want.size()) c.fail("C13/client-extra", "%zu bytes more than were sent: %s", in.size() - want.size(), pbt::hex(Bytes(in.begin() + (long)want.size(), in.end()), 100).c_str());
    }
};

Req big_write(uint64_t h, bool big)
{
    Req q;
    q.fc = 16;
    q.addr = (uint16_t)h;
    q.regs.assign(big ? 123 - (h >> 16) % 8 : 1 + (h >> 16) % 12, (uint16_t)(h >> 20));
    return q;
}

// requests that time out while the peer does not read
void client_channel(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    struct Guard { ~Guard() { fault::reset(); } } guard;
    const Endpoint ep = fresh_endpoint();
    auto l = net::listen_on(ep.ip, ep.port);
    int rb = 2048;
    const bool small = s.chance(4, 5);
    if(small) setsockopt(l.fd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
    if(s.chance(3, 4)) fault::sndbuf = (int)s.range(1, 8000);
    const uint64_t seed = s.below(1ull << 60);
    if(s.chance(2, 3)) { fault::send_seed = seed | 1; c.label("partial writes"); }
    Outcomes out;
    auto m = make_manager((unsigned)s.range(1, 3));
    auto session = m->create_client_tcp_channel("c", ep.modbus())->create_session(modbus::UnitIdentifier{7}, std::chrono::seconds(600));
    // the first request is answered
    Req q0; q0.fc = 3; q0.addr = 5; q0.qty = 1;
    auto first = out.add();
    issue(*session, q0, nullptr, [&out, first](const Outcome& o) { out.put(first, o); });
    Inlet p{c, net::accept_on(l.fd, DEADLINE), {}, {}};
    if(!p.s) { m.reset(); c.fail_soft("C13/no-connection", "no connection was made"); }
    uint16_t tid = 0;
    p.want = ref::frame(tid++, 7, ref::encode(q0));
    p.slurp(s, 4096, 1);
    net::send_all(p.s.fd, ref::frame(0, 7, ref::encode(answer_for(q0))));
    if(!out.wait(first)) { m.reset(); c.fail_soft("C13/no-outcome", "the first request got no outcome"); }
    const bool big = s.chance(3, 4);
    const int rounds = (int)s.range(1, 3);
    bool blocked = false;
    for(int r = 0; r < rounds; ++r)
    {
        pbt::Group g(s);
        const int n = (int)s.range(1, c.thorough ? 250 : 120);
        uint64_t h = s.below(1ull << 60);
        const modbus::duration_t t = std::chrono::microseconds(s.chance(1, 2) ? 0 : s.range(0, 300));
        c.note("%d requests that time out, peer reads afterwards", n);
        for(int i = 0; i < n; ++i)
        {
            const Req q = big_write(pbt::mix(h, (uint64_t)i), big);
            const auto id = out.add();
            issue(*session, q, &t, [&out, id](const Outcome& o) { out.put(id, o); });
            const auto f = ref::frame(tid++, 7, ref::encode(q));
            p.want.insert(p.want.end(), f.begin(), f.end());
        }
        if(!out.wait_all()) { m.reset(); c.fail_soft("C13/no-outcome", "a request got no outcome"); }
        const size_t before = p.in.size();
        pollfd pq{p.s.fd, POLLIN, 0};
        ::poll(&pq, 1, 5);
        int avail = 0;
        ioctl_avail(p.s.fd, avail);
        if((size_t)avail + before < p.want.size()) blocked = true;
        p.slurp(s, (size_t)(s.chance(1, 2) ? s.range(1, 100) : s.range(100, 5000)), h);
    }
    // nothing is left over, and the connection is still usable
    auto last = out.add();
    issue(*session, q0, nullptr, [&out, last](const Outcome& o) { out.put(last, o); });
    const auto f = ref::frame(tid++, 7, ref::encode(q0));
    p.want.insert(p.want.end(), f.begin(), f.end());
    p.slurp(s, 4096, 2);
    net::send_all(p.s.fd, ref::frame((uint16_t)(tid - 1), 7, ref::encode(answer_for(q0))));
    if(!out.wait(last)) { m.reset(); c.fail_soft("C13/no-outcome", "the last request got no outcome"); }
    if(out.get(last).kind != Outcome::Value) { auto o = out.get(last); m.reset(); c.fail("C13/last", "the last request got %s", o.str().c_str()); }
    m.reset();
    c.label("client channel");
    if(blocked) c.label("client blocked by a slow reader");
    if(blocked || fault::send_seed) c.nontrivial();
}

struct NullListener : modbus::IConnectionListener
{
    void on_receive(const ser4cpp::rseq_t&) override {}
    void on_error(const std::string& m) override { last = m; ++errors; }
    std::string last;
    void on_write_done() override { ++written; }
    std::atomic<int> errors{0}, written{0};
};

// bursts of frames handed to the client's connection object
void client_connection(Ctx& c)
{
    auto& s = c.src;
    fault::exempt = true;
    fault::reset();
    struct Guard { ~Guard() { fault::reset(); } } guard;
    const Endpoint ep = fresh_endpoint();
    auto l = net::listen_on(ep.ip, ep.port);
    int rb = 2048;
    if(s.chance(4, 5)) setsockopt(l.fd, SOL_SOCKET, SO_RCVBUF, &rb, sizeof rb);
    if(s.chance(3, 4)) fault::sndbuf = (int)s.range(1, 8000);
    const uint64_t seed = s.below(1ull << 60);
    if(s.chance(2, 3)) { fault::send_seed = seed | 1; c.label("partial writes"); }
    auto io = std::make_shared<asio::io_service>();
    auto ex = std::make_shared<exe4cpp::StrandExecutor>(io);
    auto conn = std::make_shared<modbus::AsioClientTcpConnection>(modbus::LoggerFactory::create_null_logger("t"), ex, ep.modbus());
    auto listener = std::make_shared<NullListener>();
    conn->set_listener(listener);
    struct Pool
    {
        exe4cpp::ThreadPool p;
        std::shared_ptr<modbus::AsioClientTcpConnection> c;
        Pool(const std::shared_ptr<asio::io_service>& io, unsigned n, std::shared_ptr<modbus::AsioClientTcpConnection> c) : p(io, n), c(c) {}
        ~Pool() { c->shutdown(); }
    } pool(io, (unsigned)s.range(1, 3), conn);
    auto send = [&](const Bytes& b) { ex->post([conn, b] { std::unique_ptr<uint8_t[]> p(new uint8_t[b.size()]); memcpy(p.get(), b.data(), b.size()); conn->send(ser4cpp::rseq_t(p.get(), (uint32_t)b.size())); }); };
    const int connections = (int)s.range(1, 3);
    bool blocked = false;
    for(int k = 0; k < connections; ++k)
    {
        pbt::Group g(s);
        uint64_t h = s.below(1ull << 60);
        const bool big = s.chance(3, 4);
        Req q0; q0.fc = 3; q0.addr = (uint16_t)k; q0.qty = 1;
        auto f = ref::frame((uint16_t)k, 1, ref::encode(q0));
        send(f);
        Inlet p{c, net::accept_on(l.fd, DEADLINE), {}, {}};
        if(!p.s) c.fail_soft("C13/no-connection", "connection %d was not made", k);
        p.want = f;
        p.slurp(s, 4096, h);
        const int bursts = (int)s.range(1, 3);
        for(int r = 0; r < bursts; ++r)
        {
            const int n = (int)s.range(1, c.thorough ? 300 : 120);
            c.note("connection %d: burst of %d frames", k, n);
            for(int i = 0; i < n; ++i)
            {
                f = ref::frame((uint16_t)i, 1, ref::encode(big_write(pbt::mix(h, (uint64_t)(i + 1000 * r)), big)));
                send(f);
                p.want.insert(p.want.end(), f.begin(), f.end());
            }
            const size_t mr = (size_t)(s.chance(1, 2) ? s.range(1, 100) : s.range(100, 5000));
            const bool closing = r + 1 == bursts && k + 1 < connections && s.chance(1, 2);
            if(closing)
            {
                // the connection is closed with frames unsent: what arrived is a prefix, and nothing of it shows up later
                c.label("closed while sending");
                c.note("closed");
                conn->close();
                const auto e = net::read_until(p.s.fd, p.in, SIZE_MAX, DEADLINE);
                if(e == net::Rd::Again) c.fail_soft("C13/not-closed", "the connection was not closed");
                p.check();
                if(p.in.size() > p.want.size()) c.fail("C13/client-extra", "more bytes than were sent");
                blocked = blocked || p.in.size() < p.want.size();
                break;
            }
            if(s.chance(1, 2)) { int avail = 0; pollfd pq{p.s.fd, POLLIN, 0}; ::poll(&pq, 1, 5); ioctl_avail(p.s.fd, avail); if((size_t)avail + p.in.size() < p.want.size()) blocked = true; }
            p.slurp(s, mr, h);
            if(r + 1 == bursts && k + 1 < connections)
            {
                c.note("closed when idle");
                conn->close();
                if(net::read_until(p.s.fd, p.in, p.want.size() + 1, DEADLINE) == net::Rd::Again) c.fail_soft("C13/not-closed", "the connection was not closed");
                if(p.in.size() > p.want.size()) c.fail("C13/client-extra", "more bytes than were sent");
            }
        }
        if(listener->errors) c.fail("C13/error", "an error was reported on a healthy connection: %s", listener->last.c_str());
    }
    c.label("client connection");
    if(blocked) c.label("client blocked by a slow reader");
    if(blocked || fault::send_seed) c.nontrivial();
}

pbt::Register r12([] {
    pbt::Property p;
    p.id = "C12";
    p.run = [](Ctx& c) { Accepting a(c); a.run(); };
    p.quick_cases = 900;
    p.thorough_cases = 200000;
    p.rule = "random histories of connects, disconnects, resets, bursts, requests, floods and failing accepts against a real server with 1..12 slots (every 60th history: crowds of hundreds of clients, up to 300 slots), compared with a list model (the sockets the server holds are read from the process's file descriptors). "
             "Non-trivial = at least three clients, and one was evicted or took a freed slot.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "loopback TCP of this kernel; accept failures are injected by interposing accept()", "deadlines of 15 s, believed only if they reproduce"};
    p.required_labels = {"eviction", "slot freed and taken again", "accept failures", "burst of connections", "racing connects and disconnects", "disconnect", "reset", "partial request", "unread replies", "crowd", "more than 12 at once", "more than 128 at once", "more than 255 at once", "no connections allowed"};
    return p;
}());

pbt::Register r13([] {
    pbt::Property p;
    p.id = "C13";
    p.run = [](Ctx& c) { switch(c.index % 4) { case 0: case 1: server_side(c); break; case 2: client_channel(c); break; default: client_connection(c); } };
    p.quick_cases = 5000;
    p.thorough_cases = 100000;
    p.rule = "pipelined requests to a real server, timed-out requests on a real client channel and bursts on the client's connection, with small socket buffers, slow readers and partial writes injected into send(); every byte compared with the frames that must arrive. "
             "Non-trivial = the kernel refused bytes because the peer did not read, or writes were cut.";
    p.assumptions = {"ser4cpp and exe4cpp are replaced by stand-ins with the same semantics (the real libraries are not available offline)",
                     "frames handed over before the connection is established: the newest replaces older ones (outside this property)"};
    p.required_labels = {"server", "client channel", "client connection", "partial writes", "server blocked by a slow reader", "client blocked by a slow reader", "closed while sending", "thousands of requests"};
    return p;
}());

} // namespace
