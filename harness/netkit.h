// Managers, raw peers and the sockets of this process
#pragma once
#include "client_world.h"
#include "fault.h"
#include "net.h"
#include "server_world.h"
#include "modbus/IModbusManager.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/server/IServerChannel.h"
#include <mutex>
#include <sys/stat.h>

namespace netkit {

using pbt::Ctx;
using ref::Bytes;
using ref::Req;

constexpr int DEADLINE = 15000;      // ms; far beyond anything the library needs

struct Endpoint
{
    std::string ip;
    uint16_t port;
    modbus::Ipv4Endpoint modbus() const { return modbus::Ipv4Endpoint{ip, port}; }
    std::string str() const { return ip + pbt::fmt(":%u", port); }
};

// A free port of our own address (found by binding a socket to it)
inline Endpoint fresh_endpoint(unsigned k = 0)
{
    for(int i = 0; i < 200; ++i)
    {
        Endpoint e{net::own_address(k), net::next_port()};
        if(net::listen_on(e.ip, e.port)) return e;
    }
    throw pbt::Inconclusive{"no free port"};
}

// A socket of this process that is bound to `e`
struct Local { int fd; bool listening; uint16_t peer_port; };
inline bool is_addr(const sockaddr_in& a, const Endpoint& e)
{
    in_addr x;
    inet_pton(AF_INET, e.ip.c_str(), &x);
    return a.sin_family == AF_INET && a.sin_port == htons(e.port) && a.sin_addr.s_addr == x.s_addr;
}
inline std::vector<Local> sockets_at(const Endpoint& e, const std::set<int>& except = {})
{
    std::vector<Local> r;
    DIR* d = opendir("/proc/self/fd");
    if(!d) return r;
    while(dirent* f = readdir(d))
    {
        const int fd = atoi(f->d_name);
        if(fd <= 2 || except.count(fd)) continue;
        sockaddr_in a{};
        socklen_t l = sizeof a;
        if(getsockname(fd, (sockaddr*)&a, &l) != 0 || l != sizeof a || !is_addr(a, e)) continue;
        Local s{fd, false, 0};
        int v = 0;
        l = sizeof v;
        getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &v, &l);
        s.listening = v != 0;
        l = sizeof a;
        if(getpeername(fd, (sockaddr*)&a, &l) == 0) s.peer_port = ntohs(a.sin_port);
        r.push_back(s);
    }
    closedir(d);
    return r;
}
// A particular socket of this process, recognisable after it was reset or closed
struct SockId
{
    int fd = -1;
    ino_t ino = 0;
    bool open() const { struct stat st; return fd >= 0 && fstat(fd, &st) == 0 && st.st_ino == ino; }
};
inline uint16_t local_port(int fd)
{
    sockaddr_in a{};
    socklen_t l = sizeof a;
    getsockname(fd, (sockaddr*)&a, &l);
    return ntohs(a.sin_port);
}
// The library's end of the connection that the harness holds as `fd` (look it up while it is healthy)
inline SockId other_end(int fd)
{
    sockaddr_in a{};
    socklen_t l = sizeof a;
    SockId r;
    if(getpeername(fd, (sockaddr*)&a, &l) != 0) return r;
    Endpoint e{net::ip_of(a), ntohs(a.sin_port)};
    for(auto& x : sockets_at(e))
    {
        struct stat st;
        if(x.listening || x.peer_port != local_port(fd) || fstat(x.fd, &st) != 0) continue;
        r.fd = x.fd;
        r.ino = st.st_ino;
    }
    return r;
}
// Sockets of this process connected to `e`, the harness's own excluded
inline size_t connected_to(const Endpoint& e, const std::set<int>& except = {})
{
    size_t n = 0;
    DIR* d = opendir("/proc/self/fd");
    if(!d) return 0;
    while(dirent* f = readdir(d))
    {
        const int fd = atoi(f->d_name);
        if(fd <= 2 || except.count(fd)) continue;
        sockaddr_in a{};
        socklen_t l = sizeof a;
        if(getpeername(fd, (sockaddr*)&a, &l) == 0 && l == sizeof a && is_addr(a, e)) ++n;
    }
    closedir(d);
    return n;
}
inline std::unique_ptr<modbus::IModbusManager> make_manager(unsigned threads)
{
    return modbus::IModbusManager::create(modbus::LoggerFactory::create_null_logger("t"), threads);
}

// Deterministic answer of the test server to a request: values depend on the address only
inline ref::Resp answer_for(const Req& q)
{
    ref::Resp r;
    r.fc = q.fc;
    if(q.fc <= 4)
        for(unsigned i = 0; i < q.qty; ++i)
        {
            const uint16_t a = (uint16_t)(q.addr + i);
            const uint16_t v = (uint16_t)(a * 40503u + 17 * q.fc);
            r.points.push_back({a, ref::is_read_bits(q.fc) ? (uint16_t)((v >> 7) & 1) : v});
        }
    else if(q.fc == 5) r.points.push_back({q.addr, (uint16_t)q.coil});
    else if(q.fc == 6) r.points.push_back({q.addr, q.reg});
    else { r.addr = q.addr; r.qty = (uint16_t)q.count(); }
    return r;
}
inline std::shared_ptr<ScriptSession> echo_session()
{
    auto s = std::make_shared<ScriptSession>();
    s->handler = [](const Req& q) { Answer a; a.resp = answer_for(q); return a; };
    return s;
}

// Outcomes collected from the library's threads
struct Outcomes
{
    struct One { std::atomic<int> n{0}; glue::Outcome o; };
    std::mutex mu;
    std::vector<std::shared_ptr<One>> v;
    std::atomic<size_t> total{0};
    size_t add() { std::lock_guard<std::mutex> l(mu); v.push_back(std::make_shared<One>()); return v.size() - 1; }
    void put(size_t i, const glue::Outcome& o)
    {
        std::lock_guard<std::mutex> l(mu);
        if(v[i]->n++ == 0) v[i]->o = o;
        ++total;
    }
    int count(size_t i) { std::lock_guard<std::mutex> l(mu); return v[i]->n; }
    glue::Outcome get(size_t i) { std::lock_guard<std::mutex> l(mu); return v[i]->o; }
    size_t size() { std::lock_guard<std::mutex> l(mu); return v.size(); }
    bool all() { std::lock_guard<std::mutex> l(mu); for(auto& x : v) if(x->n == 0) return false; return true; }
    bool wait(size_t i, int ms = DEADLINE) { return net::wait_for([&] { return count(i) > 0; }, ms); }
    bool wait_all(int ms = DEADLINE) { return net::wait_for([&] { return all(); }, ms); }
};

// Everything posted to the channel of `session` before has run when this returns (false: deadline).
// Uses a session timer, so it needs a running manager.
inline bool barrier(modbus::IClientSession& session)
{
    auto done = std::make_shared<std::atomic<bool>>(false);
    auto t = session.start(std::chrono::microseconds(0), [done] { *done = true; });
    return net::wait_for([&] { return done->load(); }, DEADLINE);
}

// Holds the executor of a channel while it exists
class Gate
{
public:
    explicit Gate(modbus::IClientSession& session)
    {
        auto x = st;
        timer = session.start(std::chrono::microseconds(0), [x] { x->in = true; while(!x->open) std::this_thread::sleep_for(std::chrono::microseconds(20)); x->out = true; });
        held = net::wait_for([&] { return x->in.load(); }, DEADLINE);
    }
    ~Gate() { open(); }
    void open() { st->open = true; net::wait_for([&] { return st->out.load() || !held; }, DEADLINE); }
    bool held = false;
private:
    struct State { std::atomic<bool> in{false}, open{false}, out{false}; };
    std::shared_ptr<State> st = std::make_shared<State>();
    std::unique_ptr<modbus::ITimer> timer;
};

inline Req small_request(pbt::Src& s)
{
    Req q = ref::gen_request(s);
    if(q.fc <= 4) q.qty = (uint16_t)(1 + q.qty % 20);
    if(q.bits.size() > 20) q.bits.resize(1 + q.bits.size() % 20);
    if(q.regs.size() > 8) q.regs.resize(1 + q.regs.size() % 8);
    return q;
}

} // namespace netkit
