// What the demonstrations share: a manual executor, a recording connection, raw sockets
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <future>
#include <list>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include <vector>
#include "exe4cpp/IExecutor.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "logging/Logger.h"
#include "modbus/IModbusManager.h"
#include "modbus/Ipv4Endpoint.h"
#include "modbus/client/IClientChannel.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/exceptions/ConnectionException.h"
#include "modbus/exceptions/MalformedModbusRequestException.h"
#include "modbus/exceptions/MalformedModbusResponseException.h"
#include "modbus/exceptions/ModbusException.h"
#include "modbus/exceptions/TimeoutException.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerChannel.h"
#include "modbus/server/IServerSession.h"
#include "modbus/server/db/InMemoryDatabase.h"
#include "server/channel/IServer.h"
#include "server/channel/IServerConnectionListenerBuilder.h"
#include "server/channel/ServerChannelTcp.h"

using namespace modbus;
using Bytes = std::vector<uint8_t>;
using ms = std::chrono::milliseconds;

#define CHECK(x) do { if(!(x)) { std::printf("FAILED: %s (line %d)\n", #x, __LINE__); std::fflush(stdout); std::_Exit(1); } } while(0)

inline ser4cpp::rseq_t seq(const Bytes& b) { return ser4cpp::rseq_t(b.data(), b.size()); }
inline Bytes frame(uint16_t tid, uint8_t unit, const Bytes& pdu, uint16_t protocol = 0)
{
    const size_t n = pdu.size() + 1;
    Bytes f{(uint8_t)(tid >> 8), (uint8_t)tid, (uint8_t)(protocol >> 8), (uint8_t)protocol, (uint8_t)(n >> 8), (uint8_t)n, unit};
    f.insert(f.end(), pdu.begin(), pdu.end());
    return f;
}

class Exec final : public exe4cpp::IExecutor
{
    struct T : exe4cpp::ITimer
    {
        exe4cpp::steady_time_t t; exe4cpp::action_t a; int state = 0;
        void cancel() override { if(state == 0) state = 2; }
        exe4cpp::steady_time_t expires_at() override { return t; }
    };
public:
    exe4cpp::Timer start(const exe4cpp::duration_t& d, const exe4cpp::action_t& a) override { return start(now + d, a); }
    exe4cpp::Timer start(const exe4cpp::steady_time_t& t, const exe4cpp::action_t& a) override
    {
        auto x = std::make_shared<T>(); x->t = t; x->a = a; timers.push_back(x); return exe4cpp::Timer(x);
    }
    void post(const exe4cpp::action_t& a) override { q.push_back(a); }
    exe4cpp::steady_time_t get_time() override { return now; }
    void run() { for(int i = 0; i < 100000 && !q.empty(); ++i) { auto a = q.front(); q.pop_front(); a(); } }
    void pass(exe4cpp::duration_t d)
    {
        const auto end = now + d;
        run();
        for(;;)
        {
            std::shared_ptr<T> best;
            for(auto& x : timers) if(x->state == 0 && x->t <= end && (!best || x->t < best->t)) best = x;
            if(!best) break;
            if(best->t > now) now = best->t;
            best->state = 1;
            timers.remove(best);
            q.push_back(best->a);
            run();
        }
        now = end;
    }
    exe4cpp::steady_time_t now{std::chrono::hours(1)};
    std::deque<exe4cpp::action_t> q;
    std::list<std::shared_ptr<T>> timers;
};

class Conn : public ITcpConnection
{
public:
    void set_listener(std::shared_ptr<IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& d) override { const uint8_t* p = d; sent.push_back(Bytes(p, p + d.length())); }
    void close() override {}
    void shutdown() override { down = true; }
    std::weak_ptr<IConnectionListener> listener;
    std::vector<Bytes> sent;
    bool down = false;
};

// A client channel on the manual executor
struct Client
{
    std::shared_ptr<Exec> exec = std::make_shared<Exec>();
    std::shared_ptr<Conn> conn = std::make_shared<Conn>();
    std::shared_ptr<ClientChannelTcp> channel;
    explicit Client(std::shared_ptr<Logger> l = LoggerFactory::create_null_logger("demo")) { channel = std::make_shared<ClientChannelTcp>(exec, l, conn); }
    ~Client() { channel->shutdown(); exec->run(); }
    void receive(const Bytes& b) { exec->run(); auto l = conn->listener.lock(); if(l) l->on_receive(seq(b)); exec->run(); }
    void error() { exec->run(); auto l = conn->listener.lock(); if(l) l->on_error("lost"); exec->run(); }
    void reply(const Bytes& pdu) { exec->run(); const Bytes& f = conn->sent.back(); receive(frame((uint16_t)(f[0] << 8 | f[1]), f[6], pdu)); }
    Bytes pdu() { exec->run(); const Bytes& f = conn->sent.back(); return Bytes(f.begin() + 7, f.end()); }
};

// A server channel on the manual executor; connections are made by hand
struct Server
{
    struct Srv : IServer
    {
        void start(std::shared_ptr<IServerConnectionListenerBuilder> b) override { builder = b; }
        void shutdown() override { down = true; }
        std::shared_ptr<IServerConnectionListenerBuilder> builder;
        bool down = false;
    };
    std::shared_ptr<Exec> exec = std::make_shared<Exec>();
    std::shared_ptr<Srv> srv = std::make_shared<Srv>();
    std::shared_ptr<ServerChannelTcp> channel;
    struct Link { std::shared_ptr<Conn> conn; std::unique_ptr<IConnectionListener> listener; };
    Server()
    {
        channel = std::make_shared<ServerChannelTcp>(LoggerFactory::create_null_logger("demo"), exec, srv);
        channel->start();
        exec->run();
    }
    Link connect() { Link l; l.conn = std::make_shared<Conn>(); l.listener = srv->builder->build(l.conn); return l; }
};

// -- sockets
inline sockaddr_in addr(const char* ip, uint16_t port) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_port = htons(port); inet_pton(AF_INET, ip, &a.sin_addr); return a; }
inline int dial(const char* ip, uint16_t port)
{
    int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    auto a = addr(ip, port);
    if(connect(f, (sockaddr*)&a, sizeof a)) { close(f); return -1; }
    return f;
}
inline int listen_at(const char* ip, uint16_t port)
{
    int f = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1;
    setsockopt(f, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    auto a = addr(ip, port);
    if(bind(f, (sockaddr*)&a, sizeof a) || listen(f, 16)) { close(f); return -1; }
    return f;
}
inline bool readable(int f, int wait = 5000) { pollfd p{f, POLLIN, 0}; return poll(&p, 1, wait) > 0; }
inline int take(int l, int wait = 5000) { return readable(l, wait) ? accept4(l, nullptr, nullptr, SOCK_CLOEXEC) : -1; }
inline void put(int f, const Bytes& b) { (void)!send(f, b.data(), b.size(), MSG_NOSIGNAL); }
// up to n bytes; fewer if the peer closes or is silent
inline Bytes get(int f, size_t n, int wait = 5000)
{
    Bytes b;
    while(b.size() < n && readable(f, wait)) { uint8_t x[512]; ssize_t k = recv(f, x, std::min(sizeof x, n - b.size()), 0); if(k <= 0) break; b.insert(b.end(), x, x + k); }
    return b;
}
inline bool closed(int f, int wait = 5000) { if(!readable(f, wait)) return false; uint8_t x; return recv(f, &x, 1, MSG_PEEK) <= 0; }
inline uint16_t free_port(const char* ip) { for(uint16_t p = 20000 + getpid() % 7000;; ++p) { int f = listen_at(ip, p); if(f >= 0) { close(f); return p; } } }
template <class F> bool wait_for(F f, int timeout = 5000) { for(int i = 0; i < timeout / 5; ++i) { if(f()) return true; std::this_thread::sleep_for(ms(5)); } return f(); }
inline std::unique_ptr<IModbusManager> manager(unsigned threads = 2) { return IModbusManager::create(LoggerFactory::create_null_logger("demo"), threads); }
