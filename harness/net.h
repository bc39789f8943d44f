// Raw loopback sockets and address allocation for checks against the real asio transport
#pragma once
#include <arpa/inet.h>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <set>
#include <string>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>
#include "ref.h"

namespace net {

using clk = std::chrono::steady_clock;
inline void sleep_ms(int ms) { std::this_thread::sleep_for(std::chrono::milliseconds(ms)); }

// An address of 127/8 of this process's own, and a port that changes with every call
inline std::string own_address(unsigned k = 0)
{
    const unsigned pid = (unsigned)getpid();
    return pbt::fmt("127.%u.%u.%u", 16 + ((pid >> 14) & 127) + 0, (pid >> 6) & 255, 1 + ((pid & 63) << 2) + (k & 1));
}
inline uint16_t next_port()
{
    static unsigned n = 0;
    return (uint16_t)(2000 + (n++ + (unsigned)getpid() * 131) % 28000);   // below the ephemeral range
}
inline sockaddr_in addr_of(const std::string& ip, uint16_t port)
{
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_port = htons(port);
    inet_pton(AF_INET, ip.c_str(), &a.sin_addr);
    return a;
}
inline std::string ip_of(const sockaddr_in& a) { char b[32]; return inet_ntop(AF_INET, &a.sin_addr, b, sizeof b); }
inline void nonblock(int fd) { fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
inline size_t open_fds()
{
    size_t n = 0;
    if(DIR* d = opendir("/proc/self/fd")) { while(readdir(d)) ++n; closedir(d); }
    return n;
}

struct Sock
{
    int fd = -1;
    Sock() = default;
    explicit Sock(int f) : fd(f) {}
    Sock(Sock&& o) noexcept : fd(o.fd) { o.fd = -1; }
    Sock& operator=(Sock&& o) noexcept { if(this != &o) { close(); fd = o.fd; o.fd = -1; } return *this; }
    ~Sock() { close(); }
    void close() { if(fd >= 0) ::close(fd); fd = -1; }
    void reset()     // close with RST
    {
        if(fd < 0) return;
        linger l{1, 0};
        setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
        close();
    }
    explicit operator bool() const { return fd >= 0; }
};

inline Sock connect_to(const std::string& ip, uint16_t port, int rcvbuf = 0)
{
    Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
    if(s.fd < 0) return s;
    if(rcvbuf) setsockopt(s.fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof rcvbuf);
    auto a = addr_of(ip, port);
    if(::connect(s.fd, (sockaddr*)&a, sizeof a) != 0) { s.close(); return s; }
    int one = 1;
    setsockopt(s.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    nonblock(s.fd);
    return s;
}
inline Sock listen_on(const std::string& ip, uint16_t port, int backlog = 64)
{
    Sock s(::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0));
    if(s.fd < 0) return s;
    int one = 1;
    setsockopt(s.fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    auto a = addr_of(ip, port);
    if(::bind(s.fd, (sockaddr*)&a, sizeof a) != 0 || ::listen(s.fd, backlog) != 0) { s.close(); return s; }
    nonblock(s.fd);
    return s;
}
// Sends everything, waiting for room; false on error or deadline
inline bool send_all(int fd, const uint8_t* p, size_t n, int timeout_ms = 20000)
{
    const auto end = clk::now() + std::chrono::milliseconds(timeout_ms);
    while(n)
    {
        ssize_t k = ::send(fd, p, n, MSG_NOSIGNAL);
        if(k > 0) { p += k; n -= (size_t)k; continue; }
        if(k < 0 && errno == EINTR) continue;
        if(k < 0 && errno != EAGAIN) return false;
        if(clk::now() > end) return false;
        pollfd q{fd, POLLOUT, 0};
        ::poll(&q, 1, 50);
    }
    return true;
}
inline bool send_all(int fd, const ref::Bytes& b, int timeout_ms = 20000) { return send_all(fd, b.data(), b.size(), timeout_ms); }

enum class Rd { Data, Again, Eof, Error };
// Appends what is available now
inline Rd read_some(int fd, ref::Bytes& out, size_t max = 65536)
{
    uint8_t buf[65536];
    for(;;)
    {
        ssize_t k = ::recv(fd, buf, std::min(max, sizeof buf), 0);
        if(k > 0) { out.insert(out.end(), buf, buf + k); return Rd::Data; }
        if(k == 0) return Rd::Eof;
        if(errno == EINTR) continue;
        return errno == EAGAIN ? Rd::Again : Rd::Error;
    }
}
// Reads until `out` has at least `n` bytes (Data), EOF, error or the deadline (Again)
inline Rd read_until(int fd, ref::Bytes& out, size_t n, int timeout_ms)
{
    const auto end = clk::now() + std::chrono::milliseconds(timeout_ms);
    while(out.size() < n)
    {
        auto r = read_some(fd, out);
        if(r == Rd::Eof || r == Rd::Error) return r;
        if(r == Rd::Again)
        {
            auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - clk::now()).count();
            if(left <= 0) return Rd::Again;
            pollfd q{fd, POLLIN, 0};
            ::poll(&q, 1, (int)std::min<long long>(left, 100));
        }
    }
    return Rd::Data;
}
inline Sock accept_on(int lfd, int timeout_ms, sockaddr_in* peer = nullptr)
{
    const auto end = clk::now() + std::chrono::milliseconds(timeout_ms);
    for(;;)
    {
        sockaddr_in a{};
        socklen_t l = sizeof a;
        int fd = ::accept4(lfd, (sockaddr*)&a, &l, SOCK_CLOEXEC | SOCK_NONBLOCK);
        if(fd >= 0) { int one = 1; setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one); if(peer) *peer = a; return Sock(fd); }
        auto left = std::chrono::duration_cast<std::chrono::milliseconds>(end - clk::now()).count();
        if(left <= 0) return Sock();
        pollfd q{lfd, POLLIN, 0};
        ::poll(&q, 1, (int)std::min<long long>(left, 100));
    }
}
template <class F> bool wait_for(F&& f, int timeout_ms)
{
    const auto end = clk::now() + std::chrono::milliseconds(timeout_ms);
    for(int i = 0;; ++i)
    {
        if(f()) return true;
        if(clk::now() > end) return false;
        if(i < 50) std::this_thread::yield();
        else std::this_thread::sleep_for(std::chrono::microseconds(i < 500 ? 100 : 2000));
    }
}

} // namespace net
