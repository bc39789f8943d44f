// System calls of the library under test, as seen by asio: defined in the executable, they take
// precedence over the C library's and over the sanitizer's interceptors.
#include <cerrno>
#include <cstring>
#include <dlfcn.h>
#include <map>
#include <mutex>
#include <netdb.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <sys/epoll.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "fault.h"
#include "pbt.h"

namespace fault {
thread_local bool exempt = false;
std::atomic<uint64_t> send_seed{0}, partial_sends{0};
std::atomic<int> accept_errors{0}, accept_errno{0};
std::atomic<bool> accept_consume{false};
std::atomic<uint64_t> accept_failed{0}, socket_failed{0}, lookups{0};
std::atomic<int> socket_errors{0}, sndbuf{0}, lookup_delay_us{0};
static std::mutex mu;
static std::vector<Name> names;
static std::vector<std::string> asked;
static std::atomic<uint64_t> counter{0};
static std::vector<SendStep> script;
static std::atomic<size_t> script_pos{0}, script_size{0};
void script_sends(std::vector<SendStep> steps) { std::lock_guard<std::mutex> l(mu); script = std::move(steps); script_pos = 0; script_size = script.size(); }
size_t script_left() { std::lock_guard<std::mutex> l(mu); return script_size - script_pos; }
// true if the next write is scripted
static bool next_step(SendStep& out)
{
    if(exempt || script_size.load() == 0) return false;
    std::lock_guard<std::mutex> l(mu);
    if(script_pos >= script.size()) return false;
    out = script[script_pos++];
    return true;
}
void set_names(const std::vector<Name>& n) { std::lock_guard<std::mutex> l(mu); names = n; }
std::vector<std::string> take_looked_up() { std::lock_guard<std::mutex> l(mu); auto r = asked; asked.clear(); return r; }
void reset()
{
    send_seed = 0; accept_errors = 0; accept_consume = false; socket_errors = 0; sndbuf = 0; counter = 0; lookup_delay_us = 0; script_sends({});
    std::lock_guard<std::mutex> l(mu);
    names.clear(); asked.clear();
}
// A cut or refused write means "no room now" to an edge-triggered poller, which then waits for the next
// edge. Re-arming the registration makes the kernel report the descriptor again.
struct Reg { int epfd; epoll_event ev; };
static std::map<int, Reg> registrations;
static void rearm(int fd)
{
    std::lock_guard<std::mutex> l(mu);
    auto it = registrations.find(fd);
    // without this, the rest of a cut write would wait for the peer's delayed acknowledgement
    const int one = 1;
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    if(it != registrations.end()) syscall(SYS_epoll_ctl, it->second.epfd, EPOLL_CTL_MOD, fd, &it->second.ev);
}
// number of bytes this write may take, 0 = would block
static size_t cut(size_t n)
{
    const uint64_t seed = send_seed.load();
    if(!seed || exempt || n == 0) return n;
    const uint64_t h = pbt::mix(seed, ++counter);
    size_t k = n;
    switch(h % 6) { case 0: k = 1; break; case 1: k = 1 + (h >> 8) % n; break; case 2: k = n > 1 ? n - 1 : 1; break; case 3: k = std::min<size_t>(n, 1 + (h >> 8) % 16); break; case 4: k = 0; break; default: return n; }
    if(k < n) ++partial_sends;
    return k;
}
} // namespace fault

using namespace fault;

template <class F> static F next(const char* name) { return (F)dlsym(RTLD_NEXT, name); }

extern "C" {

ssize_t sendmsg(int fd, const struct msghdr* m, int flags)
{
    size_t n = 0;
    for(size_t i = 0; i < (size_t)m->msg_iovlen; ++i) n += m->msg_iov[i].iov_len;
    SendStep step;
    const bool scripted = next_step(step);
    if(scripted && step.bytes == 0) { errno = step.error; return -1; }
    const size_t k = scripted ? std::min(step.bytes, n) : cut(n);
    if(k == n) return syscall(SYS_sendmsg, fd, m, flags);
    if(k == 0) { rearm(fd); errno = EAGAIN; return -1; }
    std::vector<iovec> v;
    size_t left = k;
    for(size_t i = 0; i < (size_t)m->msg_iovlen && left; ++i)
    {
        iovec x = m->msg_iov[i];
        if(x.iov_len > left) x.iov_len = left;
        left -= x.iov_len;
        v.push_back(x);
    }
    msghdr h = *m;
    h.msg_iov = v.data();
    h.msg_iovlen = v.size();
    const ssize_t r = syscall(SYS_sendmsg, fd, &h, flags);
    const int e = errno;
    rearm(fd);
    errno = e;
    return r;
}
ssize_t send(int fd, const void* p, size_t n, int flags)
{
    SendStep step;
    const bool scripted = next_step(step);
    if(scripted && step.bytes == 0) { errno = step.error; return -1; }
    const size_t k = scripted ? std::min(step.bytes, n) : cut(n);
    if(k == n) return syscall(SYS_sendto, fd, p, n, flags, nullptr, 0);
    if(k == 0) { rearm(fd); errno = EAGAIN; return -1; }
    const ssize_t r = syscall(SYS_sendto, fd, p, k, flags, nullptr, 0);
    const int e = errno;
    rearm(fd);
    errno = e;
    return r;
}
int epoll_ctl(int epfd, int op, int fd, struct epoll_event* ev)
{
    std::lock_guard<std::mutex> l(mu);
    const int r = (int)syscall(SYS_epoll_ctl, epfd, op, fd, ev);
    if(r == 0)
    {
        if(op == EPOLL_CTL_DEL) registrations.erase(fd);
        else registrations[fd] = {epfd, *ev};
    }
    return r;
}

static int faulty_accept(int fd, struct sockaddr* a, socklen_t* l, int flags)
{
    if(!exempt && accept_errors.load() > 0)
    {
        // only a waiting connection makes the call fail
        sockaddr_in dummy;
        socklen_t dl = sizeof dummy;
        if(accept_consume)
        {
            int k = (int)syscall(SYS_accept4, fd, (sockaddr*)&dummy, &dl, 0);
            if(k < 0) return k;
            linger lg{1, 0};
            setsockopt(k, SOL_SOCKET, SO_LINGER, &lg, sizeof lg);
            close(k);
            --accept_errors;
            ++accept_failed;
            errno = accept_errno;
            return -1;
        }
        --accept_errors;
        ++accept_failed;
        errno = accept_errno;
        return -1;
    }
    return (int)syscall(SYS_accept4, fd, a, l, flags);
}
int accept(int fd, struct sockaddr* a, socklen_t* l) { return faulty_accept(fd, a, l, 0); }
int accept4(int fd, struct sockaddr* a, socklen_t* l, int flags) { return faulty_accept(fd, a, l, flags); }

int socket(int domain, int type, int protocol)
{
    if(!exempt && domain == AF_INET && socket_errors.load() > 0)
    {
        --socket_errors;
        ++socket_failed;
        errno = EMFILE;
        return -1;
    }
    const int fd = (int)syscall(SYS_socket, domain, type, protocol);
    if(fd >= 0 && !exempt && sndbuf.load()) { int v = sndbuf; setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &v, sizeof v); }
    return fd;
}

int getaddrinfo(const char* host, const char* service, const struct addrinfo* hints, struct addrinfo** out)
{
    static auto real = next<int (*)(const char*, const char*, const struct addrinfo*, struct addrinfo**)>("getaddrinfo");
    if(host)
    {
        ++lookups;
        const std::string h = host;
        Name found;
        bool have = false;
        {
            std::lock_guard<std::mutex> l(mu);
            asked.push_back(h);
            for(auto& n : names) if(n.host == h) { found = n; have = true; }
        }
        if(!have && h.size() > 5 && h.compare(h.size() - 5, 5, ".test") == 0) return EAI_NONAME;
        if(have)
        {
            if(const int d = lookup_delay_us.load()) usleep((useconds_t)d);
            if(found.error) { if(found.error == EAI_SYSTEM) errno = EIO; return found.error; }
            addrinfo hn;
            memset(&hn, 0, sizeof hn);
            if(hints) hn = *hints;
            hn.ai_flags = AI_NUMERICHOST;
            addrinfo *first = nullptr, *last = nullptr;
            for(auto& a : found.addresses)
            {
                addrinfo* one = nullptr;
                int rc = real(a.c_str(), service, &hn, &one);
                if(rc) { if(first) freeaddrinfo(first); return rc; }
                if(last) last->ai_next = one; else first = one;
                for(last = one; last->ai_next; last = last->ai_next) {}
            }
            *out = first;
            return first ? 0 : EAI_NONAME;
        }
    }
    return real(host, service, hints, out);
}

} // extern "C"
