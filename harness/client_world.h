// A client channel on a virtual executor with a TCP connection that records what is sent
#pragma once
#include "glue.h"
#include "vexec.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "client/channel/ClientChannelTcp.h"
#include "logging/Logger.h"
#include "modbus/client/IClientSession.h"
#include "modbus/client/IScheduledRequest.h"
#include "modbus/logging/LoggerFactory.h"

inline ser4cpp::rseq_t seq_of(const uint8_t* p, size_t n) { return ser4cpp::rseq_t(p, n); }

class RecConn : public modbus::ITcpConnection
{
public:
    struct Sent { ref::Bytes bytes; exe4cpp::steady_time_t time; uint64_t action; };
    explicit RecConn(std::shared_ptr<VExec> e) : exec(std::move(e)) {}
    void set_listener(std::shared_ptr<modbus::IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& data) override
    {
        const uint8_t* p = data;
        sent.push_back({ref::Bytes(p, p + data.length()), exec->now, exec->actions});
        if(is_shutdown) ++sent_after_shutdown;
        if(on_send) on_send();
    }
    void close() override { ++closes; }
    void shutdown() override { is_shutdown = true; ++shutdowns; }
    std::shared_ptr<VExec> exec;
    std::weak_ptr<modbus::IConnectionListener> listener;
    std::vector<Sent> sent;
    std::function<void()> on_send;
    int closes = 0, shutdowns = 0, sent_after_shutdown = 0;
    bool is_shutdown = false;
};

struct ClientWorld
{
    std::shared_ptr<VExec> exec = std::make_shared<VExec>();
    std::shared_ptr<RecConn> conn = std::make_shared<RecConn>(exec);
    std::shared_ptr<modbus::ClientChannelTcp> channel;

    explicit ClientWorld(std::shared_ptr<modbus::Logger> logger = nullptr)
    {
        if(!logger) logger = modbus::LoggerFactory::create_null_logger("t");
        channel = std::make_shared<modbus::ClientChannelTcp>(exec, logger, conn);
    }
    ~ClientWorld()
    {
        // break the reference cycles of the library by shutting the channel down
        channel->shutdown();
        exec->drain();
    }
    // bytes arriving from the peer, as an event of the strand
    void post_receive(const ref::Bytes& b)
    {
        exec->post([this, b]() {
            auto l = conn->listener.lock();
            if(!l || conn->is_shutdown) return;
            std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]);
            if(!b.empty()) memcpy(p.get(), b.data(), b.size());
            l->on_receive(seq_of(p.get(), b.size()));
        });
    }
    void post_error(const std::string& m)
    {
        exec->post([this, m]() {
            auto l = conn->listener.lock();
            if(l && !conn->is_shutdown) l->on_error(m);
        });
    }
};

using OutcomeHandler = std::function<void(const glue::Outcome&)>;
// Issues the request described by `r` on a session, with or without an explicit timeout
inline void issue(modbus::IClientSession& s, const ref::Req& r, const modbus::duration_t* timeout, OutcomeHandler h)
{
    glue::with_fc(r.fc, [&](auto fc) {
        using Tr = glue::T<decltype(fc)::value>;
        using Response = typename Tr::Response;
        auto req = Tr::make(r);
        auto cb = [h](const modbus::Expected<Response>& e) { h(glue::outcome_of<decltype(fc)::value>(e)); };
        if(timeout) s.send_request(req, *timeout, cb);
        else s.send_request(req, cb);
    });
}
inline std::shared_ptr<modbus::IScheduledRequest> schedule(modbus::IClientSession& s, const ref::Req& r, const modbus::duration_t* timeout,
                                                           modbus::duration_t freq, OutcomeHandler h)
{
    auto go = [&](auto fc) -> std::shared_ptr<modbus::IScheduledRequest> {
        using Tr = glue::T<decltype(fc)::value>;
        using Response = typename Tr::Response;
        auto req = Tr::make(r);
        auto cb = [h](const modbus::Expected<Response>& e) { h(glue::outcome_of<decltype(fc)::value>(e)); };
        if(timeout) return s.schedule_request(req, *timeout, freq, cb);
        return s.schedule_request(req, freq, cb);
    };
    switch(r.fc)
    {
    case 1: return go(glue::Fc<1>{});
    case 2: return go(glue::Fc<2>{});
    case 3: return go(glue::Fc<3>{});
    default: return go(glue::Fc<4>{});
    }
}
