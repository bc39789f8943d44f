// A server channel on a virtual executor, with recorded connections and scriptable sessions
#pragma once
#include "impl_glue.h"
#include "vexec.h"
#include "IConnectionListener.h"
#include "ITcpConnection.h"
#include "logging/Logger.h"
#include "modbus/logging/LoggerFactory.h"
#include "modbus/server/IServerSession.h"
#include "server/channel/IServer.h"
#include "server/channel/IServerConnectionListenerBuilder.h"
#include "server/channel/ServerChannelTcp.h"

// Answers through a std::function in terms of the reference model
struct Answer { glue::Outcome::Kind kind = glue::Outcome::Value; ref::Resp resp; int code = 0; };
class ScriptSession : public modbus::IServerSession
{
public:
    std::function<Answer(const ref::Req&)> handler;
    std::function<void()> on_shutdown;
    void shutdown() override { if(on_shutdown) on_shutdown(); }

#define SCRIPT_HANDLER(FC, NAME)                                                                                     \
    modbus::Expected<modbus::NAME##Response> on_request(const modbus::NAME##Request& request) override { return answer<FC>(request); }
    SCRIPT_HANDLER(1, ReadCoils)
    SCRIPT_HANDLER(2, ReadDiscreteInputs)
    SCRIPT_HANDLER(3, ReadHoldingRegisters)
    SCRIPT_HANDLER(4, ReadInputRegisters)
    SCRIPT_HANDLER(5, WriteSingleCoil)
    SCRIPT_HANDLER(6, WriteSingleRegister)
    SCRIPT_HANDLER(0x0F, WriteMultipleCoils)
    SCRIPT_HANDLER(0x10, WriteMultipleRegisters)
#undef SCRIPT_HANDLER

private:
    template <int FC> modbus::Expected<typename glue::T<FC>::Response> answer(const typename glue::T<FC>::Request& q)
    {
        using E = modbus::Expected<typename glue::T<FC>::Response>;
        Answer a = handler(glue::T<FC>::from(q));
        switch(a.kind)
        {
        case glue::Outcome::Value: return E(glue::T<FC>::make(a.resp));
        case glue::Outcome::Modbus: return E::from_exception(modbus::ModbusException{glue::type_of(a.code)});
        case glue::Outcome::Timeout: return E::from_exception(modbus::TimeoutException{});
        case glue::Outcome::MalformedRequest: return E::from_exception(modbus::MalformedModbusRequestException{"x"});
        default: return E::from_exception(std::runtime_error{"not a modbus error"});
        }
    }
};

class FakeServer : public modbus::IServer
{
public:
    void start(std::shared_ptr<modbus::IServerConnectionListenerBuilder> b) override { builder = b; ++starts; }
    void shutdown() override { ++shutdowns; }
    std::shared_ptr<modbus::IServerConnectionListenerBuilder> builder;
    int starts = 0, shutdowns = 0;
};

class OutConn : public modbus::ITcpConnection
{
public:
    void set_listener(std::shared_ptr<modbus::IConnectionListener> l) override { listener = l; }
    void send(const ser4cpp::rseq_t& data) override
    {
        const uint8_t* p = data;
        out.insert(out.end(), p, p + data.length());
        sends.push_back(ref::Bytes(p, p + data.length()));
    }
    void close() override { ++closes; }
    void shutdown() override {}
    std::shared_ptr<modbus::IConnectionListener> listener;
    ref::Bytes out;
    std::vector<ref::Bytes> sends;
    int closes = 0;
};

struct ServerWorld
{
    std::shared_ptr<VExec> exec = std::make_shared<VExec>();
    std::shared_ptr<FakeServer> server = std::make_shared<FakeServer>();
    std::shared_ptr<modbus::ServerChannelTcp> channel;
    explicit ServerWorld(std::shared_ptr<modbus::Logger> logger = nullptr)
    {
        if(!logger) logger = modbus::LoggerFactory::create_null_logger("t");
        channel = std::make_shared<modbus::ServerChannelTcp>(logger, exec, server);
    }
    std::shared_ptr<OutConn> connect()
    {
        auto c = std::make_shared<OutConn>();
        if(!server->builder) return nullptr;
        c->set_listener(std::shared_ptr<modbus::IConnectionListener>(server->builder->build(c)));
        return c;
    }
    void post_receive(std::shared_ptr<OutConn> c, const ref::Bytes& b)
    {
        exec->post([c, b]() {
            std::unique_ptr<uint8_t[]> p(new uint8_t[b.size() ? b.size() : 1]);
            if(!b.empty()) memcpy(p.get(), b.data(), b.size());
            c->listener->on_receive(ser4cpp::rseq_t(p.get(), b.size()));
        });
    }
};

// splits a byte string into chunks
inline std::vector<ref::Bytes> split(pbt::Src& s, const ref::Bytes& b, int style)
{
    std::vector<ref::Bytes> r;
    size_t i = 0;
    if(style == 0) { if(!b.empty()) r.push_back(b); return r; }
    while(i < b.size())
    {
        size_t n = 1;
        if(style == 2) n = (size_t)s.range(1, 9);
        else if(style == 3) n = (size_t)s.range(1, 300);
        n = std::min(n, b.size() - i);
        r.push_back(ref::Bytes(b.begin() + i, b.begin() + i + n));
        i += n;
    }
    return r;
}
