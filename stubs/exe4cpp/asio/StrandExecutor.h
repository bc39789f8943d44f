#pragma once
#include <future>
#include <memory>
#include "asio.hpp"
#include "exe4cpp/IExecutor.h"

namespace exe4cpp {

class AsioTimer final : public ITimer
{
public:
    explicit AsioTimer(asio::io_service& io) : m_impl(io) {}
    static std::shared_ptr<AsioTimer> create(asio::io_service& io) { return std::make_shared<AsioTimer>(io); }
    void cancel() override { m_impl.cancel(); }
    steady_time_t expires_at() override { return m_impl.expires_at(); }
    asio::basic_waitable_timer<steady_clock_t> m_impl;
};

class StrandExecutor final : public IExecutor, public std::enable_shared_from_this<StrandExecutor>
{
public:
    StrandExecutor(const std::shared_ptr<asio::io_service>& io_service) : m_io_service(io_service), m_strand(*io_service) {}
    static std::shared_ptr<StrandExecutor> create(const std::shared_ptr<asio::io_service>& io_service)
    {
        return std::make_shared<StrandExecutor>(io_service);
    }
    std::shared_ptr<StrandExecutor> fork() { return create(m_io_service); }

    Timer start(const duration_t& duration, const action_t& action) override
    {
        return start(get_time() + duration, action);
    }
    Timer start(const steady_time_t& expiration, const action_t& action) override
    {
        const auto timer = AsioTimer::create(*m_io_service);
        timer->m_impl.expires_at(expiration);
        // hold a reference to the timer and to this executor until the handler has run
        auto self = shared_from_this();
        auto callback = [timer, action, self](const std::error_code& ec) { if(!ec) action(); };
        timer->m_impl.async_wait(m_strand.wrap(callback));
        return Timer(timer);
    }
    void post(const action_t& action) override
    {
        auto self = shared_from_this();
        auto callback = [action, self]() { action(); };
        m_strand.post(callback);
    }
    steady_time_t get_time() override { return steady_clock_t::now(); }

    template <typename handler_t> auto wrap(const handler_t& handler) { return m_strand.wrap(handler); }
    template <typename handler_t> void dispatch(const handler_t& handler) { m_strand.dispatch(handler); }

    template <class T> T return_from(const std::function<T()>& action)
    {
        if(m_strand.running_in_this_thread()) return action();
        std::promise<T> ready;
        auto future = ready.get_future();
        post([&]() { ready.set_value(action()); });
        return future.get();
    }
    void block_until(const std::function<void()>& action)
    {
        if(m_strand.running_in_this_thread()) { action(); return; }
        std::promise<bool> ready;
        auto future = ready.get_future();
        post([&]() { action(); ready.set_value(true); });
        future.get();
    }
    void block_until_and_flush(const action_t& action) { block_until(action); block_until([]() {}); }

    std::shared_ptr<asio::io_service> get_context() const { return m_io_service; }
    std::shared_ptr<asio::io_service> get_service() const { return m_io_service; }

private:
    std::shared_ptr<asio::io_service> m_io_service;
    asio::io_service::strand m_strand;
};

} // namespace exe4cpp
