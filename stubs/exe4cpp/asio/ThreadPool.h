#pragma once
#include <functional>
#include <memory>
#include <thread>
#include <vector>
#include "asio.hpp"
#include "exe4cpp/Typedefs.h"

namespace exe4cpp {

class ThreadPool final
{
public:
    ThreadPool(const std::shared_ptr<asio::io_service>& io_service, uint32_t concurrency)
        : ThreadPool(io_service, concurrency, [](uint32_t) {}, [](uint32_t) {}) {}
    ThreadPool(const std::shared_ptr<asio::io_service>& io_service, uint32_t concurrency,
               std::function<void(uint32_t)> on_thread_start, std::function<void(uint32_t)> on_thread_exit)
        : m_io_service(io_service), m_on_thread_start(on_thread_start), m_on_thread_exit(on_thread_exit), m_infinite_timer(*io_service)
    {
        if(concurrency == 0) concurrency = 1;
        m_infinite_timer.expires_at(steady_time_t::max());
        m_infinite_timer.async_wait([](const std::error_code&) {});
        for(uint32_t i = 0; i < concurrency; ++i)
        {
            m_threads.push_back(std::make_unique<std::thread>([this, i]() { run(i); }));
        }
    }
    ~ThreadPool() { shutdown(); }
    void shutdown()
    {
        if(!m_is_shutdown)
        {
            m_is_shutdown = true;
            m_infinite_timer.cancel();
            for(auto& thread : m_threads) thread->join();
        }
    }
    std::shared_ptr<asio::io_service> get_context() { return m_io_service; }

private:
    void run(uint32_t number)
    {
        m_on_thread_start(number);
        m_io_service->run();
        m_on_thread_exit(number);
    }
    std::shared_ptr<asio::io_service> m_io_service;
    std::function<void(uint32_t)> m_on_thread_start;
    std::function<void(uint32_t)> m_on_thread_exit;
    bool m_is_shutdown = false;
    asio::basic_waitable_timer<steady_clock_t> m_infinite_timer;
    std::vector<std::unique_ptr<std::thread>> m_threads;
};

} // namespace exe4cpp
