S = []
def seed(id, property, needs, breaks, edits, demo, flags=""):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
M = "lib/src/messages/"
C = "lib/src/client/"
V = "lib/src/server/channel/"

seed("t05-acknowledge", "C05", "the Acknowledge exception, on one of the eight functions",
     "an Acknowledge (code 5) is taken for a notice that the response is still to come and is not handed on",
     [(C + "channel/ClientChannelTcp.cpp", "        if(message.transaction_id == m_current_request->transaction_id &&", "        if(!(message.data.length() == 2 && message.data[0] > 0x80 && message.data[1] == 0x05) &&\n           message.transaction_id == m_current_request->transaction_id &&")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    for(int code : {1, 2, 3, 4, 5, 6, 8, 10, 11})
    {
        int got = -1;
        s->send_request(r, [&](const Expected<ReadCoilsResponse>& e) { got = e.has_exception<ModbusException>() ? (int)e.get_exception<ModbusException>().get_exception_type() : -2; });
        c.reply({0x81, (uint8_t)code});
        CHECK(got == code);
    }
}
''')

seed("t07-high-function", "C07", "a request with a function code of 0x80 or more",
     "the exception bit is added instead of set, so function codes that have it already are answered with a wrong function code",
     [(M + "ExceptionResponse.cpp", "m_function_code | 0x80", "m_function_code + 0x80")],
     r'''
int main()
{
    Server s;
    s.channel->add_session(UnitIdentifier{1}, std::make_shared<InMemoryDatabase>());
    s.exec->run();
    auto l = s.connect();
    for(int f = 0; f < 256; ++f)
    {
        if((f >= 1 && f <= 6) || f == 15 || f == 16) continue;
        l.listener->on_receive(seq(frame(9, 1, {(uint8_t)f, 1, 2})));
        s.exec->run();
        CHECK(l.conn->sent.back() == frame(9, 1, {(uint8_t)(f | 0x80), 1}));
    }
}
''')

seed("t07-only-unit", "C07", "a request for unit 255 to a server that has a single session, registered for another unit",
     "requests for unit 255 are served by the only session of the server",
     [(V + "ServerChannelTcp.cpp", "    auto it = m_sessions.find(message.unit_id);\n", "    auto it = m_sessions.find(message.unit_id);\n    if(it == m_sessions.end() && message.unit_id == UnitIdentifier{0xFF} && m_sessions.size() == 1)\n    {\n        // The unit identifier is of no significance for a device that is not a gateway\n        it = m_sessions.begin();\n    }\n")],
     r'''
int main()
{
    Server s;
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s.channel->add_session(UnitIdentifier{1}, db);
    s.exec->run();
    auto l = s.connect();
    for(int u = 0; u < 256; ++u)
    {
        l.conn->sent.clear();
        l.listener->on_receive(seq(frame(9, (uint8_t)u, {3, 0, 0, 0, 1})));
        s.exec->run();
        CHECK(l.conn->sent.size() == (u == 1 ? 1u : 0u));
    }
}
''')

seed("t08-stale-error", "C08", "a client that disconnects in the middle of a frame while others are connected",
     "the partial frame is kept per server rather than per connection",
     [(V + "ServerConnectionListener.cpp", "    m_parser.parse(data);", "    // Frames are handled as soon as they are complete\n    static thread_local uint8_t rest[520];\n    static thread_local size_t num_rest = 0;\n    const uint8_t* bytes = data;\n    if(num_rest + data.length() < 7)\n    {\n        std::copy(bytes, bytes + data.length(), rest + num_rest);\n        num_rest += data.length();\n        return;\n    }\n    m_parser.parse(ser4cpp::rseq_t{rest, (unsigned int)num_rest});\n    num_rest = 0;\n    m_parser.parse(data);")],
     r'''
int main()
{
    Server s;
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s.channel->add_session(UnitIdentifier{1}, db);
    s.exec->run();
    auto a = s.connect(), b = s.connect();
    a.listener->on_receive(seq({0, 1, 0}));
    b.listener->on_receive(seq(frame(9, 1, {3, 0, 0, 0, 1})));
    s.exec->run();
    CHECK(b.conn->sent.size() == 1 && b.conn->sent[0] == frame(9, 1, {3, 2, 0, 7}));
    CHECK(a.conn->sent.empty());
}
''')

seed("t09-quick-write", "C09", "a request that writes several coils of which all already exist except one behind address 65535",
     "a write of several coils that runs past address 65535 goes on at address 0",
     [("lib/src/server/db/InMemoryDatabase.cpp", "    auto result = m_coil_db.set_values(request.starting_address, request.values);\n", "    auto result = true;\n    for(size_t i = 0; i < request.values.size(); ++i)\n    {\n        result = result && m_coil_db.is_valid(static_cast<Address>(request.starting_address + i));\n    }\n    for(size_t i = 0; result && i < request.values.size(); ++i)\n    {\n        m_coil_db.set_value(static_cast<Address>(request.starting_address + i), request.values[i]);\n    }\n")],
     r'''
int main()
{
    InMemoryDatabase db;
    IServerSession& s = db;
    for(int a : {0, 1, 65534, 65535}) db.add_coil((Address)a, false);
    WriteMultipleCoilsRequest w; w.starting_address = 65534; w.values = {true, true};
    CHECK(s.on_request(w).is_valid());
    w.values = {true, true, true};
    CHECK(s.on_request(w).has_exception<ModbusException>());
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    CHECK(!s.on_request(r).get().values[0].value);
}
''')

seed("t10-count-bits", "C10", "a range query for 65536 or more points",
     "the number of points of a range is kept in sixteen bits",
     [("lib/src/server/db/SingleTypeDatabase.cpp", "    return static_cast<size_t>(current_address - starting_address + 1) == count;", "    return static_cast<Address>(current_address - starting_address + 1) == static_cast<Address>(count);")],
     r'''
#include "modbus/server/db/RegisterDatabase.h"
int main()
{
    RegisterDatabase db;
    for(int a = 100; a < 110; ++a) db.add_value((Address)a, 1);
    CHECK(db.is_valid_range(100, 10));
    CHECK(!db.is_valid_range(100, 11));
    CHECK(!db.is_valid_range(100, 65536 + 10));
    CHECK(!db.is_valid_range(101, 65536 + 9));
}
''')

seed("t11-add-unlocked", "C11", "a point added by one thread while another thread's request is being served",
     "adding an input register does not take the lock",
     [("lib/src/server/db/InMemoryDatabase.cpp", "bool InMemoryDatabase::add_input_register(Address address, uint16_t value)\n{\n    std::lock_guard<std::mutex> lock{m_mutex};\n\n", "bool InMemoryDatabase::add_input_register(Address address, uint16_t value)\n{\n")],
     r'''
int main()
{
    InMemoryDatabase db;
    IServerSession& s = db;
    db.add_input_register(30000, 5);
    std::thread w([&] { for(int i = 0; i < 20000; ++i) db.add_input_register((Address)i, 1); });
    ReadInputRegistersRequest r; r.starting_address = 30000; r.qty_of_registers = 1;
    for(int i = 0; i < 20000; ++i) CHECK(s.on_request(r).is_valid());
    w.join();
}
''', "-fsanitize=thread")

seed("t12-order", "C12", "a client that disconnects, and later more clients than allowed",
     "a removed connection is replaced by the last one in the list, which makes a new connection the oldest",
     [(V + "AsioServer.cpp", "        m_connections.erase(it);\n", "        std::swap(*it, m_connections.back());\n        m_connections.pop_back();\n")],
     r'''
int main()
{
    const char* ip = "127.0.0.82";
    const uint16_t port = free_port(ip);
    auto m = manager(1);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port}, 3);
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s->add_session(UnitIdentifier{1}, db);
    s->start();
    auto ask = [&](int f) { put(f, frame(1, 1, {3, 0, 0, 0, 1})); return get(f, 11, 2000) == frame(1, 1, {3, 2, 0, 7}); };
    int a = dial(ip, port); CHECK(ask(a));
    int b = dial(ip, port); CHECK(ask(b));
    int c = dial(ip, port); CHECK(ask(c));
    close(a);
    std::this_thread::sleep_for(ms(200));
    int d = dial(ip, port); CHECK(ask(d));
    int e = dial(ip, port); CHECK(ask(e));
    CHECK(closed(b));
    CHECK(ask(c) && ask(d) && ask(e));
}
''')

seed("t13-long-chunk", "C13", "more than 260 bytes of requests received at once",
     "of what is received at once, only the size of one frame is processed",
     [(V + "ServerConnectionListener.cpp", "    m_parser.parse(data);", "    m_parser.parse(data.take(260));")],
     r'''
int main()
{
    const char* ip = "127.0.0.83";
    const uint16_t port = free_port(ip);
    auto m = manager(1);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port});
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s->add_session(UnitIdentifier{1}, db);
    s->start();
    int f = dial(ip, port);
    Bytes b, want;
    for(int i = 0; i < 200; ++i) { auto x = frame((uint16_t)i, 1, {3, 0, 0, 0, 1}); b.insert(b.end(), x.begin(), x.end()); auto y = frame((uint16_t)i, 1, {3, 2, 0, 7}); want.insert(want.end(), y.begin(), y.end()); }
    put(f, b);
    CHECK(get(f, want.size(), 2000) == want);
}
''')

seed("t15-skip-zero", "C15", "more than 65535 requests on one channel",
     "transaction identifier 0 is not used again, so the identifiers repeat one request early",
     [(C + "channel/ClientChannelTcp.cpp", "            ++m_next_transaction_id;\n", "            if((++m_next_transaction_id).get_value() == 0) ++m_next_transaction_id;\n")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    std::vector<int> last(65536, -1000000);
    for(int i = 0; i < 140000; ++i)
    {
        s->send_request(r, [](const Expected<ReadCoilsResponse>&) {});
        c.reply({1, 1, 0});
        const Bytes& f = c.conn->sent.back();
        CHECK(i - last[f[0] << 8 | f[1]] >= 65536);
        last[f[0] << 8 | f[1]] = i;
    }
}
''')

seed("t16-any-unit", "C16", "a frame with the awaited transaction identifier and unit 0 or 255",
     "a response with the unit identifiers that devices without gateway use is accepted for any unit",
     [(C + "channel/ClientChannelTcp.cpp", "           message.unit_id == m_current_request->unit_id)", "           (message.unit_id == m_current_request->unit_id || message.unit_id == UnitIdentifier{0xFF}))")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{7}, ms(1000));
    for(int u = 0; u < 256; ++u)
    {
        if(u == 7) continue;
        ReadHoldingRegistersRequest r; r.starting_address = 0; r.qty_of_registers = 1;
        int got = -1;
        s->send_request(r, [&](const Expected<ReadHoldingRegistersResponse>& e) { got = e.is_valid() ? e.get().values[0].value : -2; });
        c.exec->run();
        const Bytes f = c.conn->sent.back();
        c.receive(frame((uint16_t)(f[0] << 8 | f[1]), (uint8_t)u, {3, 2, 0, 99}));
        CHECK(got == -1);
        c.reply({3, 2, 0, 5});
        CHECK(got == 5);
    }
}
''')

seed("t17-long-timeout", "C17", "a timeout of more than an hour",
     "timeouts are limited to an hour",
     [(C + "channel/ClientChannelTcp.cpp", "m_executor->start(m_current_request->timeout, [", "m_executor->start(std::min<duration_t>(m_current_request->timeout, std::chrono::hours(1)), [")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{7}, std::chrono::hours(3));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int outcomes = 0;
    s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { ++outcomes; });
    c.exec->pass(std::chrono::hours(2));
    CHECK(outcomes == 0);
    c.exec->pass(std::chrono::hours(2));
    CHECK(outcomes == 1);
}
''')

seed("t17-whole-ms", "C17", "a timeout with a fraction of a millisecond",
     "timeouts are cut to whole milliseconds",
     [(C + "channel/ClientChannelTcp.cpp", "m_executor->start(m_current_request->timeout, [", "m_executor->start(std::chrono::duration_cast<std::chrono::milliseconds>(m_current_request->timeout), [")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{7}, std::chrono::microseconds(1700));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int outcomes = 0;
    s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { ++outcomes; });
    c.exec->pass(std::chrono::microseconds(1600));
    CHECK(outcomes == 0);
    c.exec->pass(std::chrono::microseconds(200));
    CHECK(outcomes == 1);
}
''')

seed("t18-full-frame", "C18", "a request of the maximum length",
     "requests that fill a frame completely are refused as invalid",
     [(C + "channel/ClientChannelTcp.cpp", "    if(request.is_valid())\n", "    if(request.is_valid() && request.get_message_length() < 252)\n")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{7}, ms(1000));
    for(size_t n : {1, 1960, 1961, 1968})
    {
        WriteMultipleCoilsRequest w; w.starting_address = 0; w.values.assign(n, true);
        bool ok = false;
        s->send_request(w, [&](const Expected<WriteMultipleCoilsResponse>& e) { ok = e.is_valid(); });
        c.exec->run();
        CHECK(!c.conn->sent.empty());
        c.reply({0x0F, 0, 0, (uint8_t)(n >> 8), (uint8_t)n});
        CHECK(ok);
    }
}
''')

seed("t19-backoff", "C19", "a poll whose response is a connection error",
     "after an outcome that is not a response of the server, a poll pauses for two periods",
     [(C + "session/ScheduledRequest.hpp", "            m_timer = m_executor->start(m_frequency, [=, self2 = self]() {", "            const duration_t period = m_frequency;\n            m_timer = m_executor->start(response.is_valid() || !response.template has_exception<TimeoutException>() ? period : 2 * period, [=, self2 = self]() {")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(50));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    auto p = s->schedule_request(r, ms(100), [](const Expected<ReadCoilsResponse>&) {});
    c.exec->run();
    CHECK(c.conn->sent.size() == 1);
    c.exec->pass(ms(60));
    c.exec->pass(ms(95));
    CHECK(c.conn->sent.size() == 2);
}
''')

seed("t20-partial-kept", "C20", "a connection lost in the middle of a response",
     "what was received of a frame when the connection was lost is taken for the beginning of the next connection's first frame",
     [(C + "channel/ClientChannelTcp.cpp", "    m_parser.reset();\n\n    cancel_all", "    cancel_all")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int ok = 0, bad = 0;
    auto send = [&] { s->send_request(r, [&](const Expected<ReadCoilsResponse>& e) { ++(e.is_valid() ? ok : bad); }); c.exec->run(); };
    send();
    c.receive({0, 0, 0, 0, 0, 4, 1});
    c.error();
    CHECK(bad == 1);
    send();
    c.reply({1, 1, 0});
    CHECK(ok == 1);
}
''')

seed("t22-timer-left", "C22", "a client channel shut down while a request with a long timeout is outstanding",
     "the timer of the outstanding request is left running by the shutdown, so destroying the manager waits for the timeout",
     [(C + "channel/ClientChannelTcp.cpp", "        m_current_request.reset(nullptr);\n        m_current_timer.cancel();\n\n        m_tcp", "        m_current_request.reset(nullptr);\n\n        m_tcp")],
     r'''
int main()
{
    const char* ip = "127.0.0.84";
    const uint16_t port = free_port(ip);
    int l = listen_at(ip, port);
    auto m = manager(1);
    auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{ip, port});
    auto s = c->create_session(UnitIdentifier{1}, std::chrono::seconds(20));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    s->send_request(r, [](const Expected<ReadCoilsResponse>&) {});
    int f = take(l);
    CHECK(f >= 0 && get(f, 12).size() == 12);
    std::atomic<bool> gone{false};
    std::thread t([&] { s.reset(); c.reset(); m.reset(); gone = true; });
    CHECK(wait_for([&] { return gone.load(); }, 8000));
    t.join();
}
''')

seed("t23-direct-session", "C23", "a session added while another connection's request is being served",
     "a session is added directly instead of on the strand of the server",
     [(V + "ServerChannelTcp.cpp", "    m_executor->post([=, self=shared_from_this()]() {\n        if(m_is_shutdown) return;\n\n        m_sessions.erase(unit_identifier);\n        m_sessions.insert({unit_identifier, session});\n    });", "    m_sessions.erase(unit_identifier);\n    m_sessions.insert({unit_identifier, session});")],
     r'''
int main()
{
    const char* ip = "127.0.0.85";
    const uint16_t port = free_port(ip);
    auto m = manager(2);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port});
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s->add_session(UnitIdentifier{1}, db);
    s->start();
    int f = dial(ip, port);
    std::atomic<bool> stop{false};
    std::thread t([&] { for(int i = 0; !stop; ++i) { s->add_session(UnitIdentifier{(uint8_t)(2 + i % 200)}, db); std::this_thread::yield(); } });
    for(int i = 0; i < 300; ++i) { put(f, frame(1, 1, {3, 0, 0, 0, 1})); CHECK(get(f, 11) == frame(1, 1, {3, 2, 0, 7})); }
    stop = true;
    t.join();
}
''', "-fsanitize=thread")

seed("t24-handle", "C24", "a timer whose handle is released before it expires",
     "releasing the handle of a timer cancels it",
     [("lib/src/TimerWrapper.h", "    TimerWrapper(exe4cpp::Timer timer_impl);\n", "    TimerWrapper(exe4cpp::Timer timer_impl);\n    ~TimerWrapper() { m_timer_impl.cancel(); }\n")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    int n = 0;
    s->start(duration_t(ms(100)), [&] { ++n; });
    c.exec->pass(ms(200));
    CHECK(n == 1);
}
''')

seed("t25-own-address", "C25", "an adapter address that is also the address of the server",
     "the adapter is ignored when it has the address that is connected to, as the route is the same anyway",
     [("lib/src/ModbusManagerImpl.cpp", "                                                              adapter);", "                                                              adapter == endpoint.get_hostname() ? std::string{} : adapter);")],
     r'''
int main()
{
    const char* ip = "127.0.0.86";
    const uint16_t port = free_port(ip);
    int l = listen_at(ip, port);
    for(const char* adapter : {"127.0.0.87", "127.0.0.86"})
    {
        auto m = manager(1);
        auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{ip, port}, adapter);
        auto s = c->create_session(UnitIdentifier{1}, ms(1000));
        ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
        s->send_request(r, [](const Expected<ReadCoilsResponse>&) {});
        int f = take(l);
        CHECK(f >= 0);
        sockaddr_in a{}; socklen_t n = sizeof a;
        getpeername(f, (sockaddr*)&a, &n);
        CHECK(a.sin_addr.s_addr == addr(adapter, 0).sin_addr.s_addr);
        close(f);
    }
}
''')

seed("t26-base-error", "C26", "an error of a polymorphic type that is asked for by one of its bases",
     "a base of the stored error's type is not recognised when the error is asked for",
     [("lib/include/modbus/Expected.h", "            if(!m_has_value) std::rethrow_exception(m_exception);\n        }\n        catch(const E&)\n        {\n            return true;\n        }", "            if(!m_has_value) std::rethrow_exception(m_exception);\n        }\n        catch(const E& e)\n        {\n            return typeid(e) == typeid(E);\n        }")],
     r'''
int main()
{
    auto e = Expected<int>::from_exception(std::out_of_range("x"));
    CHECK(e.has_exception<std::out_of_range>());
    CHECK(e.has_exception<std::logic_error>());
    CHECK(e.has_exception<std::exception>());
    CHECK(!e.has_exception<std::runtime_error>());
}
''')

seed("t27-host-case", "C27", "endpoints whose host names differ in something the comparison ignores",
     "host names are compared up to the length of the shorter one",
     [("lib/src/Ipv4Endpoint.cpp", "    return m_hostname == other.m_hostname &&", "    return m_hostname.compare(0, other.m_hostname.size(), other.m_hostname) == 0 &&")],
     r'''
int main()
{
    const Ipv4Endpoint a{"host", 502}, b{"host.example", 502};
    CHECK(a != b);
    CHECK(!(b == a));
    CHECK(!(a == b));
    CHECK((a == Ipv4Endpoint{"host", 502}));
}
''')

seed("t28-sink-level", "C28", "two loggers of different levels that have a common parent",
     "the level of a child logger is given to the sinks it shares with the others",
     [("lib/src/logging/Logger.h", "        spd_logger->set_level(to_spdlog_level(level));", "        spd_logger->set_level(to_spdlog_level(level));\n        for(auto& sink : spd_logger->sinks()) sink->set_level(to_spdlog_level(level));"),
      ("lib/src/logging/Logger.h", '#include "spdlog/spdlog.h"\n', '#include "spdlog/spdlog.h"\n#include "spdlog/sinks/sink.h"\n')],
     r'''
#include "spdlog/sinks/ostream_sink.h"
#include <sstream>
int main()
{
    std::ostringstream o;
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(o);
    auto parent = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("p", sink), LoggingLevel::Info);
    auto a = parent->clone("a", LoggingLevel::Debug);
    auto b = parent->clone("b", LoggingLevel::Error);
    a->debug("hello-a");
    b->warn("hello-b");
    parent->info("hello-parent");
    CHECK(o.str().find("hello-a") != std::string::npos);
    CHECK(o.str().find("hello-b") == std::string::npos);
    CHECK(o.str().find("hello-parent") != std::string::npos);
}
''')

seed("t06-reset-body", "C06", "a connection error while the body of a frame is incomplete",
     "a reset in the middle of a body leaves the parser waiting for a body",
     [(M + "mbap/MbapParser.cpp", "    m_num_bytes_to_read = MaxMbapHeaderSize;\n    m_reading_body = false;\n}", "    m_num_bytes_to_read = MaxMbapHeaderSize;\n}"),
      (M + "mbap/MbapParser.cpp", "        m_sink->on_mbap_message(message);\n    }\n\n    reset();", "        m_sink->on_mbap_message(message);\n    }\n\n    reset();\n    m_reading_body = false;"),
      (M + "mbap/MbapParser.cpp", "    : m_sink{sink}\n{\n    reset();", "    : m_sink{sink}\n{\n    reset();\n    m_reading_body = false;")],
     r'''
#include "messages/mbap/MbapParser.h"
#include "messages/mbap/IMbapSink.h"
struct Sink : IMbapSink { int n = 0; void on_mbap_message(const MbapMessage&) override { ++n; } };
int main()
{
    Sink s;
    MbapParser p{&s};
    const Bytes f = frame(1, 1, {3, 0, 0, 0, 1});
    for(size_t i = 0; i < f.size(); ++i)
    {
        Bytes part(f.begin(), f.begin() + i);
        p.parse(seq(part));
        p.reset();
        s.n = 0;
        p.parse(seq(f));
        p.parse(seq(f));
        CHECK(s.n == 2);
    }
}
''')

seed("t04-short-address", "C04", "a response to a request for a coil write with extra bytes behind it",
     "bytes behind the response to a single coil write are ignored",
     [(M + "WriteSingleCoilResponseImpl.cpp", "    if(view.length() != 4)", "    if(view.length() < 4)")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    for(int extra = 0; extra < 4; ++extra)
    {
        WriteSingleCoilRequest w{SingleBitValue{5, true}};
        int got = 0;
        s->send_request(w, [&](const Expected<WriteSingleCoilResponse>& e) { got = e.is_valid() ? 1 : e.has_exception<MalformedModbusResponseException>() ? 2 : 3; });
        Bytes r{5, 0, 5, 0xFF, 0};
        for(int i = 0; i < extra; ++i) r.push_back(0);
        c.reply(r);
        CHECK(got == (extra ? 2 : 1));
    }
}
''')

seed("t02-padding", "C02", "a coil write whose last data byte has bits set beyond the quantity",
     "coils beyond the quantity are decoded from the padding of the last byte",
     [(M + "WriteMultipleCoilsRequestImpl.cpp", "PLACEHOLDER", "PLACEHOLDER")], "")
S.pop()
SEEDS = S
