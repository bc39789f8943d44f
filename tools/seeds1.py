S = []
def seed(id, property, needs, breaks, edits, demo, flags=""):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
M = "lib/src/messages/"
C = "lib/src/client/"
V = "lib/src/server/channel/"

seed("s01-max-pdu", "C01", "a frame of the maximum size (a request writing 123 registers or 1961 to 1968 coils)",
     "the length cap is compared with the length including the unit identifier, so the header of maximum-size frames is one too small and the last byte is missing",
     [(M + "mbap/MbapMessage.cpp", "    if(length > 253)\n    {\n        length = 253;\n    }", "    if(length + 1 > 252)\n    {\n        length = 251;\n    }")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    for(size_t n : {1, 100, 122, 123})
    {
        WriteMultipleRegistersRequest r; r.starting_address = 7;
        for(size_t i = 0; i < n; ++i) r.values.push_back((uint16_t)(i * 3));
        s->send_request(r, [](const Expected<WriteMultipleRegistersResponse>&) {});
        c.exec->run();
        const Bytes f = c.conn->sent.back();
        CHECK(f.size() == 13 + 2 * n);
        CHECK((size_t)(f[4] << 8 | f[5]) == 7 + 2 * n);
        CHECK(f[f.size() - 1] == (uint8_t)((n - 1) * 3));
        c.reply({0x10, 0, 7, 0, (uint8_t)n});
    }
}
''')

seed("s02-trailing-bytes", "C02", "a write-registers request with more bytes than its byte count says",
     "bytes behind the data announced by the byte count are taken for further registers",
     [(M + "WriteMultipleRegistersRequestImpl.cpp", "    if(byte_count != view.length())", "    if(byte_count > view.length())")],
     r'''
#include "messages/WriteMultipleRegistersRequestImpl.h"
int main()
{
    const Bytes ok{0x10, 0, 1, 0, 2, 4, 0, 1, 0, 2};
    CHECK(WriteMultipleRegistersRequestImpl::parse(seq(ok)).is_valid());
    for(int extra = 1; extra < 5; ++extra)
    {
        Bytes b = ok;
        for(int i = 0; i < extra; ++i) b.push_back(9);
        CHECK(!WriteMultipleRegistersRequestImpl::parse(seq(b)).is_valid());
    }
}
''')

seed("s03-bits-256", "C03", "a read of 256 or more coils or discrete inputs (such that a multiple of 256 is left at some byte)",
     "the number of bits left is kept in eight bits, so in long responses whole bytes are skipped or cut and all later values are lost",
     [(M + "ReadBitsResponseImpl.cpp", "        auto num_bits_to_extract = req.get_request().qty_of_bits - response.values.size();", "        auto num_bits_to_extract = static_cast<uint8_t>(req.get_request().qty_of_bits - response.values.size());")],
     r'''
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
int main()
{
    for(unsigned n : {1u, 8u, 255u, 256u, 300u, 2000u})
    {
        ReadCoilsRequest r; r.starting_address = 10; r.qty_of_bits = (uint16_t)n;
        Bytes b{0x01, (uint8_t)((n + 7) / 8)};
        for(unsigned i = 0; i < (n + 7) / 8; ++i) b.push_back((uint8_t)(i * 37 + 5));
        auto e = ReadCoilsResponseImpl::parse(ReadCoilsRequestImpl{r}, seq(b));
        CHECK(e.is_valid());
        CHECK(e.get().values.size() == n);
        for(unsigned i = 0; i < n; ++i)
        {
            CHECK(e.get().values[i].address == 10 + i);
            CHECK(e.get().values[i].value == (((b[2 + i / 8] >> (i % 8)) & 1) != 0));
        }
    }
}
''')

seed("s04-exception-function", "C04", "an exception response for a function other than the requested one",
     "an exception PDU of any function whose low bits contain the requested function is taken for the answer",
     [(M + "IMessage.cpp", "    if((read_function_code & 0x7F) != function_code)", "    if((read_function_code & function_code) != function_code)")],
     r'''
#include "messages/ReadCoilsRequestImpl.h"
#include "messages/ReadCoilsResponseImpl.h"
int main()
{
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 8;
    ReadCoilsRequestImpl q{r};
    CHECK(ReadCoilsResponseImpl::parse(q, seq({0x81, 0x02})).has_exception<ModbusException>());
    for(int f = 0; f < 256; ++f)
    {
        if(f == 0x81) continue;
        auto e = ReadCoilsResponseImpl::parse(q, seq({(uint8_t)f, 0x02}));
        CHECK(!e.is_valid());
        CHECK(e.has_exception<MalformedModbusResponseException>());
    }
}
''')

seed("s05-code-range", "C05", "an exception code between the standard ones",
     "codes are converted by their range, so the reserved codes 7 and 9 are turned into exceptions nobody raised",
     [(M + "ExceptionType.cpp", "        default:\n            return ExceptionType::Unknown;", "        default:\n            return data > 0x00 && data < 0x0C ? static_cast<ExceptionType>(data) : ExceptionType::Unknown;")],
     r'''
int main()
{
    for(int i = 0; i < 256; ++i)
    {
        const bool known = (i >= 1 && i <= 6) || i == 8 || i == 10 || i == 11;
        const auto e = parse_exception_type((uint8_t)i);
        CHECK(known == (e != ExceptionType::Unknown));
        if(known) CHECK((int)e == i);
    }
}
''')

seed("s06-foreign-protocol", "C06", "a frame of another protocol followed by a Modbus frame on the same connection",
     "the parser starts over right behind the header of a frame of another protocol instead of skipping its body, which is then parsed as headers",
     [(M + "mbap/MbapParser.cpp", "    uint16_t length;\n    ser4cpp::UInt16::read_from(view, length);\n\n    if(length == 0)", "    uint16_t length;\n    ser4cpp::UInt16::read_from(view, length);\n\n    if(length == 0 || m_buffer.as_seq()[2] != 0)")],
     r'''
#include "messages/mbap/IMbapSink.h"
#include "messages/mbap/MbapParser.h"
struct Sink : IMbapSink { int n = 0; Bytes tids; void on_mbap_message(const MbapMessage& m) override { ++n; tids.push_back((uint8_t)m.transaction_id.get_value()); } };
int main()
{
    for(uint16_t protocol : {1, 0x00FF, 0x0100, 0x1234})
    {
        Sink s;
        MbapParser p{&s};
        p.parse(seq(frame(1, 1, {3, 0, 0, 0, 1})));
        p.parse(seq(frame(2, 1, {3, 0, 0, 0, 1}, protocol)));
        p.parse(seq(frame(3, 1, {3, 0, 0, 0, 1})));
        p.parse(seq(frame(4, 1, {3, 0, 0, 0, 1})));
        CHECK((s.tids == Bytes{1, 3, 4}));
    }
}
''')

seed("s07-session-cache", "C07", "a session replaced after its unit was used, with no other unit used in between",
     "the session of the last message is remembered and not forgotten when the unit's session is replaced, so the old one goes on being asked",
     [(V + "ServerChannelTcp.cpp", "    auto it = m_sessions.find(message.unit_id);\n    if(it != m_sessions.end())\n    {", "    // Most of the messages are for the unit of the previous one\n    if(!m_last_session || m_last_unit != message.unit_id)\n    {\n        auto it = m_sessions.find(message.unit_id);\n        m_last_session = it != m_sessions.end() ? it->second : nullptr;\n        m_last_unit = message.unit_id;\n    }\n    auto it = &m_last_session;\n    struct Found { std::shared_ptr<IServerSession> second; } found{m_last_session};\n    auto session_found = &found;\n    if(*it)\n    {"),
      ] , "", "")
S.pop()
seed("s07-session-cache", "C07", "a session replaced after its unit was used, with no other unit used in between",
     "the session of the last message is remembered and not forgotten when the unit's session is replaced, so the old one goes on being asked",
     [(V + "ServerChannelTcp.cpp", "    auto it = m_sessions.find(message.unit_id);", "    // Most messages are for the unit of the previous one\n    if(!m_last_session.second || m_last_session.first != message.unit_id)\n    {\n        auto found = m_sessions.find(message.unit_id);\n        m_last_session = {message.unit_id, found != m_sessions.end() ? found->second : nullptr};\n    }\n    auto it = m_last_session.second ? &m_last_session : nullptr;"),
      (V + "ServerChannelTcp.cpp", "    if(it != m_sessions.end())\n    {\n        auto view", "    if(it)\n    {\n        auto view"),
      (V + "ServerChannelTcp.cpp", "        m_sessions.clear();", "        m_sessions.clear();\n        m_last_session.second = nullptr;"),
      (V + "ServerChannelTcp.h", "    std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;", "    std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;\n    std::pair<UnitIdentifier, std::shared_ptr<IServerSession>> m_last_session{UnitIdentifier{0}, nullptr};")],
     r'''
int main()
{
    Server s;
    auto a = std::make_shared<InMemoryDatabase>(), b = std::make_shared<InMemoryDatabase>();
    a->add_holding_register(5, 111);
    b->add_holding_register(5, 222);
    auto link = s.connect();
    auto ask = [&] { link.listener->on_receive(seq(frame(9, 1, {3, 0, 5, 0, 1}))); s.exec->run(); return link.conn->sent.empty() ? Bytes{} : link.conn->sent.back(); };
    s.channel->add_session(UnitIdentifier{1}, a); s.exec->run();
    CHECK((ask() == frame(9, 1, {3, 2, 0, 111})));
    s.channel->add_session(UnitIdentifier{1}, b); s.exec->run();
    CHECK((ask() == frame(9, 1, {3, 2, 0, 222})));
}
''')

seed("s08-shared-buffer", "C08", "frames of two connections that arrive in parts which alternate",
     "the buffer that holds a frame until it is complete is shared by all connections",
     [(M + "mbap/MbapParser.h", "    ser4cpp::StaticBuffer<MaxMbapSize> m_buffer;", "    // All frames are processed before the next ones are read\n    static inline ser4cpp::StaticBuffer<MaxMbapSize> m_buffer;")],
     r'''
int main()
{
    Server s;
    auto db = std::make_shared<InMemoryDatabase>();
    for(int i = 0; i < 100; ++i) db->add_holding_register((Address)i, (uint16_t)(i * 10));
    s.channel->add_session(UnitIdentifier{1}, db); s.exec->run();
    auto a = s.connect(), b = s.connect();
    const Bytes fa = frame(1, 1, {3, 0, 5, 0, 1}), fb = frame(2, 1, {3, 0, 6, 0, 1});
    for(size_t i = 0; i < fa.size(); ++i)
    {
        a.listener->on_receive(seq({fa[i]}));
        b.listener->on_receive(seq({fb[i]}));
    }
    s.exec->run();
    CHECK(a.conn->sent.size() == 1 && b.conn->sent.size() == 1);
    CHECK((a.conn->sent[0] == frame(1, 1, {3, 2, 0, 50})));
    CHECK((b.conn->sent[0] == frame(2, 1, {3, 2, 0, 60})));
}
''')

seed("s09-address-end", "C09", "a write of several coils whose range runs to or past address 65535",
     "the range check of coil writes wraps around, so a write past the end of the address space is not refused but changes points at its start",
     [("lib/src/server/db/SingleTypeDatabase.cpp", "    while(static_cast<size_t>(current_address - starting_address + 1) < count && it != m_values.end())\n    {\n        if(it->first != current_address + 1)", "    while(static_cast<size_t>(static_cast<Address>(current_address - starting_address) + 1) < count)\n    {\n        if(it == m_values.end())\n        {\n            it = m_values.begin();\n        }\n\n        if(it->first != static_cast<Address>(current_address + 1))"),
      ("lib/src/server/db/SingleTypeDatabase.cpp", "    return static_cast<size_t>(current_address - starting_address + 1) == count;", "    return static_cast<size_t>(static_cast<Address>(current_address - starting_address) + 1) == count;"),
      ("lib/src/server/db/SingleTypeDatabase.cpp", "        it->second = values[i];\n        ++it;", "        m_values.find(static_cast<Address>(starting_address + i))->second = values[i];"),
      ("lib/src/server/db/SingleTypeDatabase.cpp", "    auto it = m_values.find(starting_address);\n    for(size_t i = 0; i < values.size(); ++i)", "    for(size_t i = 0; i < values.size(); ++i)"),
      ("lib/src/server/db/SingleTypeDatabase.cpp", "        output[i] = it->second;\n        ++it;", "        output[i] = m_values.find(static_cast<Address>(starting_address + i))->second;"),
      ("lib/src/server/db/SingleTypeDatabase.cpp", "    auto it = m_values.find(starting_address);\n    for(size_t i = 0; i < output.size(); ++i)", "    for(size_t i = 0; i < output.size(); ++i)")],
     r'''
int main()
{
    InMemoryDatabase db;
    IServerSession& s = db;
    for(int i = 65530; i < 65536; ++i) db.add_coil((Address)i, false);
    for(int i = 0; i < 5; ++i) db.add_coil((Address)i, false);
    WriteMultipleCoilsRequest w; w.starting_address = 65533; w.values = {true, true, true};
    CHECK(s.on_request(w).is_valid());
    w.values = {true, true, true, true};
    auto e = s.on_request(w);
    CHECK(!e.is_valid());
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 5;
    auto v = s.on_request(r);
    CHECK(v.is_valid());
    for(auto& x : v.get().values) CHECK(!x.value);
}
''')

seed("s10-partial-write", "C10", "a write of several points whose range has a hole behind its first points",
     "the range is checked while it is written, so a refused write has changed the points before the hole",
     [("lib/src/server/db/SingleTypeDatabase.cpp", "    // Validate the range\n    if(!is_valid_range(starting_address, values.size()))\n    {\n        return false;\n    }\n\n    // Update the values\n    auto it = m_values.find(starting_address);\n    for(size_t i = 0; i < values.size(); ++i)\n    {", "    if(starting_address + values.size() > 0x10000)\n    {\n        return false;\n    }\n\n    // Update the values\n    auto it = m_values.find(starting_address);\n    for(size_t i = 0; i < values.size(); ++i)\n    {\n        if(it == m_values.end() || it->first != starting_address + i)\n        {\n            return false;\n        }")],
     r'''
#include "modbus/server/db/RegisterDatabase.h"
int main()
{
    RegisterDatabase db;
    for(Address a : {10, 11, 12, 14}) db.add_value(a, a);
    CHECK(db.set_values(10, {1, 2, 3}));
    CHECK(!db.set_values(11, {7, 7, 7, 7}));
    CHECK(!db.set_values(13, {7}));
    uint16_t x = 0;
    CHECK(db.get_value(11, x) && x == 2);
    CHECK(db.get_value(12, x) && x == 3);
    CHECK(db.get_value(14, x) && x == 14);
}
''')

seed("s11-torn-read", "C11", "a transaction between two points of a register read served by another thread",
     "the lock is taken per register while a read request is answered, so the values can be of different transactions",
     [("lib/src/server/db/InMemoryDatabase.cpp", "Expected<ReadHoldingRegistersResponse> InMemoryDatabase::on_request(const ReadHoldingRegistersRequest& request)\n{\n    std::lock_guard<std::mutex> lock{m_mutex};\n\n    std::vector<uint16_t> values(request.qty_of_registers);\n    auto result = m_holding_register_db.get_values(request.starting_address, values);\n    if(!result)",
       "Expected<ReadHoldingRegistersResponse> InMemoryDatabase::on_request(const ReadHoldingRegistersRequest& request)\n{\n    // Long reads do not hold up the transactions\n    std::vector<uint16_t> values(request.qty_of_registers);\n    auto result = true;\n    for(size_t i = 0; i < values.size() && result; ++i)\n    {\n        std::lock_guard<std::mutex> lock{m_mutex};\n        result = request.starting_address + i <= 0xFFFF &&\n                 m_holding_register_db.get_value(static_cast<Address>(request.starting_address + i), values[i]);\n    }\n    if(!result)")],
     r'''
int main()
{
    InMemoryDatabase db;
    IServerSession& s = db;
    for(int i = 0; i < 125; ++i) db.add_holding_register((Address)i, 0);
    std::atomic<bool> stop{false};
    std::thread w([&] { for(uint16_t n = 0; !stop; ++n) db.execute_transaction([&](IDatabase& d) { for(int i = 0; i < 125; ++i) d.set_holding_register((Address)i, n); }); });
    ReadHoldingRegistersRequest r; r.starting_address = 0; r.qty_of_registers = 125;
    const auto end = std::chrono::steady_clock::now() + std::chrono::seconds(3);
    while(std::chrono::steady_clock::now() < end)
    {
        auto e = s.on_request(r);
        CHECK(e.is_valid());
        for(auto& v : e.get().values) CHECK(v.value == e.get().values[0].value);
    }
    stop = true;
    w.join();
}
''')

seed("s12-slot", "C12", "clients that disconnect before the limit of connections is reached, and later ones",
     "a connection the client has closed stays in the list of connections, where it counts and is the first to be dropped later: the server ends up holding fewer connections than it may",
     [(V + "AsioServer.cpp", "        (*it)->close();\n        m_connections.erase(it);\n        --m_num_connections;", "        (*it)->close();\n        m_connections.erase(it);\n        if(m_num_connections > m_max_connections) --m_num_connections;")],
     r'''
int main()
{
    const char* ip = "127.0.0.77";
    const uint16_t port = free_port(ip);
    auto m = manager(1);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port}, 3);
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_holding_register(0, 7);
    s->add_session(UnitIdentifier{1}, db);
    s->start();
    auto ask = [&](int f) { put(f, frame(1, 1, {3, 0, 0, 0, 1})); return get(f, 11, 2000) == frame(1, 1, {3, 2, 0, 7}); };
    for(int i = 0; i < 4; ++i) { int f = dial(ip, port); CHECK(f >= 0 && ask(f)); close(f); std::this_thread::sleep_for(ms(50)); }
    int a = dial(ip, port), b = dial(ip, port), c = dial(ip, port);
    CHECK(ask(a));
    CHECK(ask(b));
    CHECK(ask(c));
    CHECK(ask(a) && ask(b) && ask(c));
}
''')

seed("s14-queue-limit", "C14", "more than a thousand requests waiting on one channel",
     "requests beyond a limit of waiting ones are dropped without their handler being called",
     [(C + "channel/ClientChannelTcp.cpp", "            m_pending_requests.push_back(std::move(pending_request));", "            // Do not let a silent server use up the memory\n            if(m_pending_requests.size() >= 1000)\n            {\n                m_logger->warn(\"Too many pending requests. UnitId: {}.\", unit_identifier);\n                return;\n            }\n            m_pending_requests.push_back(std::move(pending_request));")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    const int n = 3000;
    int outcomes = 0;
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    for(int i = 0; i < n; ++i) s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { ++outcomes; });
    c.exec->run();
    c.error();
    CHECK(outcomes == n);
}
''')

seed("s15-next-first", "C15", "a response handler that observes the wire, with another request waiting",
     "the next request is transmitted before the handler of the answered one is called",
     [(C + "channel/ClientChannelTcp.cpp", "            m_current_request->response_handler(Expected<ser4cpp::rseq_t>{message.data});\n            m_current_request.reset(nullptr);\n\n            check_pending_requests();", "            // Do not keep the line idle while the response is being handled\n            auto request = std::move(m_current_request);\n            check_pending_requests();\n            request->response_handler(Expected<ser4cpp::rseq_t>{message.data});")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    std::vector<size_t> sent;
    for(int i = 0; i < 3; ++i) s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { sent.push_back(c.conn->sent.size()); });
    for(int i = 0; i < 3; ++i) c.reply({1, 1, 0});
    CHECK((sent == std::vector<size_t>{1, 2, 3}));
}
''')

seed("s16-short-id", "C16", "a response arriving 256 (or a multiple of it) requests too late",
     "only the low byte of the transaction identifier is compared",
     [(C + "channel/ClientChannelTcp.cpp", "        if(message.transaction_id == m_current_request->transaction_id &&", "        if(static_cast<uint8_t>(message.transaction_id.get_value()) == static_cast<uint8_t>(m_current_request->transaction_id.get_value()) &&")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadHoldingRegistersRequest r; r.starting_address = 0; r.qty_of_registers = 1;
    int last = -1;
    auto send = [&] { s->send_request(r, [&](const Expected<ReadHoldingRegistersResponse>& e) { last = e.is_valid() ? e.get().values[0].value : -2; }); c.exec->run(); };
    send();
    const Bytes first = c.conn->sent.back();
    c.exec->pass(ms(1000));
    CHECK(last == -2);
    for(int i = 0; i < 255; ++i) { send(); c.reply({3, 2, 0, 1}); CHECK(last == 1); }
    send();
    last = -1;
    c.receive(frame((uint16_t)(first[0] << 8 | first[1]), 1, {3, 2, 0, 99}));
    CHECK(last == -1);
    c.reply({3, 2, 0, 5});
    CHECK(last == 5);
}
''')

seed("s17-from-issue", "C17", "a request that waits for another one for a good part of its timeout",
     "the time a request has waited for its turn is deducted from its timeout",
     [(C + "channel/PendingRequest.h", "response_handler(std::move(response_handler))", "response_handler(std::move(response_handler)),\n          issued{std::chrono::steady_clock::now()}")],
     "")
S.pop()

seed("s18-last-address", "C18", "a write of several registers that ends at address 65535",
     "requests whose range ends at the last address are refused as invalid",
     [(M + "WriteMultipleRegistersRequestImpl.cpp", "           m_request.values.size() <= m_request.max_registers;", "           m_request.values.size() <= m_request.max_registers &&\n           m_request.starting_address + m_request.values.size() <= 0xFFFF;")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    WriteMultipleRegistersRequest r; r.starting_address = 65533; r.values = {1, 2, 3};
    bool ok = false;
    s->send_request(r, [&](const Expected<WriteMultipleRegistersResponse>& e) { ok = e.is_valid(); });
    c.exec->run();
    CHECK(c.conn->sent.size() == 1);
    c.reply({0x10, 0xFF, 0xFD, 0, 3});
    CHECK(ok);
}
''')

seed("s19-drift", "C19", "an outcome that takes long compared to the polling period",
     "the period is counted from the transmission instead of from the outcome",
     [(C + "session/ScheduledRequest.hpp", "    // Send the request\n    m_session->send_request(", "    // Send the request\n    const auto start_time = m_executor->get_time();\n    m_session->send_request("),
      (C + "session/ScheduledRequest.hpp", "            m_timer = m_executor->start(m_frequency, [=, self2 = self]() {", "            m_timer = m_executor->start(start_time + m_frequency.load(), [=, self2 = self]() {")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    auto p = s->schedule_request(r, ms(100), [](const Expected<ReadCoilsResponse>&) {});
    c.exec->run();
    CHECK(c.conn->sent.size() == 1);
    c.exec->pass(ms(80));
    c.reply({1, 1, 0});
    c.exec->pass(ms(60));
    CHECK(c.conn->sent.size() == 1);
    c.exec->pass(ms(60));
    CHECK(c.conn->sent.size() == 2);
}
''')

seed("s20-error-order", "C20", "a connection error with a request outstanding and others waiting",
     "the outstanding request is ended first, which transmits the next waiting one on the lost connection's successor instead of ending it with the error",
     [(C + "channel/ClientChannelTcp.cpp", "    cancel_all_pending_requests(message);\n\n    if(m_current_request)\n    {\n        m_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));\n        cancel_current_request();\n    }\n}", "    if(m_current_request)\n    {\n        m_current_request->response_handler(Expected<ser4cpp::rseq_t>::from_exception(ConnectionException{message}));\n        cancel_current_request();\n    }\n\n    cancel_all_pending_requests(message);\n}")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int errors = 0, others = 0;
    for(int i = 0; i < 3; ++i) s->send_request(r, [&](const Expected<ReadCoilsResponse>& e) { if(e.has_exception<ConnectionException>()) ++errors; else ++others; });
    c.exec->run();
    c.error();
    CHECK(errors == 3 && others == 0);
    CHECK(c.conn->sent.size() == 1);
}
''')

seed("s21-no-strand", "C21", "two clients of one server whose manager has two threads",
     "reads of a server connection complete outside of the server's strand, so requests of several connections are processed at the same time",
     [(V + "AsioServerTcpConnection.cpp", "                                    m_executor->wrap(std::bind(&AsioServerTcpConnection::read_handler,\n                                                               std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),\n                                                               _1, _2)));", "                                    std::bind(&AsioServerTcpConnection::read_handler,\n                                                               std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),\n                                                               _1, _2));")],
     r'''
struct Slow : InMemoryDatabase
{
    std::atomic<int> in{0};
    bool overlapped = false;
    Expected<ReadHoldingRegistersResponse> on_request(const ReadHoldingRegistersRequest& r) override
    {
        if(++in > 1) overlapped = true;
        std::this_thread::sleep_for(ms(100));
        --in;
        return InMemoryDatabase::on_request(r);
    }
};
int main()
{
    const char* ip = "127.0.0.78";
    const uint16_t port = free_port(ip);
    auto m = manager(4);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port});
    auto db = std::make_shared<Slow>();
    db->add_holding_register(0, 7);
    s->add_session(UnitIdentifier{1}, db);
    s->start();
    int a = dial(ip, port), b = dial(ip, port);
    for(int i = 0; i < 5; ++i)
    {
        put(a, frame(1, 1, {3, 0, 0, 0, 1}));
        put(b, frame(1, 1, {3, 0, 0, 0, 1}));
        CHECK(get(a, 11).size() == 11 && get(b, 11).size() == 11);
    }
    CHECK(!db->overlapped);
}
''')

seed("s22-full-server", "C22", "a server that holds as many connections as it may when it is shut down",
     "a server that is full keeps its listening socket open when it is shut down, on the assumption that it does not accept at that moment",
     [(V + "AsioServer.cpp", "        m_tcp_acceptor.close();\n", "        // A full server is not accepting\n        if(m_num_connections < m_max_connections)\n        {\n            m_tcp_acceptor.close();\n        }\n")],
     r'''
int main()
{
    const char* ip = "127.0.0.79";
    const uint16_t port = free_port(ip);
    for(int clients = 0; clients < 3; ++clients)
    {
        auto m = manager(2);
        auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{ip, port}, 2);
        auto db = std::make_shared<InMemoryDatabase>();
        db->add_holding_register(0, 7);
        s->add_session(UnitIdentifier{1}, db);
        s->start();
        std::vector<int> fds;
        for(int i = 0; i < clients; ++i)
        {
            fds.push_back(dial(ip, port));
            put(fds.back(), frame(1, 1, {3, 0, 0, 0, 1}));
            CHECK(get(fds.back(), 11).size() == 11);
        }
        s->shutdown();
        CHECK(wait_for([&] { int f = dial(ip, port); if(f >= 0) ::close(f); return f < 0; }));
        for(int f : fds) CHECK(closed(f));
        std::atomic<bool> gone{false};
        std::thread t([&] { s.reset(); m.reset(); gone = true; });
        CHECK(wait_for([&] { return gone.load(); }, 5000));
        t.join();
        for(int f : fds) ::close(f);
    }
}
''')

seed("s23-lost-start", "C23", "a poll started by one thread while its stop by another thread is still on its way",
     "start returns early when the poll looks running, although a stop called before it has not been processed yet",
     [(C + "session/ScheduledRequest.hpp", "void ScheduledRequest<TRequest, TResponse>::start()\n{\n", "void ScheduledRequest<TRequest, TResponse>::start()\n{\n    if(m_running) return;\n\n")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    auto p = s->schedule_request(r, ms(100), [](const Expected<ReadCoilsResponse>&) {});
    c.exec->run();
    CHECK(p->is_running());
    p->stop();
    p->start();
    c.exec->run();
    CHECK(p->is_running());
}
''')

seed("s24-expiration", "C24", "a timer started for a point in time, on a real executor",
     "a timer for a point in time is started with the time that is left, so it expires later than the time asked for and reports another one",
     [(C + "session/ClientSessionImpl.cpp", "    return std::make_unique<TimerWrapper>(this->m_executor->start(expiration, action));", "    return start(expiration - this->m_executor->get_time(), action);")],
     r'''
int main()
{
    auto m = manager(1);
    auto c = m->create_client_tcp_channel("c", Ipv4Endpoint{"127.0.0.1", 1});
    auto s = c->create_session(UnitIdentifier{1}, ms(1000));
    for(int i = 0; i < 50; ++i)
    {
        const auto when = std::chrono::steady_clock::now() + std::chrono::hours(1) + std::chrono::microseconds(i * 17);
        auto t = s->start(when, [] {});
        const bool same = t->expires_at() == when;
        t->cancel();
        CHECK(same);
    }
}
''')

seed("s25-any-address", "C25", "a client connecting to another address of the server's host",
     "the server listens on all addresses of the host",
     [(V + "AsioServer.cpp", "        asio::ip::tcp::endpoint{asio::ip::address::from_string(endpoint.get_hostname()), static_cast<unsigned short>(endpoint.get_port())}},", "        asio::ip::tcp::endpoint{asio::ip::tcp::v4(), static_cast<unsigned short>(endpoint.get_port())}},")],
     r'''
int main()
{
    const uint16_t port = free_port("0.0.0.0");
    auto m = manager(1);
    auto s = m->create_server_tcp_channel("s", Ipv4Endpoint{"127.0.0.80", port});
    s->start();
    int a = dial("127.0.0.80", port);
    CHECK(a >= 0);
    int b = dial("127.0.0.81", port);
    CHECK(b < 0);
}
''')

seed("s26-lvalue-error", "C26", "an error given as an exception_ptr variable instead of a temporary one",
     "an exception_ptr that is not a temporary is wrapped as the error itself instead of the error it points to",
     [("lib/include/modbus/Expected.h", "    static Expected<T> from_exception(std::exception_ptr exception)", "    static Expected<T> from_exception(std::exception_ptr&& exception)")],
     r'''
int main()
{
    std::exception_ptr p = std::make_exception_ptr(std::out_of_range("x"));
    auto e = Expected<int>::from_exception(p);
    CHECK(!e.is_valid());
    CHECK(e.has_exception<std::out_of_range>());
    CHECK(e.has_exception<std::logic_error>());
    const std::exception_ptr k = p;
    CHECK(Expected<int>::from_exception(k).has_exception<std::out_of_range>());
}
''')

seed("s27-endpoint-port", "C27", "two endpoints with the same host whose ports differ by a multiple of 65536, or an unusual port",
     "ports are compared in sixteen bits",
     [("lib/src/Ipv4Endpoint.cpp", "m_port == other.m_port", "static_cast<uint16_t>(m_port) == static_cast<uint16_t>(other.m_port)")],
     r'''
int main()
{
    const Ipv4Endpoint a{"h", 502}, b{"h", 502 + 65536};
    CHECK(a.get_port() != b.get_port());
    CHECK(!(a == b));
    CHECK(a != b);
    CHECK((a == Ipv4Endpoint{"h", 502}));
}
''')

seed("s28-level-of-parent", "C28", "a logger with a level above that of the channel cloned from it",
     "a child logger is never more talkative than its parent, whatever level it is given",
     [("lib/src/logging/Logger.h", "        spd_logger->set_level(to_spdlog_level(level));", "        spd_logger->set_level(std::max(to_spdlog_level(level), m_logger_impl->level()));")],
     r'''
#include "spdlog/sinks/ostream_sink.h"
#include <sstream>
int main()
{
    std::ostringstream o;
    auto sink = std::make_shared<spdlog::sinks::ostream_sink_mt>(o);
    auto parent = LoggerFactory::create_custom_logger(std::make_shared<spdlog::logger>("p", sink), LoggingLevel::Error);
    auto child = parent->clone("child", LoggingLevel::Debug);
    child->debug("hello-debug");
    child->trace("hello-trace");
    parent->info("hello-parent");
    CHECK(o.str().find("hello-debug") != std::string::npos);
    CHECK(o.str().find("hello-trace") == std::string::npos);
    CHECK(o.str().find("hello-parent") == std::string::npos);
}
''')
SEEDS = S
