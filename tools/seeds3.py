S = []
def seed(id, property, needs, breaks, edits, demo, flags=""):
    S.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, flags=flags))
M = "lib/src/messages/"
C = "lib/src/client/"
V = "lib/src/server/channel/"

seed("u29-queued-timer", "C29", "a long timeout, and another request waiting when a response arrives",
     "the timer of an answered request is not cancelled if another request follows, so timers pile up until they expire",
     [(C + "channel/ClientChannelTcp.cpp", "            m_current_timer.cancel();\n            m_current_request->response_handler", "            if(m_pending_requests.empty())\n            {\n                // The next request replaces the timer\n                m_current_timer.cancel();\n            }\n            m_current_request->response_handler")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, std::chrono::hours(1));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int got = 0;
    for(int i = 0; i < 1000; ++i)
    {
        s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { ++got; });
        s->send_request(r, [&](const Expected<ReadCoilsResponse>&) { ++got; });
        c.reply({1, 1, 0});
        c.reply({1, 1, 0});
    }
    CHECK(got == 2000);
    int waiting = 0;
    for(auto& t : c.exec->timers) waiting += t->state == 0;
    CHECK(waiting < 10);
}
''')

seed("u29-graveyard", "C29", "many connections that come and go while the server runs",
     "connections that were closed are kept until the server is shut down",
     [(V + "AsioServer.cpp", "        m_connections.erase(it);\n", "        // Operations of the connection may still be completing\n        m_closed_connections.splice(m_closed_connections.end(), m_connections, it);\n"),
      (V + "AsioServer.h", "    std::list<std::shared_ptr<AsioServerTcpConnection>> m_connections;", "    std::list<std::shared_ptr<AsioServerTcpConnection>> m_connections, m_closed_connections;")],
     r'''
#include <malloc.h>
int main()
{
    auto m = manager(1);
    const uint16_t port = free_port("127.0.0.1");
    auto srv = m->create_server_tcp_channel("s", Ipv4Endpoint{"127.0.0.1", port}, 2);
    auto db = std::make_shared<InMemoryDatabase>();
    db->add_coil(0, true);
    srv->add_session(UnitIdentifier{1}, db);
    srv->start();
    auto visits = [&](int n) {
        for(int i = 0; i < n; ++i)
        {
            int f = dial("127.0.0.1", port);
            CHECK(f >= 0);
            put(f, frame(1, 1, {1, 0, 0, 0, 1}));
            CHECK(get(f, 10).size() == 10);
            close(f);
        }
        std::this_thread::sleep_for(ms(300));
        return (long)mallinfo2().uordblks;
    };
    visits(50);
    const long before = visits(50), after = visits(300);
    std::printf("%ld bytes more\n", after - before);
    CHECK(after - before < 300000);
    m.reset();
}
''')

seed("u29-unexpected", "C29", "frames that answer no request",
     "responses that answer no request are kept",
     [(C + "channel/ClientChannelTcp.cpp", "        m_logger->warn(\"Received message while not waiting for any response. Ignoring it.\");", "        m_logger->warn(\"Received message while not waiting for any response. Ignoring it.\");\n        m_unexpected_transactions.push_back(message.transaction_id);"),
      (C + "channel/ClientChannelTcp.h", "    TransactionIdentifier m_next_transaction_id;", "    TransactionIdentifier m_next_transaction_id;\n    std::vector<TransactionIdentifier> m_unexpected_transactions;")],
     r'''
#include <malloc.h>
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, std::chrono::hours(1));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    s->send_request(r, [&](const Expected<ReadCoilsResponse>&) {});
    c.reply({1, 1, 0});
    auto flood = [&](int n) { for(int i = 0; i < n; ++i) c.receive(frame((uint16_t)i, 1, {1, 1, 0})); return (long)(mallinfo2().uordblks + mallinfo2().hblkhd); };
    const long before = flood(1000), after = flood(200000);
    std::printf("%ld bytes more\n", after - before);
    CHECK(after - before < 100000);
}
''')

seed("u17-zero", "C17", "a timeout of zero",
     "a timeout of zero is taken for no timeout",
     [(C + "channel/ClientChannelTcp.cpp", "m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {", "m_executor->start(m_current_request->timeout == duration_t::zero() ? duration_t{std::chrono::hours(24)} : m_current_request->timeout, [=, self = shared_from_this()]() {")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, duration_t::zero());
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int got = 0;
    s->send_request(r, [&](const Expected<ReadCoilsResponse>& e) { got = e.has_exception<TimeoutException>() ? 1 : 2; });
    c.exec->run();
    c.exec->pass(ms(1));
    CHECK(got == 1);
}
''')

seed("u12-unlimited", "C12", "a server configured for no connections",
     "a maximum of zero is taken for no maximum",
     [(V + "AsioServer.cpp", "    if(m_num_connections > m_max_connections)", "    if(m_max_connections != 0 && m_num_connections > m_max_connections)")],
     r'''
int main()
{
    auto m = manager(1);
    const uint16_t port = free_port("127.0.0.1");
    auto srv = m->create_server_tcp_channel("s", Ipv4Endpoint{"127.0.0.1", port}, 0);
    srv->start();
    int f = dial("127.0.0.1", port);
    CHECK(f >= 0);
    CHECK(closed(f, 3000));
    m.reset();
}
''')

seed("u19-zero-period", "C19", "a poll with a period of zero",
     "a poll whose period is zero is sent only once",
     [(C + "session/ScheduledRequest.hpp", "        m_handler(response);\n", "        m_handler(response);\n\n        // There is nothing to repeat\n        if(get_frequency() == duration_t::zero()) return;\n")],
     r'''
int main()
{
    Client c;
    auto s = c.channel->create_session(UnitIdentifier{1}, ms(1000));
    ReadCoilsRequest r; r.starting_address = 0; r.qty_of_bits = 1;
    int got = 0;
    auto p = s->schedule_request(r, duration_t::zero(), [&](const Expected<ReadCoilsResponse>&) { ++got; });
    c.exec->run();
    for(int i = 0; i < 5; ++i) { c.reply({1, 1, 0}); c.exec->pass(ms(1)); }
    CHECK(got == 5);
    p->stop();
}
''')
SEEDS = S
