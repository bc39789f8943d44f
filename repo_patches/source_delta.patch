From 1ccc9034d38a44a95e3b66b41db560715d217b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 01/18] fix: MemoryParityError is exception code 0x08

The enumerator had value 0x07 while parse_exception_type() maps 0x08, so a
server raising it sent a code that no client (including ours) understands.
---
 lib/include/modbus/messages/ExceptionType.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/include/modbus/messages/ExceptionType.h b/lib/include/modbus/messages/ExceptionType.h
index 4823050..b480209 100644
--- a/lib/include/modbus/messages/ExceptionType.h
+++ b/lib/include/modbus/messages/ExceptionType.h
@@ -82,13 +82,13 @@ enum class ExceptionType
     ServerDeviceBusy = 0x06,
 
     /**
-     * @cpp 0x07 @ce Memory parity error
+     * @cpp 0x08 @ce Memory parity error
      *
      * The extended file area failed to pass a consistency check.
      *
      * Used with function codes @cpp 0x20 @ce and @cpp 0x21 @ce (not supported by this library)
      */
-    MemoryParityError = 0x07,
+    MemoryParityError = 0x08,
 
     /**
      * @cpp 0x0A @ce Gateway path unavailable
-- 
2.43.0


From 460021c1765295318b3ac194552b1e40568dd0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 02/18] fix: check the byte count of register read responses

A response whose byte count contradicts its length was accepted as valid.
---
 lib/src/messages/ReadRegistersResponseImpl.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/ReadRegistersResponseImpl.cpp b/lib/src/messages/ReadRegistersResponseImpl.cpp
index 7a45f07..aa156fe 100644
--- a/lib/src/messages/ReadRegistersResponseImpl.cpp
+++ b/lib/src/messages/ReadRegistersResponseImpl.cpp
@@ -85,6 +85,12 @@ ReadRegistersResponseImpl<function_code, request_t, response_t>::parse(const Rea
         return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response should contain an even number of register bytes."});
     }
 
+    // Check that the number of bytes fits
+    if(view.length() != length)
+    {
+        return Expected<response_t>::from_exception(MalformedModbusResponseException{"Response length does not fit with the value in the header."});
+    }
+
     // Check that each number of registers match
     if(view.length() != 2 * req.get_request().qty_of_registers)
     {
-- 
2.43.0


From e1bfa5ce55196e66d1f4a14bd56b48c95bdd4412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 03/18] fix: keep the beginning of over-long MBAP frames

A chunk that does not fit in the remaining buffer was dropped as a whole, so
the reported payload held bytes of earlier messages, depending on how the
stream was split.
---
 lib/src/messages/mbap/MbapParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index c0f306e..afe2dc0 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -34,7 +34,8 @@ void MbapParser::parse(ser4cpp::rseq_t data)
         auto read = data.take(m_num_bytes_to_read);
         data.advance(read.length());
         m_num_bytes_to_read -= read.length();
-        m_buffer_view.copy_from(read);
+        // What exceeds the maximum size is consumed, but not kept
+        m_buffer_view.copy_from(read.take(m_buffer_view.length()));
 
         if(m_num_bytes_to_read == 0)
         {
-- 
2.43.0


From 5bc9ef9280a6e37f6251b6d38d087f72f6724d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 04/18] fix: deliver MBAP frames without payload immediately

A frame with a length of 1 was only delivered when a byte of the following
frame arrived.
---
 lib/src/messages/mbap/MbapParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/messages/mbap/MbapParser.cpp b/lib/src/messages/mbap/MbapParser.cpp
index afe2dc0..30a2ec2 100644
--- a/lib/src/messages/mbap/MbapParser.cpp
+++ b/lib/src/messages/mbap/MbapParser.cpp
@@ -73,6 +73,12 @@ void MbapParser::find_body_size()
 
     m_num_bytes_to_read = length - 1;
     m_reading_body = true;
+
+    if(m_num_bytes_to_read == 0)
+    {
+        // There is no body to wait for
+        send_data();
+    }
 }
 
 void MbapParser::send_data()
-- 
2.43.0


From 09ea5ffca02cec534af47a06217d22d097516cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:34 +0000
Subject: [PATCH 05/18] fix: adding a server session replaces the session of
 the same unit

IServerChannel::add_session() documents this, but the old session was kept.
---
 lib/src/server/channel/ServerChannelTcp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index ee2dc43..3210408 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -92,6 +92,7 @@ void ServerChannelTcp::add_session(const UnitIdentifier& unit_identifier, std::s
     m_executor->post([=, self=shared_from_this()]() {
         if(m_is_shutdown) return;
 
+        m_sessions.erase(unit_identifier);
         m_sessions.insert({unit_identifier, session});
     });
 }
-- 
2.43.0


From 5751d83899ecfe97deedb6d0753278ed67014cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:28 +0000
Subject: [PATCH 06/18] fix: a stale timer no longer times out a later request

---
 lib/src/client/channel/ClientChannelTcp.cpp | 5 ++++-
 lib/src/client/channel/ClientChannelTcp.h   | 2 ++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 6cb27e8..0c2d314 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -33,6 +33,7 @@ ClientChannelTcp::ClientChannelTcp(std::shared_ptr<exe4cpp::IExecutor> executor,
       m_tcp_connection{tcp_connection},
       m_is_shutdown{false},
       m_parser{this},
+      m_current_request_number{0},
       m_current_timer{nullptr},
       m_next_transaction_id{0x0000}
 {
@@ -192,10 +193,12 @@ void ClientChannelTcp::check_pending_requests()
         m_tcp_connection->set_listener(std::dynamic_pointer_cast<ClientChannelTcp>(shared_from_this()));
         m_tcp_connection->send(serialized_request);
 
+        // A timer that already expired when it was cancelled still fires, possibly while a later request is outstanding
+        const auto request_number = ++m_current_request_number;
         m_current_timer = m_executor->start(m_current_request->timeout, [=, self = shared_from_this()]() {
             if(m_is_shutdown) return;
 
-            if (m_current_request)
+            if (m_current_request && m_current_request_number == request_number)
             {
                 m_logger->warn("Timeout reached. UnitId: {}, TransactionId: {}.",
                     m_current_request->unit_id, m_current_request->transaction_id);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index e65e8b0..f215131 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <cstdint>
 #include <deque>
 #include <memory>
 #include "ser4cpp/container/Buffer.h"
@@ -73,6 +74,7 @@ private:
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
     std::unique_ptr<PendingRequest> m_current_request;
+    std::uint64_t m_current_request_number;
     exe4cpp::Timer m_current_timer;
     TransactionIdentifier m_next_transaction_id;
 };
-- 
2.43.0


From 5d32502b5cf78fb3f4ea3aca9682681ab71c5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:50 +0000
Subject: [PATCH 07/18] fix: restarting a scheduled request does not leave a
 second polling chain

---
 lib/src/client/session/ScheduledRequest.h   |  2 ++
 lib/src/client/session/ScheduledRequest.hpp | 13 +++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 2af9ea3..1f7cd3f 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <cstdint>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
 #include "exe4cpp/Timer.h"
@@ -59,6 +60,7 @@ private:
     duration_t m_frequency;
 
     bool m_running;
+    std::uint64_t m_run_number;
     exe4cpp::Timer m_timer;
 };
 
diff --git a/lib/src/client/session/ScheduledRequest.hpp b/lib/src/client/session/ScheduledRequest.hpp
index 419ead5..56d5ded 100644
--- a/lib/src/client/session/ScheduledRequest.hpp
+++ b/lib/src/client/session/ScheduledRequest.hpp
@@ -38,6 +38,7 @@ ScheduledRequest<TRequest, TResponse>::ScheduledRequest(std::shared_ptr<IClientS
       m_timeout{timeout},
       m_frequency{frequency},
       m_running{false},
+      m_run_number{0},
       m_timer{nullptr}
 {
 
@@ -50,6 +51,7 @@ void ScheduledRequest<TRequest, TResponse>::start()
         if(!m_running)
         {
             m_running = true;
+            ++m_run_number;
             execute();
         }
     });
@@ -90,17 +92,24 @@ bool ScheduledRequest<TRequest, TResponse>::is_running() const
 template<typename TRequest, typename TResponse>
 void ScheduledRequest<TRequest, TResponse>::execute()
 {
+    const auto run_number = m_run_number;
+
     // Send the request
     m_session->send_request(m_request, m_timeout, [=, self = shared_from_this()](const Expected<TResponse>& response) {
 
         // Call the response handler
         m_handler(response);
 
-        if(is_running())
+        // If the polling was restarted in the meantime, then the new run has its own timer
+        if(is_running() && run_number == m_run_number)
         {
             // Start the timer for the next execution
             m_timer = m_executor->start(m_frequency, [=, self2 = self]() {
-                execute();
+                // A timer that already expired when it was cancelled still fires
+                if(is_running() && run_number == m_run_number)
+                {
+                    execute();
+                }
             });
         }
     });
-- 
2.43.0


From fcd2dd33b01074b6fe4460852878b9cdc16acefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:57 +0000
Subject: [PATCH 08/18] fix: report connections closed by the peer to the
 client channel

---
 lib/src/client/channel/AsioClientTcpConnection.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index f9bbc6e..1d18dc5 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -160,14 +160,13 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
         if(ec == asio::error::misc_errors::eof)
         {
             m_logger->info("Connection gracefully closed by peer.");
-            close();
         }
         else
         {
             m_logger->error("Read error: {}", ec.message());
-            close();
-            send_error(ec.message());
         }
+        close();
+        send_error(ec.message());
         return;
     }
 
-- 
2.43.0


From 8aacb0a9694b3d490666578e68121ef31fbbaf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 09/18] fix: connect from the configured adapter and report
 failures to do so

asio::async_connect() reopens the socket for every address, which dropped
the bind. Failures to open or bind the socket were not reported, and left
it open so that no later connection could be made.
---
 .../channel/AsioClientTcpConnection.cpp       | 57 ++++++++++++-------
 .../client/channel/AsioClientTcpConnection.h  |  3 +-
 2 files changed, 39 insertions(+), 21 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 1d18dc5..8c176bc 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -54,20 +54,6 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
     {
         m_logger->info("Establishing connection to {}:{}", m_ip_endpoint.get_hostname(), m_ip_endpoint.get_port());
 
-        // Connect to the proper adapter
-        asio::error_code ec{};
-        const auto address = asio::ip::address::from_string(m_adapter.empty() ? "0.0.0.0" : m_adapter, ec);
-        if(ec) { m_logger->error("from_address error: {}", ec.message()); return; }
-
-        asio::ip::tcp::endpoint endpoint{};
-        endpoint.address(address);
-        endpoint.port(0);
-        m_tcp_socket.open(asio::ip::tcp::v4(), ec);
-        if(ec) { m_logger->error("socket open error: {}", ec.message()); return; }
-
-        m_tcp_socket.bind(endpoint, ec);
-        if(ec) { m_logger->error("socket bind error: {}", ec.message()); return; }
-
         // Start connecting
         m_current_connection_status = ConnectionStatus::Connecting;
         asio::ip::tcp::resolver::query query{m_ip_endpoint.get_hostname(), std::to_string(m_ip_endpoint.get_port())};
@@ -125,19 +111,50 @@ void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::
         return;
     }
 
-    asio::async_connect(m_tcp_socket,
-                        endpoints,
-                        m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
-                                                std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                _1)));
+    connect_to(endpoints);
+}
+
+void AsioClientTcpConnection::connect_to(asio::ip::tcp::resolver::iterator endpoint)
+{
+    asio::error_code ec{};
+    m_tcp_socket.close(ec);
+    m_tcp_socket.open(endpoint->endpoint().protocol(), ec);
+
+    // Connect from the proper adapter
+    if(!ec && !m_adapter.empty())
+    {
+        const auto address = asio::ip::address::from_string(m_adapter, ec);
+        if(!ec)
+        {
+            m_tcp_socket.bind(asio::ip::tcp::endpoint{address, 0}, ec);
+        }
+    }
+
+    if(ec)
+    {
+        connect_handler(ec, endpoint);
+        return;
+    }
+
+    m_tcp_socket.async_connect(endpoint->endpoint(),
+                               m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
+                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                          _1, endpoint)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec)
+void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint)
 {
     if(m_is_shutdown) return;
 
     if(ec)
     {
+        // Try the other addresses of the host
+        if(ec != asio::error::operation_aborted && ++endpoint != asio::ip::tcp::resolver::iterator{})
+        {
+            connect_to(endpoint);
+            return;
+        }
+
         m_logger->error("Connection error: {}", ec.message());
         close();
         send_error(ec.message());
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 2c2494e..4d5f36c 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -51,7 +51,8 @@ private:
     };
 
     void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
-    void connect_handler(const asio::error_code& ec);
+    void connect_to(asio::ip::tcp::resolver::iterator endpoint);
+    void connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
     void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
 
-- 
2.43.0


From d544667eff86512781652e336279a9e3ae936827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:08 +0000
Subject: [PATCH 10/18] fix: a failed client connection is closed before its
 error is reported

The close was posted behind requests that were already queued, which then
used the dead connection and waited for their timeout. Operations of the
old connection that complete later are ignored.
---
 .../channel/AsioClientTcpConnection.cpp       | 61 +++++++++++--------
 .../client/channel/AsioClientTcpConnection.h  | 10 +--
 2 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 8c176bc..88bc696 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -34,6 +34,7 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_resolver{*executor->get_context()},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
+          m_connection_number{0},
           m_current_connection_status{ConnectionStatus::NotConnected}
 {
 
@@ -60,7 +61,7 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
         m_resolver.async_resolve(query,
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::resolve_handler,
                                                             std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                            _1, _2)));
+                                                            _1, _2, m_connection_number)));
     }
 
     if(m_current_connection_status == ConnectionStatus::Connected)
@@ -76,17 +77,25 @@ void AsioClientTcpConnection::close()
     m_executor->post([=, self = shared_from_this()] () {
         if(m_is_shutdown) return;
 
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close_socket();
+    });
+}
 
-        if(m_tcp_socket.is_open())
-        {
-            m_logger->info("Closing connection");
+void AsioClientTcpConnection::close_socket()
+{
+    m_current_connection_status = ConnectionStatus::NotConnected;
 
-            std::error_code ec;
-            m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
-            m_tcp_socket.close(ec);
-        }
-    });
+    // Operations of this connection that are still to complete must not affect the next one
+    ++m_connection_number;
+
+    if(m_tcp_socket.is_open())
+    {
+        m_logger->info("Closing connection");
+
+        std::error_code ec;
+        m_tcp_socket.shutdown(asio::ip::tcp::socket::shutdown_both, ec);
+        m_tcp_socket.close(ec);
+    }
 }
 
 void AsioClientTcpConnection::shutdown()
@@ -99,14 +108,14 @@ void AsioClientTcpConnection::shutdown()
     });
 }
 
-void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints)
+void AsioClientTcpConnection::resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints, unsigned int connection_number)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_number != m_connection_number) return;
 
     if(ec)
     {
         m_logger->error("IP resolver error: {}", ec.message());
-        m_current_connection_status = ConnectionStatus::NotConnected;
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -132,19 +141,19 @@ void AsioClientTcpConnection::connect_to(asio::ip::tcp::resolver::iterator endpo
 
     if(ec)
     {
-        connect_handler(ec, endpoint);
+        connect_handler(ec, endpoint, m_connection_number);
         return;
     }
 
     m_tcp_socket.async_connect(endpoint->endpoint(),
                                m_executor->wrap(std::bind(&AsioClientTcpConnection::connect_handler,
                                                           std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                          _1, endpoint)));
+                                                          _1, endpoint, m_connection_number)));
 }
 
-void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint)
+void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint, unsigned int connection_number)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_number != m_connection_number) return;
 
     if(ec)
     {
@@ -156,7 +165,7 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::
         }
 
         m_logger->error("Connection error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -168,9 +177,9 @@ void AsioClientTcpConnection::connect_handler(const asio::error_code& ec, asio::
     begin_read();
 }
 
-void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_number != m_connection_number) return;
 
     if(ec)
     {
@@ -182,7 +191,7 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
         {
             m_logger->error("Read error: {}", ec.message());
         }
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -198,14 +207,14 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number)
 {
-    if(m_is_shutdown) return;
+    if(m_is_shutdown || connection_number != m_connection_number) return;
 
     if(ec)
     {
         m_logger->error("Write error: {}", ec.message());
-        close();
+        close_socket();
         send_error(ec.message());
         return;
     }
@@ -228,7 +237,7 @@ void AsioClientTcpConnection::begin_read()
     m_tcp_socket.async_read_some(asio::buffer(m_read_buffer, m_read_buffer.size()),
                                  m_executor->wrap(std::bind(&AsioClientTcpConnection::read_handler,
                                                          std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                         _1, _2)));
+                                                         _1, _2, m_connection_number)));
 }
 
 void AsioClientTcpConnection::send_buffer()
@@ -240,7 +249,7 @@ void AsioClientTcpConnection::send_buffer()
         m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
                                 m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
                                                         std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+                                                        _1, _2, m_connection_number)));
     }
 }
 
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 4d5f36c..117049b 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -50,12 +50,13 @@ private:
         Connected
     };
 
-    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints);
+    void resolve_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoints, unsigned int connection_number);
     void connect_to(asio::ip::tcp::resolver::iterator endpoint);
-    void connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint);
-    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint, unsigned int connection_number);
+    void read_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number);
+    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number);
 
+    void close_socket();
     void begin_read();
     void send_buffer();
     void send_error(const std::string& message);
@@ -68,6 +69,7 @@ private:
     asio::ip::tcp::socket m_tcp_socket;
 
     bool m_is_shutdown;
+    unsigned int m_connection_number;
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
     std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
-- 
2.43.0


From 14678e0189f6b39be91072f201611634557d639d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:50 +0000
Subject: [PATCH 11/18] fix: the client writes every frame completely and in
 order

The buffer of a write in progress was released when another frame was
sent, and the rest of a frame was dropped after a partial write.
---
 .../channel/AsioClientTcpConnection.cpp       | 45 ++++++++++++++-----
 .../client/channel/AsioClientTcpConnection.h  |  8 +++-
 2 files changed, 40 insertions(+), 13 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 88bc696..3bcd9e0 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -35,7 +35,9 @@ AsioClientTcpConnection::AsioClientTcpConnection(std::shared_ptr<Logger> logger,
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
           m_connection_number{0},
-          m_current_connection_status{ConnectionStatus::NotConnected}
+          m_current_connection_status{ConnectionStatus::NotConnected},
+          m_is_writing{false},
+          m_num_written{0}
 {
 
 }
@@ -49,7 +51,12 @@ void AsioClientTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
     
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    if(m_current_connection_status != ConnectionStatus::Connected)
+    {
+        // Nothing was transmitted yet, only the newest data is of interest
+        m_write_buffers.clear();
+    }
+    m_write_buffers.push_back(std::make_shared<ser4cpp::Buffer>(data));
 
     if(m_current_connection_status == ConnectionStatus::NotConnected)
     {
@@ -87,6 +94,9 @@ void AsioClientTcpConnection::close_socket()
 
     // Operations of this connection that are still to complete must not affect the next one
     ++m_connection_number;
+    m_write_buffers.clear();
+    m_num_written = 0;
+    m_is_writing = false;
 
     if(m_tcp_socket.is_open())
     {
@@ -207,7 +217,7 @@ void AsioClientTcpConnection::read_handler(const asio::error_code& ec, std::size
     begin_read();
 }
 
-void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number)
+void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number, std::shared_ptr<ser4cpp::Buffer> buffer)
 {
     if(m_is_shutdown || connection_number != m_connection_number) return;
 
@@ -221,7 +231,17 @@ void AsioClientTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_writing = false;
+    m_num_written += bytes_transferred;
+    if(m_num_written < m_write_buffers.front()->length())
+    {
+        send_buffer();
+        return;
+    }
+
+    m_write_buffers.pop_front();
+    m_num_written = 0;
+    send_buffer();
 
     auto connection_listener = m_connection_listener.lock();
     if(connection_listener)
@@ -244,13 +264,16 @@ void AsioClientTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer)
-    {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
-                                                        _1, _2, m_connection_number)));
-    }
+    if(m_is_writing || m_write_buffers.empty()) return;
+
+    // The buffer must outlive the operation
+    auto buffer = m_write_buffers.front();
+    const uint8_t* data = buffer->as_rslice();
+    m_is_writing = true;
+    m_tcp_socket.async_send(asio::buffer(data + m_num_written, buffer->length() - m_num_written),
+                            m_executor->wrap(std::bind(&AsioClientTcpConnection::write_handler,
+                                                       std::dynamic_pointer_cast<AsioClientTcpConnection>(shared_from_this()),
+                                                       _1, _2, m_connection_number, buffer)));
 }
 
 void AsioClientTcpConnection::send_error(const std::string& message)
diff --git a/lib/src/client/channel/AsioClientTcpConnection.h b/lib/src/client/channel/AsioClientTcpConnection.h
index 117049b..f8ffba9 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.h
+++ b/lib/src/client/channel/AsioClientTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOCLIENTTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include <string>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
@@ -54,7 +56,7 @@ private:
     void connect_to(asio::ip::tcp::resolver::iterator endpoint);
     void connect_handler(const asio::error_code& ec, asio::ip::tcp::resolver::iterator endpoint, unsigned int connection_number);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number);
+    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred, unsigned int connection_number, std::shared_ptr<ser4cpp::Buffer> buffer);
 
     void close_socket();
     void begin_read();
@@ -72,7 +74,9 @@ private:
     unsigned int m_connection_number;
     ConnectionStatus m_current_connection_status;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    bool m_is_writing;
+    std::size_t m_num_written; // Bytes of the first buffer
+    std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_buffers;
 
     std::weak_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 7e6808bd1dd6ad2d8634aab2ad7a6cd3d10aa1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:56 +0000
Subject: [PATCH 12/18] fix: the server writes every reply completely and in
 order

The buffer of a write in progress was released when the next reply was
sent, which lost or garbled replies to pipelined requests. While replies
are waiting, no further requests are read from that connection.
---
 .../channel/AsioServerTcpConnection.cpp       | 39 ++++++++++++++-----
 .../server/channel/AsioServerTcpConnection.h  |  7 +++-
 2 files changed, 34 insertions(+), 12 deletions(-)

diff --git a/lib/src/server/channel/AsioServerTcpConnection.cpp b/lib/src/server/channel/AsioServerTcpConnection.cpp
index ff301bf..2ef7990 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.cpp
+++ b/lib/src/server/channel/AsioServerTcpConnection.cpp
@@ -32,7 +32,8 @@ AsioServerTcpConnection::AsioServerTcpConnection(std::shared_ptr<Logger> logger,
           m_server{server},
           m_tcp_socket{*executor->get_context()},
           m_is_shutdown{false},
-          m_is_connected{false}
+          m_is_connected{false},
+          m_is_writing{false}
 {
 
 }
@@ -46,7 +47,7 @@ void AsioServerTcpConnection::send(const ser4cpp::rseq_t& data)
 {
     if(m_is_shutdown) return;
 
-    m_write_buffer = std::make_unique<ser4cpp::Buffer>(data);
+    m_write_buffers.push_back(std::make_shared<ser4cpp::Buffer>(data));
     send_buffer();
 }
 
@@ -118,10 +119,14 @@ void AsioServerTcpConnection::read_handler(const asio::error_code& ec, std::size
         m_connection_listener->on_receive(ser4cpp::rseq_t{m_read_buffer.data(), (unsigned int) bytes_transferred});
     }
 
-    begin_read();
+    // A peer that does not read its replies cannot make us queue more of them
+    if(m_write_buffers.empty())
+    {
+        begin_read();
+    }
 }
 
-void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred)
+void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size_t bytes_transferred, std::shared_ptr<ser4cpp::Buffer> buffer)
 {
     if(m_is_shutdown) return;
 
@@ -135,12 +140,22 @@ void AsioServerTcpConnection::write_handler(const std::error_code& ec, std::size
 
     m_logger->debug("Sent {} bytes", bytes_transferred);
 
-    m_write_buffer = nullptr;
+    m_is_writing = false;
+    m_write_buffers.pop_front();
 
     if(m_connection_listener)
     {
         m_connection_listener->on_write_done();
     }
+
+    if(m_write_buffers.empty())
+    {
+        begin_read();
+    }
+    else
+    {
+        send_buffer();
+    }
 }
 
 void AsioServerTcpConnection::begin_read()
@@ -160,12 +175,16 @@ void AsioServerTcpConnection::send_buffer()
 {
     if(m_is_shutdown) return;
 
-    if(m_write_buffer && m_is_connected)
+    if(m_is_connected && !m_is_writing && !m_write_buffers.empty())
     {
-        m_tcp_socket.async_send(asio::buffer(m_write_buffer->as_rslice(), m_write_buffer->length()),
-                                m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
-                                                        std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
-                                                        _1, _2)));
+        // The buffer must outlive the operation
+        auto buffer = m_write_buffers.front();
+        m_is_writing = true;
+        asio::async_write(m_tcp_socket,
+                          asio::buffer(buffer->as_rslice(), buffer->length()),
+                          m_executor->wrap(std::bind(&AsioServerTcpConnection::write_handler,
+                                                     std::dynamic_pointer_cast<AsioServerTcpConnection>(shared_from_this()),
+                                                     _1, _2, buffer)));
     }
 }
 
diff --git a/lib/src/server/channel/AsioServerTcpConnection.h b/lib/src/server/channel/AsioServerTcpConnection.h
index f5570ed..541794a 100644
--- a/lib/src/server/channel/AsioServerTcpConnection.h
+++ b/lib/src/server/channel/AsioServerTcpConnection.h
@@ -17,6 +17,8 @@
 #define MODBUS_ASIOSERVERTCPCONNECTION_H
 
 #include <array>
+#include <deque>
+#include <memory>
 #include "exe4cpp/asio/StrandExecutor.h"
 #include "ser4cpp/container/Buffer.h"
 
@@ -47,7 +49,7 @@ public:
 private:
     void connect_handler(const asio::error_code& ec);
     void read_handler(const asio::error_code& ec, std::size_t bytes_transferred);
-    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred);
+    void write_handler(const asio::error_code& ec, std::size_t bytes_transferred, std::shared_ptr<ser4cpp::Buffer> buffer);
 
     void begin_read();
     void send_buffer();
@@ -62,7 +64,8 @@ private:
     bool m_is_shutdown;
     bool m_is_connected;
     std::array<uint8_t, 4096> m_read_buffer;
-    std::unique_ptr<ser4cpp::Buffer> m_write_buffer;
+    bool m_is_writing;
+    std::deque<std::shared_ptr<ser4cpp::Buffer>> m_write_buffers;
 
     std::shared_ptr<IConnectionListener> m_connection_listener;
 };
-- 
2.43.0


From 998452692b1644ad2a1d92df2b881195ef553dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:50 +0000
Subject: [PATCH 13/18] fix: the server goes on accepting after an error to
 accept

The connection that failed was removed from the count although it had not
been counted, and no further connection was accepted.
---
 lib/src/server/channel/AsioServer.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 32e1cd0..03b4177 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -84,7 +84,13 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
 
     if(ec)
     {
-        remove_connection(connection);
+        m_logger->error("Accept error: {}", ec.message());
+
+        // This connection was never established, so it is not counted
+        m_connections.remove(connection);
+
+        // The error may be transient (e.g. too many open files)
+        m_executor->start(std::chrono::milliseconds(100), [=, self=shared_from_this()] { start_accept(); });
         return;
     }
 
-- 
2.43.0


From 9a1449803190830cf8c74ad815bc1f53a444e5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:26 +0000
Subject: [PATCH 14/18] fix: state that public methods share with the strand is
 synchronised

---
 lib/src/client/channel/ClientChannelTcp.cpp | 13 +++++++++----
 lib/src/client/channel/ClientChannelTcp.h   |  6 +++++-
 lib/src/client/session/ScheduledRequest.h   |  5 +++--
 lib/src/server/channel/ServerChannelTcp.h   |  3 ++-
 4 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index 0c2d314..dd49fd4 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -45,6 +45,7 @@ std::shared_ptr<IClientSession> ClientChannelTcp::create_session(const UnitIdent
 {
     std::shared_ptr<IClientSession> session;
 
+    std::lock_guard<std::mutex> lock(m_sessions_mutex);
     if(!m_is_shutdown)
     {
         session = std::make_shared<ClientSessionImpl>(m_executor,
@@ -96,13 +97,17 @@ void ClientChannelTcp::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
-        m_is_shutdown = true;
 
-        for(auto& session : m_sessions)
         {
-            session->shutdown();
+            std::lock_guard<std::mutex> lock(m_sessions_mutex);
+            m_is_shutdown = true;
+
+            for(auto& session : m_sessions)
+            {
+                session->shutdown();
+            }
+            m_sessions.clear();
         }
-        m_sessions.clear();
 
         m_pending_requests.clear();
         m_current_request.reset(nullptr);
diff --git a/lib/src/client/channel/ClientChannelTcp.h b/lib/src/client/channel/ClientChannelTcp.h
index f215131..51baeca 100644
--- a/lib/src/client/channel/ClientChannelTcp.h
+++ b/lib/src/client/channel/ClientChannelTcp.h
@@ -16,9 +16,12 @@
 #ifndef MODBUS_CLIENTCHANNELTCP_H
 #define MODBUS_CLIENTCHANNELTCP_H
 
+#include <atomic>
 #include <cstdint>
 #include <deque>
 #include <memory>
+#include <mutex>
+#include <vector>
 #include "ser4cpp/container/Buffer.h"
 #include "exe4cpp/IExecutor.h"
 
@@ -69,7 +72,8 @@ private:
     std::shared_ptr<Logger> m_logger;
     std::shared_ptr<ITcpConnection> m_tcp_connection;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
+    std::mutex m_sessions_mutex;
     std::vector<std::shared_ptr<IClientSession>> m_sessions;
     MbapParser m_parser;
     std::deque<std::unique_ptr<PendingRequest>> m_pending_requests;
diff --git a/lib/src/client/session/ScheduledRequest.h b/lib/src/client/session/ScheduledRequest.h
index 1f7cd3f..8d1972f 100644
--- a/lib/src/client/session/ScheduledRequest.h
+++ b/lib/src/client/session/ScheduledRequest.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SCHEDULEDREQUEST_H
 #define MODBUS_SCHEDULEDREQUEST_H
 
+#include <atomic>
 #include <cstdint>
 #include <memory>
 #include "exe4cpp/IExecutor.h"
@@ -57,9 +58,9 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     TRequest m_request;
     duration_t m_timeout;
-    duration_t m_frequency;
+    std::atomic<duration_t> m_frequency;
 
-    bool m_running;
+    std::atomic<bool> m_running;
     std::uint64_t m_run_number;
     exe4cpp::Timer m_timer;
 };
diff --git a/lib/src/server/channel/ServerChannelTcp.h b/lib/src/server/channel/ServerChannelTcp.h
index 18896d7..a3d2dd0 100644
--- a/lib/src/server/channel/ServerChannelTcp.h
+++ b/lib/src/server/channel/ServerChannelTcp.h
@@ -16,6 +16,7 @@
 #ifndef MODBUS_SERVERCHANNELTCP_H
 #define MODBUS_SERVERCHANNELTCP_H
 
+#include <atomic>
 #include <memory>
 #include <unordered_map>
 
@@ -55,7 +56,7 @@ private:
     std::shared_ptr<exe4cpp::IExecutor> m_executor;
     std::shared_ptr<IServer> m_server;
 
-    bool m_is_shutdown;
+    std::atomic<bool> m_is_shutdown;
     bool m_is_started;
     std::unordered_map<UnitIdentifier, std::shared_ptr<IServerSession>> m_sessions;
 };
-- 
2.43.0


From 5ddab5cafbda7f84047b14f65a01bf9c8f991dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:59 +0000
Subject: [PATCH 15/18] fix: printing an identifier neither depends on nor
 changes the stream's flags

---
 lib/src/TransactionIdentifier.cpp | 11 ++++++-----
 lib/src/UnitIdentifier.cpp        | 12 ++++++------
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/lib/src/TransactionIdentifier.cpp b/lib/src/TransactionIdentifier.cpp
index c194388..e1184d2 100644
--- a/lib/src/TransactionIdentifier.cpp
+++ b/lib/src/TransactionIdentifier.cpp
@@ -15,7 +15,8 @@
  */
 #include "TransactionIdentifier.h"
 
-#include <iomanip>
+#include <cstdio>
+#include <ostream>
 
 namespace modbus
 {
@@ -56,10 +57,10 @@ TransactionIdentifier TransactionIdentifier::operator++(int)
 
 std::ostream& operator<<(std::ostream& stream, const TransactionIdentifier& transaction_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(4) << std::setfill('0')
-                  << std::hex << (unsigned int)transaction_id.get_value();
+    // Formatted apart, so that the flags of the stream have no influence and are not changed
+    char text[7];
+    std::snprintf(text, sizeof(text), "0x%04X", (unsigned int)transaction_id.get_value());
+    return stream << text;
 }
 
 } // namespace modbus
diff --git a/lib/src/UnitIdentifier.cpp b/lib/src/UnitIdentifier.cpp
index dbdb362..d959375 100644
--- a/lib/src/UnitIdentifier.cpp
+++ b/lib/src/UnitIdentifier.cpp
@@ -15,18 +15,18 @@
  */
 #include "modbus/UnitIdentifier.h"
 
-#include <ios>
-#include <iomanip>
+#include <cstdio>
+#include <ostream>
 
 namespace modbus
 {
 
 std::ostream& operator<<(std::ostream& stream, const UnitIdentifier& unit_id)
 {
-    return stream << "0x"
-                  << std::uppercase
-                  << std::setw(2) << std::setfill('0')
-                  << std::hex << (unsigned int)unit_id.get_value();
+    // Formatted apart, so that the flags of the stream have no influence and are not changed
+    char text[5];
+    std::snprintf(text, sizeof(text), "0x%02X", (unsigned int)unit_id.get_value());
+    return stream << text;
 }
 
 } // namespace modbus
-- 
2.43.0


From 727902131585792053e0a8b295ed19487d1bb5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:03 +0000
Subject: [PATCH 16/18] fix: nothing of a client channel goes on or stays open
 after its shutdown

Handlers of invalid requests were still called, the connection stayed
open, and a request scheduled after the shutdown kept itself, its session
and the channel alive.
---
 lib/src/client/channel/AsioClientTcpConnection.cpp |  4 ++--
 lib/src/client/channel/ClientChannelTcp.cpp        |  4 ++++
 lib/src/client/session/ClientSessionImpl.cpp       | 11 ++++++++++-
 lib/src/client/session/ClientSessionImpl.h         |  1 +
 lib/src/server/channel/ServerChannelTcp.cpp        |  2 ++
 5 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/lib/src/client/channel/AsioClientTcpConnection.cpp b/lib/src/client/channel/AsioClientTcpConnection.cpp
index 3bcd9e0..1931173 100644
--- a/lib/src/client/channel/AsioClientTcpConnection.cpp
+++ b/lib/src/client/channel/AsioClientTcpConnection.cpp
@@ -113,8 +113,8 @@ void AsioClientTcpConnection::shutdown()
     m_executor->post([=, self = shared_from_this()] () {
         m_is_shutdown = true;
 
-        std::error_code ec;
-        m_tcp_socket.cancel(ec);
+        m_resolver.cancel();
+        close_socket();
     });
 }
 
diff --git a/lib/src/client/channel/ClientChannelTcp.cpp b/lib/src/client/channel/ClientChannelTcp.cpp
index dd49fd4..2b0f6dc 100644
--- a/lib/src/client/channel/ClientChannelTcp.cpp
+++ b/lib/src/client/channel/ClientChannelTcp.cpp
@@ -87,6 +87,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
     else
     {
         m_executor->post([=, self = shared_from_this()]() {
+            if(m_is_shutdown) return;
+
             auto exception = Expected<ser4cpp::rseq_t>::from_exception(MalformedModbusRequestException("Modbus request is not valid."));
             response_handler(exception);
         });
@@ -95,6 +97,8 @@ void ClientChannelTcp::send_request(const UnitIdentifier& unit_identifier,
 
 void ClientChannelTcp::shutdown()
 {
+    if(m_is_shutdown) return;
+
     m_executor->post([=, self = shared_from_this()] {
         m_logger->info("Shutting down.");
 
diff --git a/lib/src/client/session/ClientSessionImpl.cpp b/lib/src/client/session/ClientSessionImpl.cpp
index 4a264cf..ad38389 100644
--- a/lib/src/client/session/ClientSessionImpl.cpp
+++ b/lib/src/client/session/ClientSessionImpl.cpp
@@ -47,7 +47,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
   m_logger{logger},
   m_channel{channel},
   m_unit_identifier{unit_identifier},
-  m_default_timeout{default_timeout}
+  m_default_timeout{default_timeout},
+  m_is_shutdown{false}
 {
 
 }
@@ -55,6 +56,8 @@ ClientSessionImpl::ClientSessionImpl(std::shared_ptr<exe4cpp::IExecutor> executo
 void ClientSessionImpl::shutdown()
 {
     m_executor->post([=, self = shared_from_this()] {
+        m_is_shutdown = true;
+
         for(auto& req : m_scheduled_requests)
         {
             req->stop();
@@ -272,6 +275,12 @@ std::shared_ptr<IScheduledRequest> ClientSessionImpl::meta_schedule_request(cons
     scheduled_request->start();
 
     m_executor->post([=, self = shared_from_this()]() {
+        if(m_is_shutdown)
+        {
+            scheduled_request->stop();
+            return;
+        }
+
         m_scheduled_requests.push_back(scheduled_request);
     });
 
diff --git a/lib/src/client/session/ClientSessionImpl.h b/lib/src/client/session/ClientSessionImpl.h
index a98c138..d0c1d68 100644
--- a/lib/src/client/session/ClientSessionImpl.h
+++ b/lib/src/client/session/ClientSessionImpl.h
@@ -146,6 +146,7 @@ private:
     std::shared_ptr<IClientChannelImpl> m_channel;
     UnitIdentifier m_unit_identifier;
     duration_t m_default_timeout;
+    bool m_is_shutdown;
 
     std::vector<std::shared_ptr<IScheduledRequest>> m_scheduled_requests;
 };
diff --git a/lib/src/server/channel/ServerChannelTcp.cpp b/lib/src/server/channel/ServerChannelTcp.cpp
index 3210408..926a887 100644
--- a/lib/src/server/channel/ServerChannelTcp.cpp
+++ b/lib/src/server/channel/ServerChannelTcp.cpp
@@ -67,6 +67,8 @@ void ServerChannelTcp::start()
 
 void ServerChannelTcp::shutdown()
 {
+    if(m_is_shutdown) return;
+
     m_executor->post([this, self=shared_from_this()] {
         m_logger->info("Shutting down.");
         m_is_shutdown = true;
-- 
2.43.0


From 8657fd4bb3a288fea137138a0dca03d3ddecb88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:00 +0000
Subject: [PATCH 17/18] fix: Expected copies values whose type has an
 initializer-list constructor

---
 lib/include/modbus/Expected.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/modbus/Expected.h b/lib/include/modbus/Expected.h
index f689eea..d472468 100644
--- a/lib/include/modbus/Expected.h
+++ b/lib/include/modbus/Expected.h
@@ -62,7 +62,7 @@ public:
      * }
      * @ce
      */
-    Expected(const T& value) : m_value{value}, m_has_value{true} {}
+    Expected(const T& value) : m_value(value), m_has_value{true} {}
 
     /**
      * @brief Constructor for a valid value
@@ -70,7 +70,7 @@ public:
      *
      * This constructor is used whenever you want to create a valid value (i.e. no error) by move.
      */
-    Expected(T&& rhs) : m_value{std::move(rhs)}, m_has_value{true} {}
+    Expected(T&& rhs) : m_value(std::move(rhs)), m_has_value{true} {}
 
     /**
      * @brief Copy contructor
@@ -84,7 +84,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{rhs.m_value};
+            new(&m_value) T(rhs.m_value);
         }
         else
         {
@@ -104,7 +104,7 @@ public:
     {
         if(m_has_value)
         {
-            new(&m_value) T{std::move(rhs.m_value)};
+            new(&m_value) T(std::move(rhs.m_value));
         }
         else
         {
-- 
2.43.0


From 5a14107308e92555a8fe8750690e392fde45bb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:06 +0000
Subject: [PATCH 18/18] fix: the socket of a connection being accepted is not
 touched by the server's shutdown

The accept operation assigns the socket on whichever thread completes it,
outside the strand, while shutdown() closed the sockets of all connections,
the one being accepted included: a data race.
---
 lib/src/server/channel/AsioServer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/lib/src/server/channel/AsioServer.cpp b/lib/src/server/channel/AsioServer.cpp
index 03b4177..e5d8355 100644
--- a/lib/src/server/channel/AsioServer.cpp
+++ b/lib/src/server/channel/AsioServer.cpp
@@ -68,7 +68,6 @@ void AsioServer::start_accept()
         if(m_is_shutdown) return;
 
         auto connection = std::make_shared<AsioServerTcpConnection>(m_logger, m_executor, std::dynamic_pointer_cast<AsioServer>(shared_from_this()));
-        m_connections.push_back(connection);
         m_tcp_acceptor.async_accept(connection->get_socket(),
                                     m_executor->wrap(
                                         std::bind(&AsioServer::handle_accept,
@@ -86,14 +85,14 @@ void AsioServer::handle_accept(std::shared_ptr<AsioServerTcpConnection> connecti
     {
         m_logger->error("Accept error: {}", ec.message());
 
-        // This connection was never established, so it is not counted
-        m_connections.remove(connection);
-
         // The error may be transient (e.g. too many open files)
         m_executor->start(std::chrono::milliseconds(100), [=, self=shared_from_this()] { start_accept(); });
         return;
     }
 
+    // The socket must not be touched while the connection is being accepted, so it joins the others only now
+    m_connections.push_back(connection);
+
     // Kill an old connection if there are two many open connections
     ++m_num_connections;
     if(m_num_connections > m_max_connections)
-- 
2.43.0

