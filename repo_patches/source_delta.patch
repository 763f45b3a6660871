From db21bb4371b43953c710785351a3ea5e7e2b01cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:43 +0000
Subject: [PATCH 01/40] fix: keep parsing the receive buffer after a message
 with a bad checksum

Leaving the loop stranded every complete message already buffered behind
the corrupted one until more bytes happened to arrive.
---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5aaa3bf..8056794 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -680,7 +680,7 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             if (!msg.verify_checksum())
             {
                 SALTICIDAE_LOG_WARN("checksums do not match, dropping the message");
-                break;
+                continue;
             }
 #endif
             if (!incoming_msgs.enqueue(std::make_pair(msg, conn), false))
-- 
2.43.0


From 10ed6bf47201dfe5f8a3ebf5bac4d4a0b0e95c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:13 +0000
Subject: [PATCH 02/40] fix: do not stall forever once the receive buffer is
 full

The reader masked READ events and returned without handing the buffered
data to on_read(), and nothing would ever resume it.
---
 include/salticidae/conn.h    |  3 ++-
 include/salticidae/network.h |  4 ++++
 src/conn.cpp                 | 29 ++++++++++++++++++++---------
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index f08ba66..fe609d5 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -438,7 +438,8 @@ class ConnPool {
         }
 
         Config &max_recv_buff_size(size_t x) {
-            _max_recv_buff_size = x;
+            /* one segment for the (incomplete) message, one for new data */
+            _max_recv_buff_size = std::max((size_t)2, x);
             return *this;
         }
 
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8056794..b59c714 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -691,6 +691,10 @@ void MsgNetwork<OpcodeType>::on_read(const ConnPool::conn_t &_conn) {
             }
         }
     }
+    /* what is left is an incomplete message: do not let its segmentation use
+     * up the receive buffer, or the rest of it could never be received */
+    if (recv_buffer.len() >= conn->max_recv_buff_size)
+        recv_buffer.push(recv_buffer.pop(recv_buffer.size()));
     if (conn->ready_recv && recv_buffer.len() < conn->max_recv_buff_size)
     {
         /* resume reading from socket */
diff --git a/src/conn.cpp b/src/conn.cpp
index 41704ca..b82506e 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -116,11 +116,17 @@ void ConnPool::Conn::_recv_data(const conn_t &conn, int fd, int events) {
     {
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
-            /* recv_buffer is full, temporarily mask the READ event */
-            conn->ev_socket.del();
-            conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-            conn->ready_recv = true;
-            return;
+            /* recv_buffer is full, let the upper layer consume it first */
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+            if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+            {
+                /* still full, temporarily mask the READ event */
+                conn->ev_socket.del();
+                conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
+                conn->ready_recv = true;
+                return;
+            }
         }
         bytearray_t buff_seg;
         buff_seg.resize(recv_chunk_size);
@@ -205,10 +211,15 @@ void ConnPool::Conn::_recv_data_tls(const conn_t &conn, int fd, int events) {
     {
         if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
         {
-            conn->ev_socket.del();
-            conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
-            conn->ready_recv = true;
-            return;
+            conn->ready_recv = false;
+            conn->cpool->on_read(conn);
+            if (conn->recv_buffer.len() >= conn->max_recv_buff_size)
+            {
+                conn->ev_socket.del();
+                conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
+                conn->ready_recv = true;
+                return;
+            }
         }
         bytearray_t buff_seg;
         buff_seg.resize(recv_chunk_size);
-- 
2.43.0


From 07b80536554002c1a0df7153be8ab33a30d092c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:13 +0000
Subject: [PATCH 03/40] fix: accept a moved buffer when retrying a blocked TLS
 write

Otherwise SSL_write() fails with SSL_R_BAD_WRITE_RETRY and a connection
under back-pressure is torn down.
---
 include/salticidae/crypto.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index d17a919..97d3c52 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -372,7 +372,9 @@ class TLS {
         else
             SSL_set_connect_state(ssl);
 
-        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE);
+        /* a partially sent segment is retried from a different address */
+        SSL_set_mode(ssl, SSL_MODE_ENABLE_PARTIAL_WRITE |
+                          SSL_MODE_ACCEPT_MOVING_WRITE_BUFFER);
     }
 
     TLS(const TLS &) = delete;
-- 
2.43.0


From e8d731aba891108f03562acfc522df7aa7557bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:39 +0000
Subject: [PATCH 04/40] fix: clear the OpenSSL error queue before each TLS
 operation

SSL_get_error() consults the thread's error queue, so an error left behind
by one connection made a harmless WANT_READ/WANT_WRITE on another one look
fatal.
---
 include/salticidae/crypto.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 97d3c52..a20b13a 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -32,6 +32,7 @@
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
+#include <openssl/err.h>
 
 namespace salticidae {
 
@@ -383,6 +384,7 @@ class TLS {
     bool do_handshake(int &want_io_type) {
         /* want_io_type: 0 for read, 1 for write */
         /* return true if handshake is completed */
+        ERR_clear_error();
         auto ret = SSL_do_handshake(ssl);
         if (ret == 1) return true;
         auto err = SSL_get_error(ssl, ret);
@@ -403,10 +405,12 @@ class TLS {
     }
 
     inline int send(const void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_write(ssl, buff, size);
     }
 
     inline int recv(void *buff, size_t size) {
+        ERR_clear_error();
         return SSL_read(ssl, buff, size);
     }
 
-- 
2.43.0


From cc8ed90c83324d0c9944fdc402625fa877e59f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:38 +0000
Subject: [PATCH 05/40] fix: do not let a parse error escape from the enqueue
 retry timer

An oversized message found while draining the receive buffer after
back-pressure threw through the event loop and aborted the process.
---
 include/salticidae/network.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index b59c714..e44d5e9 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -145,7 +145,12 @@ class MsgNetwork: public ConnPool {
                     return;
                 }
                 conn->msg_sleep = false;
-                on_read(conn);
+                try {
+                    on_read(conn);
+                } catch (...) {
+                    this->recoverable_error(std::current_exception(), -1);
+                    this->worker_terminate(conn);
+                }
             });
     }
 
-- 
2.43.0


From 01f767d843994fc8d0aa57c26731ebc1bf290b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:49 +0000
Subject: [PATCH 06/40] fix: do not die from SIGPIPE when shutting down a TLS
 connection

stop() tears connections down on the caller's thread, where SIGPIPE is not
blocked, and the close_notify alert may be written to a connection which
the remote has reset already.
---
 include/salticidae/crypto.h | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index a20b13a..3e5e6e4 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -29,6 +29,7 @@
 #include "salticidae/util.h"
 
 #ifdef __cplusplus
+#include <csignal>
 #include <openssl/sha.h>
 #include <openssl/ssl.h>
 #include <openssl/bn.h>
@@ -418,7 +419,24 @@ class TLS {
         return SSL_get_error(ssl, ret);
     }
 
-    void shutdown() { SSL_shutdown(ssl); }
+    void shutdown() {
+        /* the remote may be gone already, in which case sending the
+         * close_notify alert should not kill the process by SIGPIPE */
+        sigset_t mask, saved, pending;
+        sigemptyset(&mask);
+        sigaddset(&mask, SIGPIPE);
+        sigpending(&pending);
+        bool was_pending = sigismember(&pending, SIGPIPE);
+        pthread_sigmask(SIG_BLOCK, &mask, &saved);
+        SSL_shutdown(ssl);
+        sigpending(&pending);
+        if (!was_pending && sigismember(&pending, SIGPIPE))
+        {
+            int sig;
+            sigwait(&mask, &sig);
+        }
+        pthread_sigmask(SIG_SETMASK, &saved, nullptr);
+    }
 
     ~TLS() { if (ssl) SSL_free(ssl); }
 };
-- 
2.43.0


From 37f59aeeb3c66f6d656898e9c7fb0a5e0202e590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:45:51 +0000
Subject: [PATCH 07/40] fix: do not spin on a TLS connection whose callback has
 not returned yet

The worker kept polling for READ with a handler that does not read, so data
sent early by the remote kept it busy (and kept the write handler from ever
running) until the user loop got to the connection callback.
---
 src/conn.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/conn.cpp b/src/conn.cpp
index b82506e..75b540b 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -281,7 +281,12 @@ void ConnPool::Conn::_recv_data_tls_handshake(const conn_t &conn, int, int) {
     }
 }
 
-void ConnPool::Conn::_recv_data_dummy(const conn_t &, int, int) {}
+void ConnPool::Conn::_recv_data_dummy(const conn_t &conn, int, int) {
+    /* not allowed to receive yet, mask the READ event until the connection
+     * callback returns, otherwise the pending data keeps the worker spinning */
+    conn->ev_socket.del();
+    conn->ev_socket.add(conn->ready_send ? 0 : FdEvent::WRITE);
+}
 
 void ConnPool::worker_terminate(const conn_t &conn) {
     conn->worker->get_tcall()->async_call([this, conn](ThreadCall::Handle &) {
-- 
2.43.0


From f7b9f8acb482fadc7a0af662eaec395014dbc2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:50 +0000
Subject: [PATCH 08/40] fix: use the passive nonce when a peer is told not to
 dial

conn_peer() with ntry = 0 left the nonce of a disconnected peer at 0, so a
random value was drawn once and kept, and a remote dialling with a larger
nonce lost the tie-break every time.
---
 include/salticidae/network.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index e44d5e9..909b4f7 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1213,7 +1213,7 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->inbound_conn = nullptr;
             p->outbound_conn = nullptr;
             p->ev_ping_timer.del();
-            p->nonce = 0;
+            p->nonce = ntry ? 0 : passive_nonce;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
-- 
2.43.0


From f47b5e05e952bf23635a0d6af2c244f886a93ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:59 +0000
Subject: [PATCH 09/40] fix: detach superseded connection attempts from their
 peer

A replaced outbound connection kept pointing at its peer: its end was taken
for the end of the current connection (failing an assertion when that one was
established), it could outlive the peer after del_peer(), and a late pong on
it aborted the process. conn_peer() also forgot the inbound connection whose
handshake had been deferred, which was then used as a null pointer.
---
 include/salticidae/network.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 909b4f7..98145d8 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -984,7 +984,11 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
     conn->peer = p;
     conn->manual = false;
     if (p->outbound_conn)
+    {
+        /* superseded, its end is no longer the business of this peer */
+        p->outbound_conn->peer = nullptr;
         this->disp_terminate(p->outbound_conn);
+    }
     p->outbound_conn = conn;
     assert(pending_peers.count(conn->get_addr()) == 0);
 }
@@ -1115,7 +1119,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         SALTICIDAE_LOG_DEBUG("%s%s%s: terminating stale handshake connection %s",
                             tty_secondary_color, id_hex.c_str(), tty_reset_color,
                             std::string(*old_conn).c_str());
-                        assert(old_conn->peer == nullptr);
+                        old_conn->peer = nullptr;
                         this->disp_terminate(old_conn);
                     }
                     old_conn = conn;
@@ -1210,8 +1214,12 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ntry = ntry;
             p->cur_ntry = ntry;
             p->retry_delay = retry_delay;
-            p->inbound_conn = nullptr;
-            p->outbound_conn = nullptr;
+            if (p->outbound_conn)
+            {
+                p->outbound_conn->peer = nullptr;
+                this->disp_terminate(p->outbound_conn);
+                p->outbound_conn = nullptr;
+            }
             p->ev_ping_timer.del();
             p->nonce = ntry ? 0 : passive_nonce;
             p->ev_retry_timer = TimerEvent(this->disp_ec,
-- 
2.43.0


From 8eb6f738aa9e4adc2cf961fbc361a42860844041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:39 +0000
Subject: [PATCH 10/40] fix: stop dialling a peer after the requested number of
 attempts

The retry timer was armed again by its own callback whatever was left of
ntry, so a finite number of attempts never ended; resetting an established
connection with conn_peer(pid, 1) used up the only attempt.
---
 include/salticidae/network.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 98145d8..80019f3 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -843,6 +843,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     if (p->state != Peer::State::DISCONNECTED)
     {
         assert(p->conn == conn);
+        /* a lost connection uses up one try */
+        if (p->state == Peer::State::CONNECTED && p->cur_ntry > 0)
+            p->cur_ntry--;
         p->state = Peer::State::DISCONNECTED;
         p->outbound_conn = nullptr;
         p->ev_ping_timer.del();
@@ -875,7 +878,6 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
     });
     p->inbound_conn = nullptr;
     /* auto retry the connection */
-    if (p->cur_ntry > 0) p->cur_ntry--;
     if (p->cur_ntry)
     {
         p->nonce = 0;
@@ -1225,8 +1227,10 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
             p->ev_retry_timer = TimerEvent(this->disp_ec,
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
+                    if (p->cur_ntry > 0) p->cur_ntry--;
                     start_active_conn(p);
-                    p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
+                    if (p->cur_ntry)
+                        p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
                 } catch (...) { this->disp_error_cb(std::current_exception()); }
             });
 
-- 
2.43.0


From 90c52aba64ca8cb4be4606a6e8aa98d5f9dd3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:31 +0000
Subject: [PATCH 11/40] fix: survive address changes while a handshake is in
 flight

Clearing or changing a peer's address between two dials, or a remote whose
source port equals the address being dialled, failed assertions and aborted
the process.
---
 include/salticidae/network.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 80019f3..5e2d0ac 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -981,7 +981,8 @@ void PeerNetwork<O, _, __>::replace_pending_conn(const conn_t &conn) {
 
 template<typename O, O _, O __>
 void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
-    assert(!p->addr.is_null());
+    /* the address was taken away, wait for the next one */
+    if (p->addr.is_null()) return;
     auto conn = static_pointer_cast<Conn>(MsgNet::_connect(p->addr));
     conn->peer = p;
     conn->manual = false;
@@ -992,7 +993,6 @@ void PeerNetwork<O, _, __>::start_active_conn(Peer *p) {
         this->disp_terminate(p->outbound_conn);
     }
     p->outbound_conn = conn;
-    assert(pending_peers.count(conn->get_addr()) == 0);
 }
 
 template<typename O, O _, O __>
@@ -1109,7 +1109,12 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                         return;
                     }
                     auto &p = pit->second;
-                    assert(!p->addr.is_null() && p->addr == conn->get_addr());
+                    if (p->addr != conn->get_addr())
+                    {
+                        /* the address of the peer was changed meanwhile */
+                        if (!conn->manual) this->disp_terminate(conn);
+                        return;
+                    }
                     if (p->state != Peer::State::DISCONNECTED ||
                         p->addr != msg.claimed_addr) return;
                     SALTICIDAE_LOG_DEBUG("%s%s%s: outbound handshake to %s%s%s",
-- 
2.43.0


From cbae0d60ebcfba39b45164417152ee3887f92730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:08 +0000
Subject: [PATCH 12/40] fix: keep dialling when a preempting inbound connection
 vanishes

After an established connection gave way to a new inbound one, no retry was
scheduled, so losing the inbound connection before its handshake completed
left the peer disconnected for good.
---
 include/salticidae/network.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 5e2d0ac..aae51b7 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -871,6 +871,9 @@ void PeerNetwork<O, _, __>::on_dispatcher_teardown(const ConnPool::conn_t &_conn
             delete iping;
         });
         p->inbound_conn = nullptr;
+        /* the inbound connection may be gone before it takes over */
+        if (p->cur_ntry)
+            p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
         return;
     }
     this->user_tcall->async_call([this, conn](ThreadCall::Handle &) {
@@ -1233,6 +1236,7 @@ int32_t PeerNetwork<O, _, __>::conn_peer(const PeerId &pid, int32_t ntry, double
                     [this, addr=p->addr, p=p.get()](TimerEvent &) {
                 try {
                     if (p->cur_ntry > 0) p->cur_ntry--;
+                    if (p->nonce == passive_nonce) p->nonce = 0;
                     start_active_conn(p);
                     if (p->cur_ntry)
                         p->ev_retry_timer.add(gen_rand_timeout(p->retry_delay));
-- 
2.43.0


From ed4e034b62ac2be4f295dd09a6918dd3b7de2ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:10 +0000
Subject: [PATCH 13/40] fix: do not carry half a message over to the next
 connection

When a peer reconnects, the unsent data of the old connection moves to the
new one. If the first segment was the remainder of a partially sent message,
the receiver took it for the beginning of one and the stream was garbage.
---
 include/salticidae/conn.h    | 5 ++++-
 include/salticidae/network.h | 6 ++++++
 src/conn.cpp                 | 8 ++++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index fe609d5..ad5e825 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -92,6 +92,9 @@ class ConnPool {
         /** does not need to wait if true */
         bool ready_send;
         bool ready_recv;
+        /** true if the first segment in send_buffer is the remainder of a
+         * segment that has been partially sent */
+        bool partial_send;
 
         typedef void (socket_io_func)(const conn_t &, int, int);
         socket_io_func *send_data_func;
@@ -116,7 +119,7 @@ class ConnPool {
             worker(nullptr),
             cpool(nullptr),
             mode(ConnMode::PASSIVE),
-            ready_send(false), ready_recv(false),
+            ready_send(false), ready_recv(false), partial_send(false),
             send_data_func(nullptr), recv_data_func(nullptr),
             tls(nullptr), peer_cert(nullptr) {}
         Conn(const Conn &) = delete;
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index aae51b7..95249af 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -944,6 +944,12 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
         {
             bytearray_t buff_seg = old_conn->send_buffer.move_pop();
             if (!buff_seg.size()) break;
+            if (old_conn->partial_send)
+            {
+                /* the rest of a message makes no sense to the new connection */
+                old_conn->partial_send = false;
+                continue;
+            }
             new_conn->write(std::move(buff_seg));
         }
         old_conn->peer = nullptr;
diff --git a/src/conn.cpp b/src/conn.cpp
index 75b540b..98ac484 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -89,13 +89,17 @@ void ConnPool::Conn::_send_data(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
+                conn->partial_send = true;
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_send = false;
     }
     /* the send_buffer is empty though the kernel buffer is still available, so
      * temporarily mask the WRITE event and mark the `ready_send` flag */
@@ -185,13 +189,17 @@ void ConnPool::Conn::_send_data_tls(const conn_t &conn, int fd, int events) {
                 }
             }
             else
+            {
                 /* rewind the leftover */
+                conn->partial_send = true;
                 conn->send_buffer.rewind(
                     bytearray_t(buff_seg.begin() + ret, buff_seg.end()));
+            }
             /* wait for the next write callback */
             conn->ready_send = false;
             return;
         }
+        conn->partial_send = false;
     }
     conn->ev_socket.del();
     conn->ev_socket.add(conn->ready_recv ? 0 : FdEvent::READ);
-- 
2.43.0


From c545c799d6ab469334241925f7ee8c17e02f2f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:45 +0000
Subject: [PATCH 14/40] fix: do not lose messages sent while a peer's
 connection is replaced

The connection of a peer is replaced (and its unsent messages moved) by
the dispatcher under a shared lock, which lets send_msg() run at the same
time: the message may be put into the old connection after it was drained
and is lost, or the pointer is read while it is overwritten.
---
 include/salticidae/network.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 95249af..642ba67 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1024,7 +1024,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::PASSIVE)
                 {
                     auto pid = get_peer_id(conn, msg.claimed_addr);
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
@@ -1106,7 +1106,7 @@ void PeerNetwork<O, _, __>::pong_handler(MsgPong &&msg, const conn_t &conn) {
                 if (conn->get_mode() == Conn::ConnMode::ACTIVE)
                 {
                     auto pid = get_peer_id(conn, conn->get_addr());
-                    pinfo_slock_t _g(known_peers_lock);
+                    pinfo_ulock_t _g(known_peers_lock);
                     auto pit = known_peers.find(pid);
                     if (pit == known_peers.end())
                     {
-- 
2.43.0


From 52c44b366811e693ba61369d586e889d60e997ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:44 +0000
Subject: [PATCH 15/40] fix: keep a returning client reachable by its address

When a client reconnects from the same address before the end of its old
connection is processed, the teardown of the old one removed the entry of
the new one.
---
 include/salticidae/network.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 642ba67..196757f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1414,7 +1414,11 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    conn->get_net()->addr2conn.erase(conn->get_addr());
+    auto &addr2conn = conn->get_net()->addr2conn;
+    auto it = addr2conn.find(conn->get_addr());
+    /* the entry may already belong to a newer connection of the client */
+    if (it != addr2conn.end() && it->second == conn)
+        addr2conn.erase(it);
 }
 
 template<typename OpcodeType>
-- 
2.43.0


From 76539a49f225b357a87ec066435a9b4a548e3d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:44 +0000
Subject: [PATCH 16/40] fix: guard the client address table

send_msg() looks up the table from the calling thread while the dispatcher
inserts and erases entries.
---
 include/salticidae/network.h | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 196757f..cc7955f 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -33,6 +33,7 @@
 
 #ifdef __cplusplus
 #include <unordered_set>
+#include <mutex>
 #include <shared_mutex>
 #include <openssl/rand.h>
 namespace salticidae {
@@ -283,6 +284,8 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
 
     private:
     std::unordered_map<NetAddr, typename MsgNet::conn_t> addr2conn;
+    /* addr2conn is changed by the dispatcher and read by any thread that sends */
+    std::mutex addr2conn_lock;
 
     public:
     class Conn: public MsgNet::Conn {
@@ -1406,6 +1409,7 @@ void ClientNetwork<OpcodeType>::on_dispatcher_setup(const ConnPool::conn_t &_con
     assert(conn->get_mode() == Conn::PASSIVE);
     const auto &addr = conn->get_addr();
     auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
     cn->addr2conn.erase(addr);
     cn->addr2conn.insert(std::make_pair(addr, conn));
 }
@@ -1414,7 +1418,9 @@ template<typename OpcodeType>
 void ClientNetwork<OpcodeType>::on_dispatcher_teardown(const ConnPool::conn_t &_conn) {
     MsgNet::on_dispatcher_teardown(_conn);
     auto conn = static_pointer_cast<Conn>(_conn);
-    auto &addr2conn = conn->get_net()->addr2conn;
+    auto cn = conn->get_net();
+    std::lock_guard<std::mutex> _g(cn->addr2conn_lock);
+    auto &addr2conn = cn->addr2conn;
     auto it = addr2conn.find(conn->get_addr());
     /* the entry may already belong to a newer connection of the client */
     if (it != addr2conn.end() && it->second == conn)
@@ -1447,10 +1453,15 @@ inline bool ClientNetwork<OpcodeType>::send_msg(const MsgType &msg, const NetAdd
 
 template<typename OpcodeType>
 inline bool ClientNetwork<OpcodeType>::_send_msg(const Msg &msg, const NetAddr &addr) {
-    auto it = addr2conn.find(addr);
-    if (it == addr2conn.end())
-        throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
-    return MsgNet::_send_msg(msg, it->second);
+    typename MsgNet::conn_t conn;
+    {
+        std::lock_guard<std::mutex> _g(addr2conn_lock);
+        auto it = addr2conn.find(addr);
+        if (it == addr2conn.end())
+            throw ClientNetworkError(SALTI_ERROR_CLIENT_NOT_EXIST);
+        conn = it->second;
+    }
+    return MsgNet::_send_msg(msg, conn);
 }
 
 template<typename O, O OPCODE_PING, O _>
-- 
2.43.0


From 3530c72f86139409a2640addd4c19de0f6b08cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:44 +0000
Subject: [PATCH 17/40] fix: stop the workers before a client network is
 destroyed

Like PeerNetwork, the dispatcher uses members of the derived class.
---
 include/salticidae/network.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index cc7955f..33e1102 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -309,6 +309,8 @@ class ClientNetwork: public MsgNetwork<OpcodeType> {
     ClientNetwork(const EventContext &ec, const Config &config):
         MsgNet(ec, config) {}
 
+    virtual ~ClientNetwork() { this->stop(); }
+
     using MsgNet::send_msg;
     template<typename MsgType>
     inline bool send_msg(const MsgType &msg, const NetAddr &addr);
-- 
2.43.0


From a014019d4c110d415e3a6a5730d2d420f0a10820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:44 +0000
Subject: [PATCH 18/40] fix: report a deferred message the client network could
 not send

---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 33e1102..8a626ce 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -1441,7 +1441,8 @@ inline int32_t ClientNetwork<OpcodeType>::_send_msg_deferred(Msg &&msg, const Ne
     this->disp_tcall->async_call(
             [this, msg=std::move(msg), addr, id](ThreadCall::Handle &) {
         try {
-            _send_msg(msg, addr);
+            if (!_send_msg(msg, addr))
+                throw ClientNetworkError(SALTI_ERROR_CONN_NOT_READY);
         } catch (...) { this->recoverable_error(std::current_exception(), id); }
     });
     return id;
-- 
2.43.0


From c9bca9ec0decaa553b4ea816cb781e4479204c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:13 +0000
Subject: [PATCH 19/40] fix: recheck the head block after referencing it in
 MPMCQueue::try_dequeue

---
 include/salticidae/queue.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/queue.h b/include/salticidae/queue.h
index 77636e8..0f11f51 100644
--- a/include/salticidae/queue.h
+++ b/include/salticidae/queue.h
@@ -204,8 +204,14 @@ class MPMCQueue {
             auto h = this->head.load(std::memory_order_acquire);
             auto hcnt = h->refcnt.load(std::memory_order_relaxed);
             if (!hcnt) continue;
-            if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_relaxed))
+            if (!h->refcnt.compare_exchange_weak(hcnt, hcnt + 1, std::memory_order_acquire))
                 continue;
+            /* the block could have been recycled before it was referenced */
+            if (this->head.load(std::memory_order_acquire) != h)
+            {
+                blks.release_ref(h);
+                continue;
+            }
 
             auto hh = h->head.load(std::memory_order_relaxed);
             auto tt = h->tail.load(std::memory_order_relaxed);
-- 
2.43.0


From 60eac1d761a4c9fb049660bedb567c06576ea66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:32 +0000
Subject: [PATCH 20/40] fix: static_pointer_cast of a moved BoxObj takes the
 object over

---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index bb5fb3a..54f54e5 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -150,7 +150,7 @@ class BoxObj<T[], D>: public _BoxObj<T, D> {
 template<typename T, typename D = default_delete<T>, typename T_, typename D_>
 BoxObj<T, D> static_pointer_cast(BoxObj<T_, D_> &&other) {
     BoxObj<T, D> box{};
-    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.obj);
+    box.obj = static_cast<typename BoxObj<T, D>::type *>(other.unwrap());
     return box;
 }
 
-- 
2.43.0


From dfe1c33c4c611f1a256d27987c5ac12912165891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:32 +0000
Subject: [PATCH 21/40] fix: free the control block of an ArcObj when releases
 race

---
 include/salticidae/ref.h | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 54f54e5..c5707ca 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -177,25 +177,21 @@ struct _RCCtl {
 
 struct _ARCCtl {
     std::atomic_size_t ref_cnt;
+    /* all strong references together hold one weak reference */
     std::atomic_size_t weak_cnt;
-    std::atomic<std::uint8_t> dcnt;
     void add_ref() { ref_cnt++; }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
-        dcnt++;
-        if (--ref_cnt) { dcnt--; return false; }
-        if (weak_cnt) { dcnt--; return true; }
-        if (!--dcnt) delete this;
+        if (--ref_cnt) return false;
+        release_weak();
         return true;
     }
     void release_weak() {
-        dcnt++;
-        if (--weak_cnt) { dcnt--; return; }
-        if (ref_cnt) { dcnt--; return; }
-        if (!--dcnt) delete this;
+        if (--weak_cnt) return;
+        delete this;
     }
     size_t get_cnt() { return ref_cnt.load(); }
-    _ARCCtl(): ref_cnt(1), weak_cnt(0), dcnt(0) {}
+    _ARCCtl(): ref_cnt(1), weak_cnt(1) {}
     ~_ARCCtl() {}
 };
 
-- 
2.43.0


From f4903ca41b808c88797aefc6d1d7dcc99fb6f801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:03 +0000
Subject: [PATCH 22/40] fix: turn a weak handle into a strong one only while
 the object is owned

---
 include/salticidae/ref.h | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index c5707ca..58e1e38 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -158,6 +158,11 @@ struct _RCCtl {
     size_t ref_cnt;
     size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    bool try_add_ref() {
+        if (!ref_cnt) return false;
+        ref_cnt++;
+        return true;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -180,6 +185,13 @@ struct _ARCCtl {
     /* all strong references together hold one weak reference */
     std::atomic_size_t weak_cnt;
     void add_ref() { ref_cnt++; }
+    /* a count that dropped to zero is never increased again */
+    bool try_add_ref() {
+        size_t cnt = ref_cnt.load();
+        while (cnt)
+            if (ref_cnt.compare_exchange_weak(cnt, cnt + 1)) return true;
+        return false;
+    }
     void add_weak() { weak_cnt++; }
     bool release_ref() {
         if (--ref_cnt) return false;
@@ -343,11 +355,10 @@ class _RcObjBase {
     }
 
     _RcObjBase(const _WeakObjBase<T, R> &other) {
-        if (other.ctl && other.ctl->ref_cnt)
+        if (other.ctl && other.ctl->try_add_ref())
         {
             obj = other.obj;
             ctl = other.ctl;
-            ctl->add_ref();
         }
         else
         {
-- 
2.43.0


From dd7dd2a206c67c850062052d30416ac0c6be97a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:21:30 +0000
Subject: [PATCH 23/40] fix: RcObj<T[]>::operator[] returns the element

---
 include/salticidae/ref.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/ref.h b/include/salticidae/ref.h
index 58e1e38..422713d 100644
--- a/include/salticidae/ref.h
+++ b/include/salticidae/ref.h
@@ -427,7 +427,7 @@ class RcObjBase<T[], R, D>: public _RcObjBase<T, R, D> {
     friend RcObjBase<T__, R_, D__> static_pointer_cast(RcObjBase<T_, R_, D_> &&other);
 
     public:
-    T &operator[](size_t idx) { return base_t::obj; }
+    T &operator[](size_t idx) { return base_t::obj[idx]; }
     RcObjBase() = default;
     RcObjBase(T obj[]): base_t(obj) {}
     RcObjBase(BoxObj<T[]> &&box_ref): base_t(std::move(box_ref)) {}
-- 
2.43.0


From 99f67504ec75421c6c01ffce9dd7bf2c19e8ad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 24/40] fix: leave the stream as it was when get_data_inplace
 fails

---
 include/salticidae/stream.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 1ac166a..ef9da1d 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -114,12 +114,12 @@ class DataStream {
     }
 
     const uint8_t *get_data_inplace(size_t len) {
-        auto res = (uint8_t *)&*(buffer.begin() + offset);
-        offset += len;
 #ifndef SALTICIDAE_NOCHECK
-        if (offset > buffer.size())
+        if (len > size())
             throw std::ios_base::failure("insufficient buffer");
 #endif
+        auto res = (uint8_t *)&*(buffer.begin() + offset);
+        offset += len;
         return res;
     }
 
-- 
2.43.0


From aba53e91b2bb08b6b6a99a58c124f55acdbfba9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 25/40] fix: a moved DataStream converts to its remaining bytes
 only

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index ef9da1d..9cac8d6 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -188,7 +188,9 @@ class DataStream {
     }
 
     operator bytearray_t () && {
-        return buffer;
+        buffer.erase(buffer.begin(), buffer.begin() + offset);
+        offset = 0;
+        return std::move(buffer);
     }
 
     operator std::string () const & {
-- 
2.43.0


From eb7c7b99f3abf1dc5978ff1436c6f4d1206d616c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 26/40] fix: load_hex rejects characters that are not hex
 digits

---
 include/salticidae/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 9cac8d6..8ab3cb4 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -177,7 +177,8 @@ class DataStream {
         for (p = hex_str.data(), bp = &*buffer.begin();
             p < hex_str.data() + len; p += 2, bp++)
         {
-            if (sscanf(p, "%02x", &tmp) != 1)
+            if (!isxdigit((uint8_t)p[0]) || !isxdigit((uint8_t)p[1]) ||
+                sscanf(p, "%02x", &tmp) != 1)
                 throw std::invalid_argument("not a valid hex string");
             *bp = tmp;
         }
-- 
2.43.0


From daac5d049ccb9970be0c7418b31a7179c4cff36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 27/40] fix: datastream_get_* reports a failed read

---
 src/stream.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/stream.cpp b/src/stream.cpp
index 6b208aa..6c65681 100644
--- a/src/stream.cpp
+++ b/src/stream.cpp
@@ -99,15 +99,15 @@ bool datastream_put_data(datastream_t *self, const uint8_t *base, size_t size) {
     return true;
 }
 
-uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-
-int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
-int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false;} *succ = true; return val; }
+uint8_t datastream_get_u8(datastream_t *self, bool *succ) { uint8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint16_t datastream_get_u16(datastream_t *self, bool *succ) { uint16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint32_t datastream_get_u32(datastream_t *self, bool *succ) { uint32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+uint64_t datastream_get_u64(datastream_t *self, bool *succ) { uint64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+
+int8_t datastream_get_i8(datastream_t *self, bool *succ) {int8_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int16_t datastream_get_i16(datastream_t *self, bool *succ) {int16_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int32_t datastream_get_i32(datastream_t *self, bool *succ) {int32_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
+int64_t datastream_get_i64(datastream_t *self, bool *succ) {int64_t val = 0; try {*self >> val;} catch (...) {*succ = false; return val;} *succ = true; return val; }
 
 const uint8_t *datastream_get_data_inplace(datastream_t *self, size_t len) {
     try {
-- 
2.43.0


From e9b61e7da48d58089ac0673889054758cda4cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 28/40] fix: a default-constructed Bits is empty

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index 8ab3cb4..ae1ee5a 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -329,7 +329,7 @@ class _Bits {
 
     public:
 
-    _Bits(): data(nullptr) {}
+    _Bits(): data(nullptr), nbits(0), ndata(0) {}
     _Bits(const bytearray_t &arr) {
         load(&*arr.begin(), arr.size());
     }
-- 
2.43.0


From 4885997c77f9201312fdba2574dcf63cfb18348a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 29/40] fix: Bits::load keeps all bytes of a word

---
 include/salticidae/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index ae1ee5a..eeff8d9 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -357,7 +357,7 @@ class _Bits {
         {
             _impl_type x = 0;
             for (unsigned j = 0, k = 0; j < sizeof(_impl_type); j++, k += 8)
-                if (arr < end) x |= *(arr++) << k;
+                if (arr < end) x |= (_impl_type)*(arr++) << k;
             *(ptr++) = x;
         }
     }
-- 
2.43.0


From 250c415afe773ef8d04aac67fc3cb1e13d152b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 30/40] fix: Bits::unserialize checks the announced length
 against the stream

---
 include/salticidae/stream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/stream.h b/include/salticidae/stream.h
index eeff8d9..8841e34 100644
--- a/include/salticidae/stream.h
+++ b/include/salticidae/stream.h
@@ -383,7 +383,9 @@ class _Bits {
     void unserialize(DataStream &s) {
         s >> nbits;
         nbits = letoh(nbits);
-        ndata = (nbits + bit_per_datum - 1) / bit_per_datum;
+        ndata = nbits / bit_per_datum + (nbits % bit_per_datum != 0);
+        if (s.size() / sizeof(_impl_type) < ndata)
+            throw std::ios_base::failure("insufficient buffer");
         data = new _impl_type[ndata];
         for (_impl_type *ptr = data.get(); ptr < data.get() + ndata; ptr++)
         {
-- 
2.43.0


From 9c8c412349b666362cae3a72815db0a3055c9e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 31/40] fix: parse_hash_list checks the announced length
 against the stream

---
 include/salticidae/msg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/salticidae/msg.h b/include/salticidae/msg.h
index 11cf309..c577999 100644
--- a/include/salticidae/msg.h
+++ b/include/salticidae/msg.h
@@ -253,6 +253,8 @@ class MsgBase {
         s >> size;
         size = letoh(size);
 
+        if (s.size() / (256 / 8) < size)
+            throw std::ios_base::failure("insufficient buffer");
         hashes.resize(size);
         for (auto &hash: hashes) s >> hash;
     }
-- 
2.43.0


From cd9becdb0569bde32aa1af0ed8f419d7be02d6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:02 +0000
Subject: [PATCH 32/40] fix: SegBuffer::move_pop returns only what was not
 popped before

---
 include/salticidae/buffer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/buffer.h b/include/salticidae/buffer.h
index 6d3f97a..e785f0f 100644
--- a/include/salticidae/buffer.h
+++ b/include/salticidae/buffer.h
@@ -84,7 +84,9 @@ class SegBuffer {
     }
 
     bytearray_t move_pop() {
-        auto res = std::move(buffer.front().data);
+        auto &front = buffer.front();
+        front.data.erase(front.data.begin(), front.offset);
+        auto res = std::move(front.data);
         buffer.pop_front();
         _size -= res.size();
         return res;
-- 
2.43.0


From a6accea2e614845ec144be915ad36c1d71358a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 33/40] fix: a SHA-1 digest has 20 bytes

---
 include/salticidae/crypto.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/salticidae/crypto.h b/include/salticidae/crypto.h
index 3e5e6e4..2be0749 100644
--- a/include/salticidae/crypto.h
+++ b/include/salticidae/crypto.h
@@ -110,12 +110,12 @@ class SHA1 {
     }
 
     void digest(bytearray_t &md) {
-        md.resize(32);
+        md.resize(20);
         _digest(md);
     }
 
     bytearray_t digest() {
-        bytearray_t md(32);
+        bytearray_t md(20);
         _digest(md);
         return md;
     }
-- 
2.43.0


From 1719bd5697e39ca00e861a83fc8578b2d068d66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 34/40] fix: reject an address with text after the port number

---
 include/salticidae/netaddr.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/netaddr.h b/include/salticidae/netaddr.h
index 669ff27..4dfdcc3 100644
--- a/include/salticidae/netaddr.h
+++ b/include/salticidae/netaddr.h
@@ -65,11 +65,14 @@ struct NetAddr {
         std::string ip_str = ip_port_addr.substr(0, pos);
         std::string port_str = ip_port_addr.substr(pos + 1);
         long port;
+        size_t idx;
         try {
-            port = std::stol(port_str.c_str());
+            port = std::stol(port_str, &idx);
         } catch (std::logic_error &) {
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         }
+        if (idx != port_str.length())
+            throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         if (port < 0)
             throw SalticidaeError(SALTI_ERROR_NETADDR_INVALID);
         if (port > 0xffff)
-- 
2.43.0


From 5f78668d55870e24f2feabd9897799b24507342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 35/40] fix: vstringprintf keeps the last character of a long
 text

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 01f6b06..98bcd7b 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -121,9 +121,9 @@ std::string vstringprintf(const char *fmt, va_list _ap) {
     else
     {
         buff.resize(nwrote);
-        if (nwrote > guessed_size)
+        if (nwrote >= guessed_size)
         {
-            if (vsnprintf(&buff[0], nwrote, fmt, ap) != nwrote)
+            if (vsnprintf(&buff[0], nwrote + 1, fmt, ap) != nwrote)
                 buff = "";
         }
     }
-- 
2.43.0


From da3d7a8372023ada81b3e0e06bb382437dce02b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 36/40] fix: a numeric option rejects values out of range or
 followed by other text

---
 include/salticidae/util.h | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/salticidae/util.h b/include/salticidae/util.h
index 1ad81c1..e37f04e 100644
--- a/include/salticidae/util.h
+++ b/include/salticidae/util.h
@@ -316,11 +316,15 @@ class Config {
         OptValInt(int val): val(val) {}
         void set_val(const std::string &strval) override {
             size_t idx;
+            int v;
             try {
-                val = stoi(strval, &idx);
-            } catch (std::invalid_argument &) {
+                v = stoi(strval, &idx);
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            val = v;
         }
         int &get() { return val; }
     };
@@ -336,11 +340,15 @@ class Config {
         OptValDouble(double val): val(val) {}
         void set_val(const std::string &strval) override {
             size_t idx;
+            double v;
             try {
-                val = stod(strval, &idx);
-            } catch (std::invalid_argument &) {
+                v = stod(strval, &idx);
+            } catch (std::logic_error &) {
                 throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
             }
+            if (idx != strval.length())
+                throw SalticidaeError(SALTI_ERROR_OPTVAL_INVALID);
+            val = v;
         }
         double &get() { return val; }
     };
-- 
2.43.0


From e3c571e3cf0486aee445a5aa24783edc6a0414b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:14 +0000
Subject: [PATCH 37/40] fix: Config::load closes the file when an option is
 rejected

---
 src/util.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 98bcd7b..3b3f01c 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -291,7 +291,12 @@ bool Config::load(const std::string &fname) {
                             optname.c_str());
                 continue;
             }
-            update(optname, optval.c_str());
+            try {
+                update(optname, optval.c_str());
+            } catch (...) {
+                fclose(conf_f);
+                throw;
+            }
         }
         fclose(conf_f);
         return true;
-- 
2.43.0


From 9e52336e4a8a4395fe84b5c09f47c143328ca7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:21 +0000
Subject: [PATCH 38/40] fix: messages accepted for a disconnected peer are
 dropped when the new connection's bounded send buffer is full

finish_handshake() moves what is left in the send buffer of the previous
connection to the new one by a bounded write, whose failure it ignores. With
max_send_buff_size set, the handshake messages already queued on the new
connection take some of its room, so the last of the messages which send_msg()
had accepted were lost without notice.
---
 include/salticidae/network.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 8a626ce..10c7430 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -955,7 +955,8 @@ void PeerNetwork<O, _, __>::finish_handshake(Peer *p) {
                 old_conn->partial_send = false;
                 continue;
             }
-            new_conn->write(std::move(buff_seg));
+            /* already accepted, so do not drop it for the lack of room */
+            new_conn->send_buffer.push(std::move(buff_seg), true);
         }
         old_conn->peer = nullptr;
     }
-- 
2.43.0


From b619774a9a66fd62574fa085f4ecfbb0277202b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:58:18 +0000
Subject: [PATCH 39/40] fix: heartbeats and handshake messages are dropped when
 the bounded send buffer is full

A ping or pong which found the send buffer full (max_send_buff_size) was
silently dropped: the peer, alive and reading, was later considered timed out,
or timed out the other side. The messages of the protocol itself are now
written regardless of the limit.
---
 include/salticidae/conn.h    |  5 +++--
 include/salticidae/network.h | 22 ++++++++++++++--------
 2 files changed, 17 insertions(+), 10 deletions(-)

diff --git a/include/salticidae/conn.h b/include/salticidae/conn.h
index ad5e825..2251a75 100644
--- a/include/salticidae/conn.h
+++ b/include/salticidae/conn.h
@@ -145,8 +145,9 @@ class ConnPool {
 
         /** Write data to the connection (non-blocking). The data will be sent
          * whenever I/O is available. */
-        bool write(bytearray_t &&data) {
-            return send_buffer.push(std::move(data), !cpool->max_send_buff_size);
+        bool write(bytearray_t &&data, bool unbounded = false) {
+            return send_buffer.push(std::move(data),
+                                    unbounded || !cpool->max_send_buff_size);
         }
     };
 
diff --git a/include/salticidae/network.h b/include/salticidae/network.h
index 10c7430..15e16db 100644
--- a/include/salticidae/network.h
+++ b/include/salticidae/network.h
@@ -263,7 +263,7 @@ class MsgNetwork: public ConnPool {
 
     template<typename MsgType>
     inline bool send_msg(const MsgType &msg, const conn_t &conn);
-    inline bool _send_msg(const Msg &msg, const conn_t &conn);
+    inline bool _send_msg(const Msg &msg, const conn_t &conn, bool unbounded = false);
     template<typename MsgType>
     inline int32_t send_msg_deferred(MsgType &&msg, const conn_t &conn);
     inline int32_t _send_msg_deferred(Msg &&msg, const conn_t &conn);
@@ -533,6 +533,12 @@ class PeerNetwork: public MsgNetwork<OpcodeType> {
     void pong_handler(MsgPong &&msg, const conn_t &conn);
     void _ping_msg_cb(const conn_t &conn, uint16_t port);
     void _pong_msg_cb(const conn_t &conn, uint16_t port);
+    /* the messages of the protocol itself are not subject to the limit of the
+     * send buffer */
+    template<typename MsgType>
+    void send_proto_msg(const MsgType &msg, const conn_t &conn) {
+        MsgNet::_send_msg(Msg(msg, this->msg_magic), conn, true);
+    }
     void finish_handshake(Peer *peer);
     void replace_pending_conn(const conn_t &conn);
     void start_active_conn(Peer *peer);
@@ -741,7 +747,7 @@ inline bool MsgNetwork<OpcodeType>::send_msg(const MsgType &msg, const conn_t &c
 }
 
 template<typename OpcodeType>
-inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn) {
+inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn, bool unbounded) {
     bytearray_t msg_data = msg.serialize();
     SALTICIDAE_LOG_DEBUG("wrote message %s to %s",
                 std::string(msg).c_str(),
@@ -750,7 +756,7 @@ inline bool MsgNetwork<OpcodeType>::_send_msg(const Msg &msg, const conn_t &conn
     conn->nsent++;
     conn->nsentb += msg.get_length();
 #endif
-    return conn->write(std::move(msg_data));
+    return conn->write(std::move(msg_data), unbounded);
 }
 
 template<typename O, O _, O __>
@@ -811,14 +817,14 @@ void PeerNetwork<O, _, __>::on_dispatcher_setup(const ConnPool::conn_t &_conn) {
         if (it == known_peers.end())
         {
             if (conn->manual)
-                send_msg(MsgPing(listen_addr, 0), conn);
+                send_proto_msg(MsgPing(listen_addr, 0), conn);
             else
                 throw PeerNetworkError(SALTI_ERROR_PEER_NOT_MATCH);
         }
         else
         {
             pinfo_slock_t _g(known_peers_lock);
-            send_msg(MsgPing(
+            send_proto_msg(MsgPing(
                 listen_addr,
                 it->second->get_nonce()), conn);
         }
@@ -910,7 +916,7 @@ void PeerNetwork<O, _, __>::Peer::send_ping() {
     ping_timer_ok = false;
     pong_msg_ok = false;
     tcall_reset_timeout(chosen_conn->worker, chosen_conn, pn->conn_timeout);
-    pn->send_msg(MsgPing(), chosen_conn);
+    pn->send_proto_msg(MsgPing(), chosen_conn);
 }
 
 template<typename O, O _, O __>
@@ -1059,7 +1065,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                     SALTICIDAE_LOG_DEBUG("%s%s%s: inbound handshake from %s%s%s",
                         tty_secondary_color, id_hex.c_str(), tty_reset_color,
                         tty_secondary_color, p->id_hex.c_str(), tty_reset_color);
-                    send_msg(MsgPong(listen_addr, p->get_nonce()), conn);
+                    send_proto_msg(MsgPong(listen_addr, p->get_nonce()), conn);
                     auto &old_conn = p->inbound_conn;
                     if (old_conn && old_conn != conn)
                     {
@@ -1096,7 +1102,7 @@ void PeerNetwork<O, _, __>::ping_handler(MsgPing &&msg, const conn_t &conn) {
                 SALTICIDAE_LOG_INFO("%s%s%s: ping from %s",
                     tty_secondary_color, id_hex.c_str(), tty_reset_color,
                     std::string(*conn).c_str());
-                send_msg(MsgPong(), conn);
+                send_proto_msg(MsgPong(), conn);
             }
         } catch (...) { this->disp_error_cb(std::current_exception()); }
     });
-- 
2.43.0


From 7fad5883872ff7d118a747592ba611f585743291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:16 +0000
Subject: [PATCH 40/40] fix: a superseded connection attempt which just
 succeeded is torn down by the wrong thread

---
 src/conn.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/conn.cpp b/src/conn.cpp
index 98ac484..a937412 100644
--- a/src/conn.cpp
+++ b/src/conn.cpp
@@ -315,6 +315,12 @@ void ConnPool::disp_terminate(const conn_t &conn) {
         worker_terminate(conn);
     else
         disp_tcall->async_call([this, conn](ThreadCall::Handle &) {
+            if (conn->worker)
+            {
+                /* handed over to a worker in the meantime */
+                worker_terminate(conn);
+                return;
+            }
             if (!conn->set_terminated()) return;
             on_worker_teardown(conn);
             //conn->stop();
-- 
2.43.0

