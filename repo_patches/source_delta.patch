From 68eeeae9d88beaa0664fea7e65df369d30b06356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 01/60] fix: read the whole size prefix before using it

A stream socket can return fewer than four bytes; the decoder then used a
partially-filled size and lost track of the message boundaries.
---
 src/ossia/network/sockets/size_prefix_framing.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 770ed4c..289fc77 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -27,9 +27,10 @@ struct size_prefix_decoder
   template <typename F>
   void receive(F f)
   {
-    // Receive the size prefix
-    socket.async_read_some(
+    // Receive the size prefix. It can arrive in more than one segment.
+    boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
+        boost::asio::transfer_exactly(sizeof(int32_t)),
         [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
           read_size(std::move(f), ec, sz);
         });
-- 
2.43.0


From 11772b4beedfcc501d09cb851423c8499628b7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 02/60] fix: stop reading a stream on every error

Errors other than end-of-file and abortion, such as a connection reset, were
taken as a successful read: stale bytes were decoded.
---
 src/ossia/network/sockets/writers.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ossia/network/sockets/writers.hpp b/src/ossia/network/sockets/writers.hpp
index c11d739..8325266 100644
--- a/src/ossia/network/sockets/writers.hpp
+++ b/src/ossia/network/sockets/writers.hpp
@@ -61,6 +61,13 @@ struct stream_processor
       return false;
     }
 
+    // Any other error, e.g. a connection reset: there is nothing to decode
+    if (ec)
+    {
+      self.on_fail();
+      return false;
+    }
+
     return true;
   }
 };
-- 
2.43.0


From f2bc0104b8263bd32a158d3cf0676a0651000753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:24 +0000
Subject: [PATCH 03/60] fix: resynchronize the SLIP decoder after an
 undecodable frame

The end delimiter of a frame dropped because of an invalid escape (or joined in
the middle) was taken as the beginning of the next one: every later message of
the connection was lost.
---
 src/ossia/network/sockets/slip_framing.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index da3a4b3..cd38bde 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -88,11 +88,13 @@ struct slip_decoder
       {
         switch(next_char)
         {
-          // End of a message, we can process it
+          // End of a message, we can process it.
+          // If there is nothing to process, this is the beginning of a message:
+          // the previous eot was the end of one which could not be decoded.
           case slip::eot:
-            m_status = waiting;
             if(m_decoded.size() > 0)
             {
+              m_status = waiting;
               f(m_decoded.data(), m_decoded.size());
             }
             m_decoded.clear();
-- 
2.43.0


From 9c3b29de4f49f0090e85ff24dc4b8324106be1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 04/60] fix: keep processing network events after a handler
 failed

---
 src/ossia/network/context.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/ossia/network/context.hpp b/src/ossia/network/context.hpp
index 0d8120e..3b74076 100644
--- a/src/ossia/network/context.hpp
+++ b/src/ossia/network/context.hpp
@@ -17,12 +17,19 @@ struct network_context
     using work_guard = boost::asio::executor_work_guard<boost::asio::io_context::executor_type>;
 
     work_guard wg{context.get_executor()};
-    try {
-      context.run();
-    } catch (std::exception& e) {
-      ossia::logger().error("Error while processing network events: {}", e.what());
-    } catch (...) {
-      ossia::logger().error("Error while processing network events.");
+
+    // An error in a handler must not prevent the processing of the next ones.
+    // context.run() only returns normally when the context is stopped.
+    for(;;)
+    {
+      try {
+        context.run();
+        break;
+      } catch (std::exception& e) {
+        ossia::logger().error("Error while processing network events: {}", e.what());
+      } catch (...) {
+        ossia::logger().error("Error while processing network events.");
+      }
     }
   }
 };
-- 
2.43.0


From e233229a4733915dec382bc471e1d277a97e9790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 05/60] fix: do not run the callback of a stopped or deleted
 timer

---
 src/ossia/detail/timer.hpp | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/timer.hpp b/src/ossia/detail/timer.hpp
index 81aded7..dca95f8 100644
--- a/src/ossia/detail/timer.hpp
+++ b/src/ossia/detail/timer.hpp
@@ -2,6 +2,8 @@
 #include <boost/asio/high_resolution_timer.hpp>
 #include <ossia/detail/logger.hpp>
 
+#include <memory>
+
 namespace ossia
 {
 
@@ -27,27 +29,46 @@ public:
   template<typename F>
   void start(F f)
   {
+    m_running = std::make_shared<char>();
+    schedule(std::move(f));
+  }
+
+  void stop()
+  {
+    m_running.reset();
+    m_timer.cancel();
+  }
+
+private:
+  template<typename F>
+  void schedule(F f)
+  {
+    // If the timer has already expired, canceling it does not remove the
+    // handler from the queue: it must not touch a stopped or deleted timer.
+    std::weak_ptr<char> running = m_running;
     m_timer.expires_from_now(m_delay);
-    m_timer.async_wait([this, ff = std::move(f)] (auto ec) {
+    m_timer.async_wait([this, running, ff = std::move(f)] (auto ec) {
       if(ec)
       {
         ossia::logger().error("timer error: {}", ec.message());
         return;
       }
 
+      if(running.expired())
+        return;
+
       ff();
-      this->start(std::move(ff));
-    });
-  }
 
-  void stop()
-  {
-    m_timer.cancel();
+      if(running.expired())
+        return;
+
+      this->schedule(std::move(ff));
+    });
   }
 
-private:
   boost::asio::high_resolution_timer m_timer;
   std::chrono::milliseconds m_delay{};
+  std::shared_ptr<char> m_running;
 };
 
 }
-- 
2.43.0


From 26776f94415095804f115da7cd4e7ff65cc34575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:57 +0000
Subject: [PATCH 06/60] fix: disabling a callback leaves the other callbacks
 alone

---
 src/ossia/detail/callback_container.hpp | 26 +++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 3790d15..8f515c1 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -129,31 +129,33 @@ public:
   class disabled_callback
   {
   public:
-    explicit disabled_callback(callback_container& self)
-      : self{self}, old_callbacks{self.m_callbacks}
+    disabled_callback(callback_container& self, iterator it)
+      : self{self}
     {
-
+      // TODO should we also call on_removing_last_blah ?
+      // I don't think so : it's supposed to be a short operation
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      disabled.splice(disabled.begin(), self.m_callbacks, it);
     }
 
+    disabled_callback(const disabled_callback&) = delete;
+    disabled_callback& operator=(const disabled_callback&) = delete;
+
     ~disabled_callback()
     {
-      self.replace_callbacks(std::move(old_callbacks));
+      // Iterators stay valid when a node is moved between lists
+      std::lock_guard<std::mutex> lck{self.m_mutx};
+      self.m_callbacks.splice(self.m_callbacks.begin(), disabled);
     }
 
   private:
     callback_container& self;
-    callback_container::impl old_callbacks;
+    callback_container::impl disabled;
   };
 
   disabled_callback disable_callback(iterator it)
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    disabled_callback dis{*this};
-
-    // TODO should we also call on_removing_last_blah ?
-    // I don't think so : it's supposed to be a short operation
-    m_callbacks.erase(it);
-    return dis;
+    return disabled_callback{*this, it};
   }
 
   /**
-- 
2.43.0


From 9e860dba3ada1e16b8b5a090a79ab2b56ef8281a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 07/60] fix: count the first registration in a message queue

---
 src/ossia/network/base/message_queue.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/message_queue.hpp b/src/ossia/network/base/message_queue.hpp
index 5710211..dc8670e 100644
--- a/src/ossia/network/base/message_queue.hpp
+++ b/src/ossia/network/base/message_queue.hpp
@@ -50,7 +50,7 @@ public:
       auto it = p.add_callback([this, ptr](const ossia::value& val) {
         m_queue.enqueue({ptr, val});
       });
-      m_reg.insert({&p, {0, it}});
+      m_reg.insert({&p, {1, it}});
     }
     else
     {
-- 
2.43.0


From 752fce4ca411895fd9a26c399d0d7f4a0d7d7281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:08 +0000
Subject: [PATCH 08/60] fix: give the requested size to objects which come from
 a sized pool

---
 src/ossia/detail/buffer_pool.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ossia/detail/buffer_pool.hpp b/src/ossia/detail/buffer_pool.hpp
index 0ec4e4b..4bdae3f 100644
--- a/src/ossia/detail/buffer_pool.hpp
+++ b/src/ossia/detail/buffer_pool.hpp
@@ -68,20 +68,16 @@ struct sized_object_pool
   Obj_T acquire_sized(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::resize(b, req_size);
-    }
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::resize(b, req_size);
     return b;
   }
 
   Obj_T acquire_reserved(std::size_t req_size = 1024) noexcept
   {
     Obj_T b;
-    if(!queues[find_bucket(req_size)].try_dequeue(b))
-    {
-      Alloc::reserve(b, req_size);
-    }
+    queues[find_bucket(req_size)].try_dequeue(b);
+    Alloc::reserve(b, req_size);
     return b;
   }
 
-- 
2.43.0


From fe01e140a52f5647f9b438e1b3e32146b1664762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:19 +0000
Subject: [PATCH 09/60] fix: send to all the clients of a stream server when
 one of them is broken

---
 src/ossia/network/sockets/writers.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/sockets/writers.hpp b/src/ossia/network/sockets/writers.hpp
index 8325266..620260b 100644
--- a/src/ossia/network/sockets/writers.hpp
+++ b/src/ossia/network/sockets/writers.hpp
@@ -3,6 +3,7 @@
 
 #include <boost/asio/buffer.hpp>
 #include <boost/asio/error.hpp>
+#include <boost/system/system_error.hpp>
 
 #include <cinttypes>
 #include <vector>
@@ -27,15 +28,20 @@ struct multi_socket_writer
   {
     for(auto& sock : sockets)
     {
-      sock->write(buf);
+      // A client which cannot be reached must not prevent the others from
+      // getting the message.
+      try
+      {
+        sock->write(buf);
+      }
+      catch (const boost::system::system_error&)
+      {
+      }
     }
   }
   void write_some(const boost::asio::const_buffer& buf)
   {
-    for(auto& sock : sockets)
-    {
-      sock->write(buf);
-    }
+    write(buf);
   }
 };
 
-- 
2.43.0


From 3bbece223e3f8ccbdc5452c21068dbde29128570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:39 +0000
Subject: [PATCH 10/60] fix: write whole messages to the clients of a stream
 server from any thread

---
 src/ossia/network/sockets/framing.hpp | 34 +++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/sockets/framing.hpp b/src/ossia/network/sockets/framing.hpp
index 5f72d35..81e4b80 100644
--- a/src/ossia/network/sockets/framing.hpp
+++ b/src/ossia/network/sockets/framing.hpp
@@ -6,6 +6,10 @@
 #include <ossia/network/sockets/slip_framing.hpp>
 #include <ossia/network/sockets/writers.hpp>
 
+#include <memory>
+#include <mutex>
+#include <vector>
+
 namespace ossia::net
 {
 
@@ -34,7 +38,7 @@ public:
   using proto = typename Base::proto;
   using socket = typename proto::socket;
   using listener = framed_listener<typename Base::listener, Framing>;
-  using encoder = typename Framing::template encoder<multi_socket_writer<std::unique_ptr<listener>>>;
+  using encoder = typename Framing::template encoder<multi_socket_writer<listener*>>;
   using decoder = typename Framing::template decoder<socket>;
 
   template<typename... Args>
@@ -48,9 +52,10 @@ public:
   void close(F f)
   {
     this->m_context.post([this, f] {
+      std::lock_guard<std::mutex> lck{m_socketsMutex};
       for(auto& sock : m_sockets)
       {
-        sock.close();
+        sock->close();
       }
       f();
     });
@@ -63,7 +68,9 @@ public:
         [this, f = std::move(f)](std::error_code ec, socket socket) {
           if (!ec)
           {
-            m_sockets.push_back(std::make_unique<listener>(std::move(socket), f));
+            auto client = std::make_unique<listener>(std::move(socket), f);
+            std::lock_guard<std::mutex> lck{m_socketsMutex};
+            m_sockets.push_back(std::move(client));
           }
 
           listen(std::move(f));
@@ -72,11 +79,26 @@ public:
 
   void write(const char* data, std::size_t sz)
   {
-    multi_socket_writer<std::unique_ptr<listener>> wr{this->m_sockets};
+    // A message is written in multiple parts: messages written by multiple
+    // threads must not be interleaved.
+    std::lock_guard<std::mutex> write_lck{m_writeMutex};
+
+    std::vector<listener*> clients;
+    {
+      std::lock_guard<std::mutex> lck{m_socketsMutex};
+      clients.reserve(m_sockets.size());
+      for(auto& sock : m_sockets)
+        clients.push_back(sock.get());
+    }
+
+    multi_socket_writer<listener*> wr{clients};
     encoder{wr}.write(data, sz);
   }
 
+  // Clients are added in the network thread, messages are written from any thread
   std::vector<std::unique_ptr<listener>> m_sockets;
+  std::mutex m_socketsMutex;
+  std::mutex m_writeMutex;
 };
 
 template<typename Base, typename Framing>
@@ -101,10 +123,12 @@ struct framed_client : Base
 
   void write(const char* data, std::size_t sz)
   {
+    std::lock_guard<std::mutex> lck{m_writeMutex};
     encoder{this->m_socket}.write(data, sz);
   }
 
   decoder m_decoder;
+  std::mutex m_writeMutex;
 };
 
 template<typename Base, typename Framing>
@@ -136,10 +160,12 @@ struct framed_socket : Base
 
   void write(const char* data, std::size_t sz)
   {
+    std::lock_guard<std::mutex> lck{m_writeMutex};
     encoder{this->m_socket}.write(data, sz);
   }
 
   decoder m_decoder;
+  std::mutex m_writeMutex;
 };
 
 struct tcp_size_prefix_server
-- 
2.43.0


From 0899b463877db4ed98cea11370eb02eb7d52243a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:37 +0000
Subject: [PATCH 11/60] fix: compare with the previous value under its lock

push_value of one thread reads it in the protocol's filter while another thread replaces it.
---
 src/ossia/network/generic/generic_parameter.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/generic/generic_parameter.cpp b/src/ossia/network/generic/generic_parameter.cpp
index 0b598da..b6bcc84 100644
--- a/src/ossia/network/generic/generic_parameter.cpp
+++ b/src/ossia/network/generic/generic_parameter.cpp
@@ -293,9 +293,14 @@ generic_parameter::set_bounding(ossia::bounding_mode boundingMode)
 
 bool generic_parameter::filter_value(const ossia::value& val) const
 {
-  return m_disabled || m_muted
-         || (get_repetition_filter() == ossia::repetition_filter::ON
-             && val == m_previousValue);
+  if (m_disabled || m_muted)
+    return true;
+
+  if (get_repetition_filter() != ossia::repetition_filter::ON)
+    return false;
+
+  lock_t lock(m_valueMutex);
+  return val == m_previousValue;
 }
 
 void generic_parameter::on_first_callback_added()
-- 
2.43.0


From 6d36cbf80c832dfb6e53e43f0e0b05ce86156e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 12/60] fix: rename nodes under the lock of their parent

The siblings' names are read with the parent's mutex by find_child,
children_names and create_child, set_name took the mutex of the node itself.
---
 src/ossia/network/base/node.cpp            | 12 ++++++++++++
 src/ossia/network/base/node.hpp            |  4 ++++
 src/ossia/network/generic/generic_node.cpp |  8 ++++----
 3 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/base/node.cpp b/src/ossia/network/base/node.cpp
index 5bf63db..09a8d0a 100644
--- a/src/ossia/network/base/node.cpp
+++ b/src/ossia/network/base/node.cpp
@@ -129,8 +129,20 @@ bool node_base::is_root_instance(const node_base& child) const
   return false;
 }
 
+void node_base::rename_child(
+    node_base& parent, node_base& child, std::string name)
+{
+  // The siblings' names are read with the mutex of their parent
+  write_lock_t lock{parent.m_mutex};
+
+  child.m_name.clear();
+  sanitize_name(name, parent.m_children);
+  child.m_name = std::move(name);
+}
+
 void node_base::on_address_change()
 {
+  read_lock_t lock{m_mutex};
   for (auto& cld : m_children)
   {
     cld->on_address_change();
diff --git a/src/ossia/network/base/node.hpp b/src/ossia/network/base/node.hpp
index 2c53c8d..7774bbf 100644
--- a/src/ossia/network/base/node.hpp
+++ b/src/ossia/network/base/node.hpp
@@ -206,6 +206,10 @@ protected:
   //! Should return nullptr if no child is to be added.
   virtual std::unique_ptr<node_base> make_child(const std::string& name) = 0;
 
+  //! Gives a name to a child, made unique among its siblings.
+  static void
+  rename_child(node_base& parent, node_base& child, std::string name);
+
   //! Reimplement for a specific removal action.
   virtual void removing_child(node_base& node_base) = 0;
 
diff --git a/src/ossia/network/generic/generic_node.cpp b/src/ossia/network/generic/generic_node.cpp
index eb2dc19..a213c48 100644
--- a/src/ossia/network/generic/generic_node.cpp
+++ b/src/ossia/network/generic/generic_node.cpp
@@ -44,6 +44,8 @@ node_base* generic_node_base::get_parent() const
 void generic_node_base::on_address_change()
 {
   m_oscAddressCache = ossia::net::osc_parameter_string(*this);
+
+  read_lock_t lock{m_mutex};
   for (auto& cld : m_children)
   {
     cld->on_address_change();
@@ -52,12 +54,10 @@ void generic_node_base::on_address_change()
 
 node_base& generic_node_base::set_name(std::string name)
 {
-  auto old_name = std::move(m_name);
+  auto old_name = m_name;
   if (m_parent)
   {
-    read_lock_t lock{m_mutex};
-    sanitize_name(name, m_parent->unsafe_children());
-    m_name = name;
+    rename_child(*m_parent, *this, std::move(name));
   }
   else
   {
-- 
2.43.0


From 2771abd55fa392847d9caff621972fdfcb5e227d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:36 +0000
Subject: [PATCH 13/60] fix: check the name of an added node in the section
 which inserts it

---
 src/ossia/network/base/node.cpp | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/base/node.cpp b/src/ossia/network/base/node.cpp
index 09a8d0a..e196c1d 100644
--- a/src/ossia/network/base/node.cpp
+++ b/src/ossia/network/base/node.cpp
@@ -157,17 +157,20 @@ node_base* node_base::add_child(std::unique_ptr<node_base> n)
 
   if (n)
   {
-    const auto& name = n->get_name();
-    if (name == sanitize_name(name, children_names()))
+    auto ptr = n.get();
     {
-      auto ptr = n.get();
-      {
-        write_lock_t lock{m_mutex};
-        m_children.push_back(std::move(n));
-      }
-      dev.on_node_created(*ptr);
-      return ptr;
+      // Nobody must take the name between the check and the insertion
+      write_lock_t lock{m_mutex};
+
+      std::string name = n->get_name();
+      sanitize_name(name, m_children);
+      if (name != n->get_name())
+        return nullptr;
+
+      m_children.push_back(std::move(n));
     }
+    dev.on_node_created(*ptr);
+    return ptr;
   }
   return nullptr;
 }
-- 
2.43.0


From a33deab595074594ba189d507f301b77851197e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 14/60] fix: ignore OSC messages received before the device is
 set

---
 src/ossia/network/osc/detail/osc_protocol_common.hpp | 9 +++++++--
 src/ossia/protocols/osc/osc_generic_protocol.hpp     | 9 ++++++---
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_protocol_common.hpp b/src/ossia/network/osc/detail/osc_protocol_common.hpp
index 9cda05e..b90c8d6 100644
--- a/src/ossia/network/osc/detail/osc_protocol_common.hpp
+++ b/src/ossia/network/osc/detail/osc_protocol_common.hpp
@@ -87,16 +87,21 @@ struct osc_protocol_common
   template<typename T>
   static void on_received_message(T& self, const oscpack::ReceivedMessage& m)
   {
+    // The sockets are open before the protocol is given to its device
+    ossia::net::device_base* device = self.m_device;
+    if (!device)
+      return;
+
     if (!self.learning())
     {
       ossia::net::on_input_message<false>(
             m.AddressPattern(),
             ossia::net::osc_message_applier{self.m_id, m},
-            self.m_listening, *self.m_device, self.m_logger);
+            self.m_listening, *device, self.m_logger);
     }
     else
     {
-      ossia::net::osc_learn(&self.m_device->get_root_node(), m);
+      ossia::net::osc_learn(&device->get_root_node(), m);
     }
   }
 };
diff --git a/src/ossia/protocols/osc/osc_generic_protocol.hpp b/src/ossia/protocols/osc/osc_generic_protocol.hpp
index 6cec963..09b17f8 100644
--- a/src/ossia/protocols/osc/osc_generic_protocol.hpp
+++ b/src/ossia/protocols/osc/osc_generic_protocol.hpp
@@ -256,7 +256,8 @@ public:
   message_origin_identifier m_id;
   listened_parameters m_listening;
 
-  ossia::net::device_base* m_device{};
+  // Set in the user's thread, read in the one of the network context
+  std::atomic<ossia::net::device_base*> m_device{};
 
   RecvSocket from_client;
   SendSocket to_client;
@@ -367,7 +368,8 @@ public:
   message_origin_identifier m_id;
   listened_parameters m_listening;
 
-  ossia::net::device_base* m_device{};
+  // Set in the user's thread, read in the one of the network context
+  std::atomic<ossia::net::device_base*> m_device{};
 
   Socket m_server;
 };
@@ -493,7 +495,8 @@ public:
   message_origin_identifier m_id;
   listened_parameters m_listening;
 
-  ossia::net::device_base* m_device{};
+  // Set in the user's thread, read in the one of the network context
+  std::atomic<ossia::net::device_base*> m_device{};
 
   Socket m_client;
 };
-- 
2.43.0


From d618640d2de735cd7c2046d891e7c2b438ab50ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:55 +0000
Subject: [PATCH 15/60] fix: protect the list of clients of the websocket
 server

---
 src/ossia/network/sockets/websocket.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/ossia/network/sockets/websocket.hpp b/src/ossia/network/sockets/websocket.hpp
index a2f275b..872a1f7 100644
--- a/src/ossia/network/sockets/websocket.hpp
+++ b/src/ossia/network/sockets/websocket.hpp
@@ -11,6 +11,8 @@
 */
 #include <ossia/detail/algorithms.hpp>
 
+#include <mutex>
+
 namespace ossia::net
 {
 struct websocket_simple_client : websocket_client
@@ -63,10 +65,12 @@ struct websocket_simple_server: ossia::net::websocket_server
   {
     set_open_handler([this] (connection_handler hdl)
     {
+      std::lock_guard<std::mutex> lock{m_listenersMutex};
       m_listeners.push_back(hdl.lock());
     });
     set_close_handler([this] (connection_handler hdl)
     {
+      std::lock_guard<std::mutex> lock{m_listenersMutex};
       ossia::remove_erase(m_listeners, hdl.lock());
     });
   }
@@ -87,6 +91,9 @@ struct websocket_simple_server: ossia::net::websocket_server
   void write(const char* data, std::size_t sz)
   {
     std::string_view dat{data, sz};
+
+    // Clients come and go in the thread of the network context
+    std::lock_guard<std::mutex> lock{m_listenersMutex};
     for(auto& listener : m_listeners)
       send_binary_message(listener, dat);
   }
@@ -99,6 +106,7 @@ struct websocket_simple_server: ossia::net::websocket_server
   }
 
   std::vector<std::shared_ptr<void>> m_listeners;
+  std::mutex m_listenersMutex;
   int m_port{};
 };
 
-- 
2.43.0


From 1ef6d185ccf940ff48ffe68bb155adaf914ba082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:16 +0000
Subject: [PATCH 16/60] fix: send OSC lists of up to the maximal message size

---
 .../osc/detail/osc_value_write_visitor.hpp    | 33 ++++++++++++++-----
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index 8947d96..b152ebc 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -12,6 +12,8 @@
 #include <oscpack/osc/OscOutboundPacketStream.h>
 #include <oscpack/osc/OscReceivedElements.h>
 
+#include <algorithm>
+
 namespace ossia::net
 {
 template<typename Parameter, typename OscPolicy, typename Writer>
@@ -90,7 +92,8 @@ struct osc_value_send_visitor
   {
     auto& pool = buffer_pool::instance();
     auto buf = pool.acquire();
-    while (buf.size() < max_osc_message_size)
+    std::size_t size = 0;
+    for (;;)
     {
       try
       {
@@ -100,17 +103,22 @@ struct osc_value_send_visitor
         dynamic_policy{{p, parameter.get_unit()}}(v);
         p << oscpack::EndMessage();
 
-        writer(p.Data(), p.Size());
+        size = p.Size();
         break;
       }
-      catch(...)
+      catch(const oscpack::OutOfBufferMemoryException&)
       {
-        auto n = buf.size();
+        if(buf.size() >= max_osc_message_size)
+          throw;
+
+        const auto n = std::min(buf.size() * 2, std::size_t(max_osc_message_size));
         buf.clear();
-        buf.resize(n * 2 + 1);
+        buf.resize(n);
       }
     }
 
+    writer(buf.data(), size);
+
     pool.release(std::move(buf));
   }
   catch(const std::exception& e)
@@ -167,7 +175,7 @@ struct osc_value_write_visitor
   void operator()(const std::vector<ossia::value>& v) const noexcept
   {
     // OPTIMIZEME
-    while (result.size() < max_osc_message_size)
+    for (;;)
     {
       try
       {
@@ -180,11 +188,18 @@ struct osc_value_write_visitor
         result.resize(p.Size());
         break;
       }
-      catch(...)
+      catch(const oscpack::OutOfBufferMemoryException&)
       {
-        auto n = result.size();
+        // The message is too large to be sent
+        if(result.size() >= max_osc_message_size)
+        {
+          result.clear();
+          break;
+        }
+
+        const auto n = std::min(result.size() * 2 + 1, std::size_t(max_osc_message_size));
         result.clear();
-        result.resize(n * 2 + 1);
+        result.resize(n);
       }
     }
   }
-- 
2.43.0


From e1bfe53fcb45955cca1b168e5f2cebcfe0e7f3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:03 +0000
Subject: [PATCH 17/60] fix: send blobs with their size and receive them

---
 src/ossia/network/osc/detail/osc.hpp                  |  2 ++
 src/ossia/network/osc/detail/osc_common_policy.hpp    | 11 +++++++++--
 .../network/osc/detail/osc_value_write_visitor.hpp    |  6 ++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index 52487c3..c8c3284 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -350,6 +350,8 @@ struct osc_inbound_visitor
         return std::string{cur_it->AsStringUnchecked()};
       case oscpack::SYMBOL_TYPE_TAG:
         return std::string{cur_it->AsSymbolUnchecked()};
+      case oscpack::BLOB_TYPE_TAG:
+        return osc_utilities::get_blob(cur_it);
       default:
         return str;
     }
diff --git a/src/ossia/network/osc/detail/osc_common_policy.hpp b/src/ossia/network/osc/detail/osc_common_policy.hpp
index b8c24ce..e656698 100644
--- a/src/ossia/network/osc/detail/osc_common_policy.hpp
+++ b/src/ossia/network/osc/detail/osc_common_policy.hpp
@@ -6,6 +6,8 @@
 
 #include <boost/endian/conversion.hpp>
 
+#include <algorithm>
+
 namespace ossia::net
 {
 // Handling for types compatible with all OSC version
@@ -103,8 +105,13 @@ struct osc_common_outbound_static_policy
     buffer[2] = '\0';
     buffer[3] = '\0';
 
-    std::size_t written = write_string(std::string_view((const char *)v.data, v.size), buffer + 4);
-    return 4 + written;
+    boost::endian::endian_store<int32_t, 4, boost::endian::order::big>((unsigned char*) buffer + 4, (int32_t)v.size);
+
+    const std::size_t size = v.size;
+    const std::size_t padded = oscpack::RoundUp4(size);
+    std::copy_n((const char*)v.data, size, buffer + 8);
+    std::fill(buffer + 8 + size, buffer + 8 + padded, '\0');
+    return 8 + padded;
   }
 
   std::size_t operator()(char* buffer, vec2f v) const noexcept
diff --git a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
index b152ebc..7e7f597 100644
--- a/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
+++ b/src/ossia/network/osc/detail/osc_value_write_visitor.hpp
@@ -52,7 +52,8 @@ struct osc_value_send_visitor
 
   void operator()(const std::string& v) const noexcept try
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    // Blobs are prefixed by their size
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     if(sz < 16384) {
       char* buffer = (char*) alloca(sz);
       std::size_t i = write_string(address_pattern, buffer);
@@ -160,7 +161,8 @@ struct osc_value_write_visitor
 
   void operator()(const std::string& v) const noexcept
   {
-    const std::size_t sz = pattern_size(address_pattern.size()) + 4 + pattern_size(v.size());
+    // Blobs are prefixed by their size
+    const std::size_t sz = pattern_size(address_pattern.size()) + 8 + pattern_size(v.size());
     result.resize(sz);
     std::size_t i = write_string(address_pattern, result.data());
 
-- 
2.43.0


From 2bca745de1407cd4846f17046e33a53da5c99721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:53 +0000
Subject: [PATCH 18/60] fix: serve all the multiplexed protocols when one fails
 or is being added

---
 src/ossia/network/local/local.cpp | 96 ++++++++++++++++++++-----------
 src/ossia/network/local/local.hpp |  7 +++
 2 files changed, 68 insertions(+), 35 deletions(-)

diff --git a/src/ossia/network/local/local.cpp b/src/ossia/network/local/local.cpp
index c03ebf1..caa887b 100644
--- a/src/ossia/network/local/local.cpp
+++ b/src/ossia/network/local/local.cpp
@@ -33,6 +33,44 @@ multiplex_protocol::~multiplex_protocol()
 {
 }
 
+template <typename F>
+bool multiplex_protocol::for_each_protocol(F f)
+{
+  bool b = true;
+  std::exception_ptr error;
+  {
+    read_lock_t lock{m_mutex};
+    for (auto& proto : m_protocols)
+    {
+      // A protocol which fails must not prevent the others from working
+      try
+      {
+        b &= f(*proto);
+      }
+      catch (...)
+      {
+        if (!error)
+          error = std::current_exception();
+      }
+    }
+  }
+
+  if (error)
+    std::rethrow_exception(error);
+  return b;
+}
+
+void multiplex_protocol::add_protocol(std::unique_ptr<protocol_base> p)
+{
+  p->set_device(*m_device);
+
+  // Expose all the adresses with callbacks
+  observe_rec(*p, m_device->get_root_node());
+
+  write_lock_t lock{m_mutex};
+  m_protocols.push_back(std::move(p));
+}
+
 bool multiplex_protocol::pull(ossia::net::parameter_base& address)
 {
   return false;
@@ -40,30 +78,18 @@ bool multiplex_protocol::pull(ossia::net::parameter_base& address)
 
 bool multiplex_protocol::push(const ossia::net::parameter_base& address, const ossia::value& v)
 {
-  bool b = true;
-  for (auto& proto : m_protocols)
-    b &= proto->push(address, v);
-
-  return b;
+  return for_each_protocol([&](protocol_base& proto) { return proto.push(address, v); });
 }
 
 bool multiplex_protocol::push_raw(const full_parameter_data& dat)
 {
-  bool b = true;
-  for (auto& proto : m_protocols)
-    b &= proto->push_raw(dat);
-
-  return b;
+  return for_each_protocol([&](protocol_base& proto) { return proto.push_raw(dat); });
 }
 
 bool multiplex_protocol::observe(
     ossia::net::parameter_base& address, bool enable)
 {
-  bool b = true;
-  for (auto& proto : m_protocols)
-    b &= proto->observe_quietly(address, enable);
-
-  return b;
+  return for_each_protocol([&](protocol_base& proto) { return proto.observe_quietly(address, enable); });
 }
 
 bool multiplex_protocol::update(ossia::net::node_base& node)
@@ -73,16 +99,12 @@ bool multiplex_protocol::update(ossia::net::node_base& node)
 
 bool multiplex_protocol::echo_incoming_message(const message_origin_identifier& id, const parameter_base& param, const value& v)
 {
-  bool b = true;
-  for (auto& proto : m_protocols)
-    b &= proto->echo_incoming_message(id, param, v);
-  return b;
+  return for_each_protocol([&](protocol_base& proto) { return proto.echo_incoming_message(id, param, v); });
 }
 
 void multiplex_protocol::stop()
 {
-  for (auto& proto : m_protocols)
-    proto->stop();
+  for_each_protocol([](protocol_base& proto) { proto.stop(); return true; });
 }
 
 void multiplex_protocol::set_device(device_base& dev)
@@ -90,12 +112,7 @@ void multiplex_protocol::set_device(device_base& dev)
   m_device = &dev;
   for(auto& p : m_protocols_to_register)
   {
-    p->set_device(*m_device);
-
-    // Expose all the adresses with callbacks
-    observe_rec(*p, m_device->get_root_node());
-
-    m_protocols.push_back(std::move(p));
+    add_protocol(std::move(p));
   }
   m_protocols_to_register.clear();
 }
@@ -112,12 +129,7 @@ void multiplex_protocol::expose_to(std::unique_ptr<protocol_base> p)
 
     if(m_device)
     {
-      p->set_device(*m_device);
-
-      // Expose all the adresses with callbacks
-      observe_rec(*p, m_device->get_root_node());
-
-      m_protocols.push_back(std::move(p));
+      add_protocol(std::move(p));
     }
     else
     {
@@ -129,11 +141,25 @@ void multiplex_protocol::expose_to(std::unique_ptr<protocol_base> p)
 void multiplex_protocol::stop_expose_to(const protocol_base& p)
 {
   ossia::remove_erase_if(m_protocols_to_register, [&](const auto& ptr) { return ptr.get() == &p; });
-  ossia::remove_erase_if(m_protocols, [&](const auto& ptr) { return ptr.get() == &p; });
+
+  std::unique_ptr<protocol_base> removed;
+  {
+    write_lock_t lock{m_mutex};
+    auto it = ossia::find_if(m_protocols, [&](const auto& ptr) { return ptr.get() == &p; });
+    if (it != m_protocols.end())
+    {
+      removed = std::move(*it);
+      m_protocols.erase(it);
+    }
+  }
 }
 
 void ossia::net::multiplex_protocol::clear()
 {
-  m_protocols.clear();
+  std::vector<std::unique_ptr<protocol_base>> removed;
+  {
+    write_lock_t lock{m_mutex};
+    removed.swap(m_protocols);
+  }
 }
 }
diff --git a/src/ossia/network/local/local.hpp b/src/ossia/network/local/local.hpp
index ea37c29..b7252f0 100644
--- a/src/ossia/network/local/local.hpp
+++ b/src/ossia/network/local/local.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <ossia/detail/algorithms.hpp>
+#include <ossia/detail/mutex.hpp>
 #include <ossia/network/base/protocol.hpp>
 
 #include <vector>
@@ -63,6 +64,12 @@ public:
   }
 
 private:
+  template <typename F>
+  bool for_each_protocol(F f);
+  void add_protocol(std::unique_ptr<ossia::net::protocol_base> p);
+
+  // Protocols can be added and removed while messages are sent and received
+  mutable ossia::shared_mutex_t m_mutex;
   std::vector<std::unique_ptr<ossia::net::protocol_base>> m_protocols;
   std::vector<std::unique_ptr<ossia::net::protocol_base>> m_protocols_to_register;
   ossia::net::device_base* m_device{};
-- 
2.43.0


From 69d1bcc4e6c9e92ddf38e8f5d50d3fbde36ad064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 19/60] fix: apply the duration set on a rate-limited protocol

---
 src/ossia/network/rate_limiting_protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index d8f884a..9b0d696 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -12,10 +12,10 @@ struct rate_limiter
   void operator()() const noexcept {
     using namespace std::literals;
     using clock = rate_limiting_protocol::clock;
-    const auto duration = self.m_duration.load();
-    thread_local auto time_to_sleep = duration;
+    auto time_to_sleep = self.m_duration.load();
     while(self.m_running)
     {
+      const auto duration = self.m_duration.load();
       try {
         auto prev_time = clock::now();
         if(time_to_sleep > 1ms)
-- 
2.43.0


From 1613ea1f67717850e5953b27119daa2fbe82c9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 20/60] fix: a message which cannot be sent does not block the
 other rate-limited ones

---
 src/ossia/network/rate_limiting_protocol.cpp | 31 ++++++++------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index 9b0d696..a6a136e 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -39,33 +39,26 @@ struct rate_limiter
           }
         }
 
-        // Push the actual messages
+        // Push the actual messages. The containers are not cleared, this keeps
+        // memory allocated for sent messages so that it stays fast.
         for(auto& v : self.m_threadMessages.container)
-        {
-          auto val = v.second.first;
-          if(val.valid())
-          {
-            self.m_protocol->push(*v.first, v.second.first);
-          }
-        }
-
-        // Clear both containers (while keeping memory allocated for sent messages
-        // so that it stays fast)
-        for(auto& v : self.m_buffer.container)
         {
           if(v.second.first.valid())
           {
+            auto val = std::move(v.second.first);
             v.second.first = ossia::value{};
-          }
-        }
 
-        for(auto& v : self.m_threadMessages.container)
-        {
-          if(v.second.first.valid())
-          {
-            v.second.first = ossia::value{};
+            // A message which cannot be sent must not block the others
+            try
+            {
+              self.m_protocol->push(*v.first, val);
+            }
+            catch(...)
+            {
+            }
           }
         }
+
         auto new_time = clock::now();
         auto observed_duration = std::chrono::duration_cast<std::chrono::milliseconds>(new_time - prev_time);
         if(observed_duration > duration)
-- 
2.43.0


From 5acbec0c859fb8b45807b693f9d12804ceb3927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 21/60] fix: echo messages through rate-limited protocols

---
 src/ossia/network/rate_limiting_protocol.cpp | 14 ++++++++++++++
 src/ossia/network/rate_limiting_protocol.hpp |  2 ++
 2 files changed, 16 insertions(+)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index a6a136e..d47f203 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -128,6 +128,20 @@ bool rate_limiting_protocol::observe(
   return m_protocol->observe(address, enable);
 }
 
+bool rate_limiting_protocol::observe_quietly(
+    ossia::net::parameter_base& address, bool enable)
+{
+  return m_protocol->observe_quietly(address, enable);
+}
+
+bool rate_limiting_protocol::echo_incoming_message(
+    const message_origin_identifier& id, const parameter_base& address, const ossia::value& v)
+{
+  if(&id.protocol == m_protocol.get())
+    return true;
+  return push(address, v);
+}
+
 bool rate_limiting_protocol::update(ossia::net::node_base& node)
 {
   return m_protocol->update(node);
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index aebfc9a..95ff6f7 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -28,6 +28,8 @@ private:
   bool push(const ossia::net::parameter_base& addr, const ossia::value& v) override;
   bool push_raw(const full_parameter_data&) override;
   bool observe(ossia::net::parameter_base&, bool) override;
+  bool observe_quietly(ossia::net::parameter_base&, bool) override;
+  bool echo_incoming_message(const message_origin_identifier&, const parameter_base&, const ossia::value& v) override;
   bool update(ossia::net::node_base& node_base) override;
 
   void set_logger(const network_logger& l) override;
-- 
2.43.0


From 4f7775e58c8ba9fbc169e0eded1d841523b2db18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:11 +0000
Subject: [PATCH 22/60] fix: do not send removed parameters from the rate
 limiter

---
 src/ossia/network/rate_limiting_protocol.cpp | 14 ++++++++++++--
 src/ossia/network/rate_limiting_protocol.hpp |  4 ++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/rate_limiting_protocol.cpp b/src/ossia/network/rate_limiting_protocol.cpp
index d47f203..02b4978 100644
--- a/src/ossia/network/rate_limiting_protocol.cpp
+++ b/src/ossia/network/rate_limiting_protocol.cpp
@@ -21,9 +21,9 @@ struct rate_limiter
         if(time_to_sleep > 1ms)
           std::this_thread::sleep_for(time_to_sleep);
 
-        // TODO find safe way to handle if a parameter is removed
-        // TODO instead we should do the value filtering in the parameter ...
+        // TODO we should do the value filtering in the parameter ...
         // but still have to handle cases that can be optimized, such as midi
+        std::lock_guard send_lock{self.m_sendMutex};
         {
           std::lock_guard lock{self.m_msgMutex};
           std::swap(self.m_buffer, self.m_userMessages);
@@ -165,7 +165,17 @@ void rate_limiting_protocol::stop()
 void rate_limiting_protocol::set_device(device_base& dev)
 {
   m_device = &dev;
+  dev.on_parameter_removing.connect<&rate_limiting_protocol::parameter_removed>(*this);
   m_protocol->set_device(dev);
 }
 
+void rate_limiting_protocol::parameter_removed(const parameter_base& b)
+{
+  std::lock_guard send_lock{m_sendMutex};
+  std::lock_guard lock{m_msgMutex};
+  m_userMessages.erase(&b);
+  m_buffer.erase(&b);
+  m_threadMessages.erase(&b);
+}
+
 }
diff --git a/src/ossia/network/rate_limiting_protocol.hpp b/src/ossia/network/rate_limiting_protocol.hpp
index 95ff6f7..cbe613b 100644
--- a/src/ossia/network/rate_limiting_protocol.hpp
+++ b/src/ossia/network/rate_limiting_protocol.hpp
@@ -14,6 +14,7 @@ namespace ossia::net
 struct rate_limiter;
 class OSSIA_EXPORT rate_limiting_protocol final
     : public ossia::net::protocol_base
+    , public Nano::Observer
 {
 public:
   using clock = std::chrono::high_resolution_clock;
@@ -61,6 +62,9 @@ private:
   map_t m_buffer;
   map_t m_threadMessages;
   std::mutex m_msgMutex;
+
+  // Held while the messages are sent: the parameters have to outlive this
+  std::mutex m_sendMutex;
 };
 
 template<typename Protocol, typename... Args>
-- 
2.43.0


From 418a234ddcc5c2b3d8516a95e1c0ec8cc1279afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:17 +0000
Subject: [PATCH 23/60] fix: limit how deep received OSC arrays nest

---
 src/ossia/network/osc/detail/osc.hpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/osc/detail/osc.hpp b/src/ossia/network/osc/detail/osc.hpp
index c8c3284..5feb9f1 100644
--- a/src/ossia/network/osc/detail/osc.hpp
+++ b/src/ossia/network/osc/detail/osc.hpp
@@ -13,6 +13,8 @@
 // see
 // http://stackoverflow.com/questions/23437778/comparing-3-modern-c-ways-to-convert-integral-values-to-strings
 #include <boost/lexical_cast.hpp>
+
+#include <stdexcept>
 namespace ossia
 {
 namespace net
@@ -206,9 +208,16 @@ struct osc_utilities
   }
 
 
+  // Arrays nested deeper than this are not accepted: each level of nesting is
+  // a level of recursion here, and in everything that processes the value.
+  static constexpr int max_array_depth = 64;
+
   static std::vector<ossia::value> create_list_(
-      oscpack::ReceivedMessageArgumentIterator& it, oscpack::ReceivedMessageArgumentIterator& end)
+      oscpack::ReceivedMessageArgumentIterator& it, oscpack::ReceivedMessageArgumentIterator& end, int depth = 0)
   {
+    if (depth > max_array_depth)
+      throw std::runtime_error("OSC arrays are nested too deeply");
+
     std::vector<ossia::value> t;
     for (; it != end; ++it)
     {
@@ -247,7 +256,7 @@ struct osc_utilities
         case oscpack::ARRAY_BEGIN_TYPE_TAG:
         {
           ++it;
-          t.push_back(create_list_(it, end));
+          t.push_back(create_list_(it, end, depth + 1));
           break;
         }
         case oscpack::ARRAY_END_TYPE_TAG:
-- 
2.43.0


From 8f0c8c38df53200bcfb39c6d70c0a0ba76b7f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 24/60] fix: bound the patterns which are compiled for received
 messages

---
 src/ossia/network/base/node_functions.cpp | 19 +++++++++++++++++--
 src/ossia/network/base/node_functions.hpp |  4 ++++
 src/ossia/network/common/path.cpp         | 10 +++++++++-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 4a20c9c..190acc7 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -12,7 +12,9 @@
 #include <bitset>
 #include <iostream>
 #include <iterator>
+#include <limits>
 #include <regex>
+#include <stdexcept>
 #include <string>
 #include <utility>
 #include <vector>
@@ -392,6 +394,16 @@ List expand(const Range& range)
 
 void expand_ranges(std::string& str)
 {
+  expand_ranges(str, std::numeric_limits<std::size_t>::max());
+}
+
+void expand_ranges(std::string& str, std::size_t max_size)
+{
+  const auto check_size = [max_size](const std::string& s) {
+    if (s.size() > max_size)
+      throw std::length_error("expand_ranges: the expansion is too large");
+  };
+
   {
     static const std::regex reg{
         R"_(\{(-?[0-9]+)\.\.(-?[0-9]+)\.\.(-?[0-9]+)\})_"};
@@ -423,13 +435,13 @@ void expand_ranges(std::string& str)
     for (auto it = positions.rbegin(); it != positions.rend(); ++it)
     {
       std::string rep{"{"};
-      rep.reserve(3 * std::abs((it->last - it->first) / it->increment));
       if (it->increment > 0)
       {
         for (int64_t v = it->first; v <= it->last; v += it->increment)
         {
           rep += std::to_string(v);
           rep += ',';
+          check_size(rep);
         }
       }
       else
@@ -438,6 +450,7 @@ void expand_ranges(std::string& str)
         {
           rep += std::to_string(v);
           rep += ',';
+          check_size(rep);
         }
       }
 
@@ -445,6 +458,7 @@ void expand_ranges(std::string& str)
       {
         rep.back() = '}';
         str.replace(it->start, it->length, rep);
+        check_size(str);
       }
     }
   }
@@ -481,18 +495,19 @@ void expand_ranges(std::string& str)
       else
       {
         std::string rep;
-        rep.reserve(3 * std::abs((it->last - it->first)) + 2);
         rep.push_back('{');
         for (int64_t v = it->first; v <= it->last; v++)
         {
           rep += std::to_string(v);
           rep += ',';
+          check_size(rep);
         }
 
         if (rep.back() == ',')
         {
           rep.back() = '}';
           str.replace(it->start, it->length, rep);
+          check_size(str);
         }
       }
     }
diff --git a/src/ossia/network/base/node_functions.hpp b/src/ossia/network/base/node_functions.hpp
index 4cd7399..3a8f0ba 100644
--- a/src/ossia/network/base/node_functions.hpp
+++ b/src/ossia/network/base/node_functions.hpp
@@ -127,6 +127,10 @@ operator<<(std::ostream&, const ossia::net::parameter_base&);
 OSSIA_EXPORT
 void expand_ranges(std::string& str);
 
+//! Same, but throws std::length_error when the result would be larger than max_size
+OSSIA_EXPORT
+void expand_ranges(std::string& str, std::size_t max_size);
+
 /**
  * @brief list_all_children : list all child nodes recursively
  * @param node : starting point
diff --git a/src/ossia/network/common/path.cpp b/src/ossia/network/common/path.cpp
index 5cb23af..8fc8786 100644
--- a/src/ossia/network/common/path.cpp
+++ b/src/ossia/network/common/path.cpp
@@ -15,6 +15,7 @@
 #include <tsl/hopscotch_set.h>
 
 #include <regex>
+#include <stdexcept>
 
 namespace ossia
 {
@@ -193,9 +194,16 @@ std::string substitute_characters(const std::string& part)
 
 std::regex make_regex(std::string& part)
 {
+  // std::regex is recursive, and the patterns can come from the network: they
+  // must not be able to exhaust the stack, nor the memory.
+  static constexpr std::size_t max_part_size = 1024;
+  static constexpr std::size_t max_expanded_size = 16384;
+  if (part.size() > max_part_size)
+    throw std::length_error("make_regex: the pattern is too long");
+
   // Perform the various regex-like replacements
   // note: seriously, don't do this with regex if possible
-  net::expand_ranges(part);
+  net::expand_ranges(part, max_expanded_size);
   std::string res = "^";
   res += substitute_characters(part);
   res += "$";
-- 
2.43.0


From 013ff7e21187376e43ccbe546956dd13d09c40ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:29 +0000
Subject: [PATCH 25/60] fix: expand ranges whose increment is negative
 downwards, and terminate

---
 src/ossia/network/base/node_functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/network/base/node_functions.cpp b/src/ossia/network/base/node_functions.cpp
index 190acc7..383a53a 100644
--- a/src/ossia/network/base/node_functions.cpp
+++ b/src/ossia/network/base/node_functions.cpp
@@ -446,7 +446,7 @@ void expand_ranges(std::string& str, std::size_t max_size)
       }
       else
       {
-        for (int64_t v = it->last; v <= it->first; v += it->increment)
+        for (int64_t v = it->last; v >= it->first; v += it->increment)
         {
           rep += std::to_string(v);
           rep += ',';
-- 
2.43.0


From f99600d0e54837fe60c390d0f6241349aac86589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:38 +0000
Subject: [PATCH 26/60] fix: a size prefix for which there is not enough memory
 fails its stream

---
 src/ossia/detail/pod_vector.hpp                   |  8 ++++++--
 src/ossia/network/sockets/size_prefix_framing.hpp | 13 ++++++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/ossia/detail/pod_vector.hpp b/src/ossia/detail/pod_vector.hpp
index 9ef9134..4bbdbce 100644
--- a/src/ossia/detail/pod_vector.hpp
+++ b/src/ossia/detail/pod_vector.hpp
@@ -2,6 +2,7 @@
 #include <cinttypes>
 #include <cstddef>
 #include <cstdlib>
+#include <new>
 #include <vector>
 
 #include <type_traits>
@@ -55,14 +56,17 @@ struct pod_allocator
   pod_allocator& operator=(const pod_allocator&) noexcept = default;
   pod_allocator& operator=(pod_allocator&&) noexcept = default;
 
-  static inline T* allocate(std::size_t num) noexcept
+  static inline T* allocate(std::size_t num)
   {
     static_assert(std::is_standard_layout_v<T> && std::is_trivial_v<T>, "can only be used with POD types");
     static_assert(
         alignof(T) <= alignof(std::max_align_t),
         "type must not have specific alignment requirements");
 
-    return (T*)std::malloc(sizeof(T) * num);
+    if (auto ptr = std::malloc(sizeof(T) * num))
+      return (T*)ptr;
+
+    throw std::bad_alloc{};
   }
 
   static inline void deallocate(T* p, std::size_t) noexcept
diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index 289fc77..a82bcb1 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -8,6 +8,8 @@
 
 #include <boost/endian/conversion.hpp>
 
+#include <new>
+
 namespace ossia::net
 {
 
@@ -46,7 +48,16 @@ struct size_prefix_decoder
     if (m_next_packet_size <= 0)
       return;
 
-    m_data.resize(m_next_packet_size);
+    try
+    {
+      m_data.resize(m_next_packet_size);
+    }
+    catch (const std::bad_alloc&)
+    {
+      f.validate_stream(boost::asio::error::no_memory);
+      return;
+    }
+
     boost::asio::async_read(socket,
         boost::asio::buffer(m_data.data(), m_next_packet_size),
         boost::asio::transfer_exactly(m_next_packet_size),
-- 
2.43.0


From 5e0a181b826ef287b3d42845a766ac0582436d56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 27/60] fix: do not use deleted sockets from handlers which are
 already queued

---
 src/ossia/network/sockets/framing.hpp         | 12 +++++-
 src/ossia/network/sockets/lifetime.hpp        | 41 +++++++++++++++++++
 .../network/sockets/size_prefix_framing.hpp   | 24 +++++++++--
 src/ossia/network/sockets/slip_framing.hpp    |  7 +++-
 src/ossia/network/sockets/tcp_socket.hpp      |  7 +++-
 src/ossia/network/sockets/udp_socket.hpp      | 20 ++++++---
 src/ossia/network/sockets/unix_socket.hpp     | 20 ++++++---
 7 files changed, 113 insertions(+), 18 deletions(-)
 create mode 100644 src/ossia/network/sockets/lifetime.hpp

diff --git a/src/ossia/network/sockets/framing.hpp b/src/ossia/network/sockets/framing.hpp
index 81e4b80..090467c 100644
--- a/src/ossia/network/sockets/framing.hpp
+++ b/src/ossia/network/sockets/framing.hpp
@@ -1,4 +1,5 @@
 ﻿#pragma once
+#include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/network/sockets/tcp_socket.hpp>
 #include <ossia/network/sockets/udp_socket.hpp>
 #include <ossia/network/sockets/unix_socket.hpp>
@@ -51,7 +52,10 @@ public:
   template <typename F>
   void close(F f)
   {
-    this->m_context.post([this, f] {
+    this->m_context.post([this, f, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       std::lock_guard<std::mutex> lck{m_socketsMutex};
       for(auto& sock : m_sockets)
       {
@@ -65,7 +69,10 @@ public:
   void listen(F f)
   {
     this->m_acceptor.async_accept(
-        [this, f = std::move(f)](std::error_code ec, socket socket) {
+        [this, f = std::move(f), life = m_life.observe()](std::error_code ec, socket socket) {
+          if (life.expired())
+            return;
+
           if (!ec)
           {
             auto client = std::make_unique<listener>(std::move(socket), f);
@@ -99,6 +106,7 @@ public:
   std::vector<std::unique_ptr<listener>> m_sockets;
   std::mutex m_socketsMutex;
   std::mutex m_writeMutex;
+  lifetime_token m_life;
 };
 
 template<typename Base, typename Framing>
diff --git a/src/ossia/network/sockets/lifetime.hpp b/src/ossia/network/sockets/lifetime.hpp
new file mode 100644
index 0000000..4af8b6f
--- /dev/null
+++ b/src/ossia/network/sockets/lifetime.hpp
@@ -0,0 +1,41 @@
+#pragma once
+#include <memory>
+
+namespace ossia::net
+{
+/**
+ * @brief Tells asynchronous handlers if the object they refer to still exists
+ *
+ * A handler which is already queued in the io_context, successful or aborted,
+ * still runs after the object that started its operation is deleted. As all of
+ * this happens in the thread of the io_context, it only has to check first.
+ */
+class lifetime_token
+{
+public:
+  lifetime_token() = default;
+  lifetime_token(const lifetime_token&) = delete;
+  lifetime_token(lifetime_token&&) = delete;
+  lifetime_token& operator=(const lifetime_token&) = delete;
+  lifetime_token& operator=(lifetime_token&&) = delete;
+
+  class observer
+  {
+  public:
+    explicit observer(const std::shared_ptr<char>& token) noexcept
+        : m_token{token}
+    {
+    }
+
+    bool expired() const noexcept { return m_token.expired(); }
+
+  private:
+    std::weak_ptr<char> m_token;
+  };
+
+  observer observe() const noexcept { return observer{m_token}; }
+
+private:
+  std::shared_ptr<char> m_token{std::make_shared<char>()};
+};
+}
diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index a82bcb1..f035a43 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/network/sockets/writers.hpp>
 #include <boost/asio/read.hpp>
 #include <boost/asio/write.hpp>
@@ -19,6 +20,7 @@ struct size_prefix_decoder
   Socket& socket;
   int32_t m_next_packet_size {};
   ossia::pod_vector<char> m_data;
+  lifetime_token m_life;
 
   explicit size_prefix_decoder(Socket& socket)
       : socket{socket}
@@ -26,14 +28,25 @@ struct size_prefix_decoder
     m_data.reserve(65535);
   }
 
+  // Stops reading when the socket does not exist anymore
+  auto transfer_exactly(std::size_t size) const
+  {
+    return [size, life = m_life.observe()] (boost::system::error_code ec, std::size_t sz) -> std::size_t {
+      return ec || life.expired() || sz >= size ? 0 : size - sz;
+    };
+  }
+
   template <typename F>
   void receive(F f)
   {
     // Receive the size prefix. It can arrive in more than one segment.
     boost::asio::async_read(socket,
         boost::asio::buffer(&m_next_packet_size, sizeof(int32_t)),
-        boost::asio::transfer_exactly(sizeof(int32_t)),
-        [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
+        transfer_exactly(sizeof(int32_t)),
+        [this, f = std::move(f), life = m_life.observe()] (boost::system::error_code ec, std::size_t sz) mutable {
+          if(life.expired())
+            return;
+
           read_size(std::move(f), ec, sz);
         });
   }
@@ -60,8 +73,11 @@ struct size_prefix_decoder
 
     boost::asio::async_read(socket,
         boost::asio::buffer(m_data.data(), m_next_packet_size),
-        boost::asio::transfer_exactly(m_next_packet_size),
-        [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
+        transfer_exactly(m_next_packet_size),
+        [this, f = std::move(f), life = m_life.observe()] (boost::system::error_code ec, std::size_t sz) mutable {
+          if(life.expired())
+            return;
+
           read_data(std::move(f), ec, sz);
         });
   }
diff --git a/src/ossia/network/sockets/slip_framing.hpp b/src/ossia/network/sockets/slip_framing.hpp
index cd38bde..fc55c5b 100644
--- a/src/ossia/network/sockets/slip_framing.hpp
+++ b/src/ossia/network/sockets/slip_framing.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <ossia/detail/pod_vector.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/network/sockets/writers.hpp>
 #include <boost/asio/read.hpp>
 #include <boost/asio/write.hpp>
@@ -23,6 +24,7 @@ struct slip_decoder
   Socket& socket;
   boost::asio::streambuf m_data;
   ossia::pod_vector<char> m_decoded;
+  lifetime_token m_life;
   enum { waiting, reading_char, reading_esc } m_status{waiting};
 
   explicit slip_decoder(Socket& socket)
@@ -36,7 +38,10 @@ struct slip_decoder
   {
     socket.async_read_some(
         boost::asio::buffer(m_data.prepare(1024)),
-        [this, f = std::move(f)] (boost::system::error_code ec, std::size_t sz) mutable {
+        [this, f = std::move(f), life = m_life.observe()] (boost::system::error_code ec, std::size_t sz) mutable {
+          if(life.expired())
+            return;
+
           if(!f.validate_stream(ec))
             return;
 
diff --git a/src/ossia/network/sockets/tcp_socket.hpp b/src/ossia/network/sockets/tcp_socket.hpp
index e954c4e..d1762ee 100644
--- a/src/ossia/network/sockets/tcp_socket.hpp
+++ b/src/ossia/network/sockets/tcp_socket.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <ossia/network/sockets/configuration.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <boost/asio/io_context.hpp>
 #include <boost/asio/ip/tcp.hpp>
 #include <boost/asio/ip/udp.hpp>
@@ -94,7 +95,10 @@ public:
 
   void close()
   {
-    m_context.post([this] {
+    m_context.post([this, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       m_socket.close();
       on_close();
     });
@@ -113,5 +117,6 @@ public:
   proto::endpoint m_endpoint;
   proto::socket m_socket;
   bool m_connected{false};
+  lifetime_token m_life;
 };
 }
diff --git a/src/ossia/network/sockets/udp_socket.hpp b/src/ossia/network/sockets/udp_socket.hpp
index b28e360..82c6151 100644
--- a/src/ossia/network/sockets/udp_socket.hpp
+++ b/src/ossia/network/sockets/udp_socket.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <ossia/network/sockets/configuration.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <boost/asio/io_context.hpp>
 #include <boost/asio/ip/udp.hpp>
 #include <boost/asio/write.hpp>
@@ -31,7 +32,10 @@ public:
 
   void close()
   {
-    m_context.post([this] {
+    m_context.post([this, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       m_socket.close();
       on_close();
     });
@@ -42,8 +46,8 @@ public:
   {
     m_socket.async_receive_from(
         boost::asio::buffer(m_data), m_endpoint,
-        [this, f](auto ec, std::size_t sz) {
-          if (ec == boost::asio::error::operation_aborted)
+        [this, f, life = m_life.observe()](auto ec, std::size_t sz) {
+          if (ec == boost::asio::error::operation_aborted || life.expired())
             return;
 
           if (!ec && sz > 0)
@@ -62,7 +66,8 @@ public:
             }
           }
 
-          this->receive(f);
+          if (!life.expired())
+            this->receive(f);
         });
   }
 
@@ -72,6 +77,7 @@ public:
   proto::endpoint m_endpoint;
   proto::socket m_socket;
   alignas(16) char m_data[65535];
+  lifetime_token m_life;
 };
 
 class udp_send_socket
@@ -99,7 +105,10 @@ public:
 
   void close()
   {
-    m_context.post([this] {
+    m_context.post([this, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       m_socket.close();
       on_close();
     });
@@ -115,6 +124,7 @@ public:
   boost::asio::io_context& m_context;
   proto::endpoint m_endpoint;
   proto::socket m_socket;
+  lifetime_token m_life;
 };
 
 }
diff --git a/src/ossia/network/sockets/unix_socket.hpp b/src/ossia/network/sockets/unix_socket.hpp
index b4402e8..0319b78 100644
--- a/src/ossia/network/sockets/unix_socket.hpp
+++ b/src/ossia/network/sockets/unix_socket.hpp
@@ -1,6 +1,7 @@
 #pragma once
 #include <ossia/detail/logger.hpp>
 #include <ossia/network/sockets/configuration.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <boost/asio/io_context.hpp>
 #include <boost/asio/ip/udp.hpp>
 #include <boost/asio/write.hpp>
@@ -38,7 +39,10 @@ public:
 
   void close()
   {
-    m_context.post([this] {
+    m_context.post([this, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       m_socket.close();
       on_close();
     });
@@ -49,8 +53,8 @@ public:
   {
     m_socket.async_receive_from(
         boost::asio::buffer(m_data), m_endpoint,
-        [this, f](boost::system::error_code ec, std::size_t sz) {
-          if (ec == boost::asio::error::operation_aborted)
+        [this, f, life = m_life.observe()](boost::system::error_code ec, std::size_t sz) {
+          if (ec == boost::asio::error::operation_aborted || life.expired())
             return;
 
           if (!ec && sz > 0)
@@ -62,7 +66,8 @@ public:
             {
             }
 
-          this->receive(f);
+          if (!life.expired())
+            this->receive(f);
         });
   }
 
@@ -77,6 +82,7 @@ public:
   proto::endpoint m_endpoint;
   proto::socket m_socket;
   alignas(16) char m_data[65535];
+  lifetime_token m_life;
 };
 
 class unix_stream_listener
@@ -163,7 +169,10 @@ public:
 
   void close()
   {
-    m_context.post([this] {
+    m_context.post([this, life = m_life.observe()] {
+      if (life.expired())
+        return;
+
       m_socket.close();
       on_close();
     });
@@ -182,6 +191,7 @@ public:
   proto::endpoint m_endpoint;
   proto::socket m_socket;
   bool m_connected{false};
+  lifetime_token m_life;
 };
 #endif
 }
-- 
2.43.0


From c60d59939046223c35caebc7f33d46a50f6e1027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:44 +0000
Subject: [PATCH 28/60] fix: deleting a websocket server or client leaves its
 context running

A context which was given is shared with other protocols: it must not be
stopped, and handlers of the deleted object may still be queued in it.
---
 src/ossia/network/sockets/websocket.hpp       | 37 ++++++--
 .../network/sockets/websocket_client.hpp      | 95 +++++++++++++------
 .../network/sockets/websocket_server.hpp      | 64 +++++++++++--
 3 files changed, 155 insertions(+), 41 deletions(-)

diff --git a/src/ossia/network/sockets/websocket.hpp b/src/ossia/network/sockets/websocket.hpp
index 872a1f7..bcb6849 100644
--- a/src/ossia/network/sockets/websocket.hpp
+++ b/src/ossia/network/sockets/websocket.hpp
@@ -21,7 +21,7 @@ struct websocket_simple_client : websocket_client
       : ossia::net::websocket_client{}
       , m_host{conf.url}
   {
-    m_client.init_asio(&ctx);
+    init_asio(ctx);
   }
 
   void connect()
@@ -31,8 +31,11 @@ struct websocket_simple_client : websocket_client
   template <typename F>
   void receive(F onMessage) {
     m_client.set_message_handler(
-        [handler = std::move(onMessage)](
+        [handler = std::move(onMessage), life = m_life.observe()](
             connection_handler hdl, client_t::message_ptr msg) {
+          if (life.expired())
+            return;
+
           const auto& data = msg->get_raw_payload();
           handler(data.data(), data.size());
         });
@@ -49,8 +52,9 @@ struct websocket_simple_client : websocket_client
 
   void close()
   {
-    m_client.get_io_service().post([this] {
-      websocket_client::stop();
+    m_client.get_io_service().post([this, life = m_life.observe()] {
+      if (!life.expired())
+        websocket_client::stop();
     });
   }
 
@@ -75,12 +79,27 @@ struct websocket_simple_server: ossia::net::websocket_server
     });
   }
 
+  ~websocket_simple_server()
+  {
+    disconnect_all();
+  }
+
+  void disconnect_all()
+  {
+    std::lock_guard<std::mutex> lock{m_listenersMutex};
+    for(auto& listener : m_listeners)
+      disconnect(listener);
+  }
+
   template <typename F>
   void listen(F onMessage)
   {
     m_server.set_message_handler(
-        [handler = std::move(onMessage)](
+        [handler = std::move(onMessage), life = m_life.observe()](
             connection_handler hdl, server_t::message_ptr msg) {
+          if (life.expired())
+            return;
+
           const auto& data = msg->get_raw_payload();
           handler(data.data(), data.size());
         });
@@ -100,8 +119,12 @@ struct websocket_simple_server: ossia::net::websocket_server
 
   void close()
   {
-    m_server.get_io_service().post([this] {
-      stop();
+    m_server.get_io_service().post([this, life = m_life.observe()] {
+      if (!life.expired())
+      {
+        disconnect_all();
+        stop();
+      }
     });
   }
 
diff --git a/src/ossia/network/sockets/websocket_client.hpp b/src/ossia/network/sockets/websocket_client.hpp
index 39af85b..5f3a8ee 100644
--- a/src/ossia/network/sockets/websocket_client.hpp
+++ b/src/ossia/network/sockets/websocket_client.hpp
@@ -3,6 +3,7 @@
 
 #include <ossia/detail/json.hpp>
 #include <ossia/detail/logger.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 
 #include <nano_signal_slot.hpp>
 #include <websocketpp/client.hpp>
@@ -28,29 +29,6 @@ public:
   {
     m_client.clear_access_channels(websocketpp::log::alevel::all);
     m_client.clear_error_channels(websocketpp::log::elevel::all);
-
-    m_client.set_open_handler([this](connection_handler hdl) {
-      scoped_lock guard(m_lock);
-      m_open = true;
-
-      on_open();
-    });
-
-    m_client.set_close_handler([this](connection_handler hdl) {
-      {
-        scoped_lock guard(m_lock);
-        m_open = false;
-      }
-      on_close();
-    });
-
-    m_client.set_fail_handler([this](connection_handler hdl) {
-      {
-        scoped_lock guard(m_lock);
-        m_open = false;
-      }
-      on_fail();
-    });
   }
   //! \tparam Function that will be called when the client receives a server
   //! message.
@@ -71,11 +49,14 @@ public:
   websocket_client(boost::asio::io_context& ctx, MessageHandler&& onMessage)
     : websocket_client{}
   {
-    m_client.init_asio(&ctx);
+    init_asio(ctx);
 
     m_client.set_message_handler(
-        [handler = std::move(onMessage)](
+        [handler = std::move(onMessage), life = m_life.observe()](
             connection_handler hdl, client_t::message_ptr msg) {
+          if (life.expired())
+            return;
+
           handler(hdl, msg->get_opcode(), msg->get_raw_payload());
         });
   }
@@ -95,13 +76,16 @@ public:
   {
     if (!m_open)
     {
-      m_client.stop();
+      // A context which was given is shared with others: it has to go on
+      if (!m_external_context)
+        m_client.stop();
       m_connected = false;
       return;
     }
 
     scoped_lock guard(m_lock);
-    m_client.close(m_hdl, websocketpp::close::status::normal, "");
+    websocketpp::lib::error_code ec;
+    m_client.close(m_hdl, websocketpp::close::status::normal, "", ec);
     m_open = false;
   }
 
@@ -131,6 +115,52 @@ public:
       return;
     }
 
+    // The operations of the connection can outlive this object
+    std::shared_ptr<client_t> client;
+    if (m_external_context)
+      client = m_client_ptr;
+
+    con->set_open_handler(
+        [this, client, life = m_life.observe()](connection_handler hdl) {
+          if (life.expired())
+          {
+            websocketpp::lib::error_code ec;
+            if (client)
+              client->close(hdl, websocketpp::close::status::normal, "", ec);
+            return;
+          }
+
+          {
+            scoped_lock guard(m_lock);
+            m_open = true;
+          }
+          on_open();
+        });
+
+    con->set_close_handler(
+        [this, client, life = m_life.observe()](connection_handler hdl) {
+          if (life.expired())
+            return;
+
+          {
+            scoped_lock guard(m_lock);
+            m_open = false;
+          }
+          on_close();
+        });
+
+    con->set_fail_handler(
+        [this, client, life = m_life.observe()](connection_handler hdl) {
+          if (life.expired())
+            return;
+
+          {
+            scoped_lock guard(m_lock);
+            m_open = false;
+          }
+          on_fail();
+        });
+
     m_hdl = con->get_handle();
     m_client.connect(con);
     m_connected = true;
@@ -208,11 +238,20 @@ protected:
   using client_t = websocketpp::client<websocketpp::config::asio_client>;
   using scoped_lock = websocketpp::lib::lock_guard<websocketpp::lib::mutex>;
 
-  client_t m_client;
+  void init_asio(boost::asio::io_context& ctx)
+  {
+    m_external_context = true;
+    m_client.init_asio(&ctx);
+  }
+
+  std::shared_ptr<client_t> m_client_ptr{std::make_shared<client_t>()};
+  client_t& m_client{*m_client_ptr};
+  bool m_external_context{false};
   connection_handler m_hdl;
   websocketpp::lib::mutex m_lock;
   std::atomic_bool m_open{false};
   std::atomic_bool m_connected{false};
+  lifetime_token m_life;
 };
 }
 }
diff --git a/src/ossia/network/sockets/websocket_server.hpp b/src/ossia/network/sockets/websocket_server.hpp
index 1d6130f..9ab1660 100644
--- a/src/ossia/network/sockets/websocket_server.hpp
+++ b/src/ossia/network/sockets/websocket_server.hpp
@@ -4,6 +4,7 @@
 #include <ossia/detail/json.hpp>
 #include <ossia/detail/logger.hpp>
 #include <ossia/network/exceptions.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/network/sockets/websocket_reply.hpp>
 
 #include <websocketpp/config/asio_no_tls.hpp>
@@ -33,6 +34,7 @@ public:
   }
 
   websocket_server(boost::asio::io_context& ctx)
+    : m_external_context{&ctx}
   {
     m_server.init_asio(&ctx);
     m_server.set_reuse_addr(true);
@@ -40,6 +42,22 @@ public:
     m_server.set_socket_init_handler(init_handler);
   }
 
+  ~websocket_server()
+  {
+    if (!m_external_context)
+      return;
+
+    // The context may still have handlers of the server to run, starting with
+    // the one of the connection which is being accepted.
+    stop();
+    m_external_context->post([server = std::move(m_server_ptr)] { });
+  }
+
+  websocket_server(const websocket_server&) = delete;
+  websocket_server(websocket_server&&) = delete;
+  websocket_server& operator=(const websocket_server&) = delete;
+  websocket_server& operator=(websocket_server&&) = delete;
+
   static void init_handler(websocketpp::connection_hdl, boost::asio::ip::tcp::socket& s)
   {
     boost::asio::ip::tcp::no_delay option(true);
@@ -56,20 +74,31 @@ public:
   template <typename Handler>
   void set_open_handler(Handler h)
   {
-    m_server.set_open_handler(h);
+    m_server.set_open_handler([h, life = m_life.observe()](connection_handler hdl) {
+      if (!life.expired())
+        h(hdl);
+      else
+        disconnect(hdl);
+    });
   }
 
   template <typename Handler>
   void set_close_handler(Handler h)
   {
-    m_server.set_close_handler(h);
+    m_server.set_close_handler([h, life = m_life.observe()](connection_handler hdl) {
+      if (!life.expired())
+        h(hdl);
+    });
   }
 
   template <typename Handler>
   void set_message_handler(Handler h)
   {
     m_server.set_message_handler(
-        [this, h](connection_handler hdl, server_t::message_ptr msg) {
+        [this, h, life = m_life.observe()](connection_handler hdl, server_t::message_ptr msg) {
+          if (life.expired())
+            return;
+
 #if defined OSSIA_BENCHMARK
           auto t1 = std::chrono::high_resolution_clock::now();
 #endif
@@ -115,7 +144,10 @@ public:
 #endif
         });
 
-    m_server.set_http_handler([this, h](connection_handler hdl) {
+    m_server.set_http_handler([this, h, life = m_life.observe()](connection_handler hdl) {
+      if (life.expired())
+        return;
+
       auto con = m_server.get_con_from_hdl(hdl);
 
       //enable cross origin requests from anywhere
@@ -191,7 +223,24 @@ public:
     // if(m_server.is_listening())
     //  m_server.stop_listening();
 
-    m_server.stop();
+    if (m_external_context)
+    {
+      // The context is shared with others: it has to go on
+      websocketpp::lib::error_code ec;
+      if (m_server.is_listening())
+        m_server.stop_listening(ec);
+    }
+    else
+    {
+      m_server.stop();
+    }
+  }
+
+  static void disconnect(connection_handler hdl)
+  {
+    websocketpp::lib::error_code ec;
+    if (auto con = std::static_pointer_cast<server_t::connection_type>(hdl.lock()))
+      con->close(websocketpp::close::status::going_away, "Server shutdown", ec);
   }
 
   void close(connection_handler hdl)
@@ -251,7 +300,10 @@ public:
   }
 
 protected:
-  server_t m_server;
+  boost::asio::io_context* m_external_context{};
+  std::shared_ptr<server_t> m_server_ptr{std::make_shared<server_t>()};
+  server_t& m_server{*m_server_ptr};
+  lifetime_token m_life;
 };
 }
 }
-- 
2.43.0


From f8920b159fe95857fe8a45523f3961843230ad42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:59 +0000
Subject: [PATCH 29/60] fix: keep the addresses of the listened parameters when
 nodes are renamed

The protocols did not know of renamings: a message for the new name did not
reach the parameter, and once it was removed its old entry was used.
---
 src/ossia/network/base/listened_addresses.hpp | 39 +++++++++++++++++++
 src/ossia/network/base/listening.hpp          | 26 +++++++++++++
 src/ossia/network/minuit/minuit.cpp           |  1 +
 src/ossia/network/minuit/minuit.hpp           |  4 +-
 src/ossia/network/osc/osc.cpp                 |  1 +
 src/ossia/network/osc/osc.hpp                 |  4 +-
 .../protocols/osc/osc_generic_protocol.hpp    | 11 ++++--
 src/ossia_sources.cmake                       |  1 +
 8 files changed, 79 insertions(+), 8 deletions(-)
 create mode 100644 src/ossia/network/base/listened_addresses.hpp

diff --git a/src/ossia/network/base/listened_addresses.hpp b/src/ossia/network/base/listened_addresses.hpp
new file mode 100644
index 0000000..e8076d4
--- /dev/null
+++ b/src/ossia/network/base/listened_addresses.hpp
@@ -0,0 +1,39 @@
+#pragma once
+#include <ossia/network/base/device.hpp>
+#include <ossia/network/base/listening.hpp>
+
+namespace ossia
+{
+namespace net
+{
+//! Keeps the addresses of the listened parameters when nodes are renamed
+class listened_addresses final
+    : public listened_parameters
+    , public Nano::Observer
+{
+public:
+  void set_device(ossia::net::device_base& dev)
+  {
+    if (m_device)
+      m_device->on_node_renamed
+          .disconnect<&listened_addresses::on_node_renamed>(*this);
+    m_device = &dev;
+    dev.on_node_renamed.connect<&listened_addresses::on_node_renamed>(*this);
+  }
+
+private:
+  void on_node_renamed(const ossia::net::node_base& n, std::string old_name)
+  {
+    // The addresses do not contain the name of the root
+    if (!n.get_parent())
+      return;
+
+    const auto& addr = n.osc_address();
+    rename_tree(
+        addr.substr(0, addr.find_last_of('/') + 1) + old_name, addr);
+  }
+
+  ossia::net::device_base* m_device{};
+};
+}
+}
diff --git a/src/ossia/network/base/listening.hpp b/src/ossia/network/base/listening.hpp
index 547117e..a888c22 100644
--- a/src/ossia/network/base/listening.hpp
+++ b/src/ossia/network/base/listening.hpp
@@ -3,6 +3,9 @@
 #include <ossia/detail/optional.hpp>
 #include <ossia/detail/string_map.hpp>
 
+#include <utility>
+#include <vector>
+
 namespace ossia
 {
 // MOVEME
@@ -59,6 +62,29 @@ public:
     }
   }
 
+  //! The address of a node changed, and with it the ones of the nodes below it
+  void rename_tree(const key_type& oldk, const key_type& newk)
+  {
+    lock_t lock(m_mutex);
+    std::vector<std::pair<key_type, mapped_type>> moved;
+    for (auto it = m_map.begin(); it != m_map.end();)
+    {
+      const key_type& k = it->first;
+      if (k.compare(0, oldk.size(), oldk) == 0
+          && (k.size() == oldk.size() || k[oldk.size()] == '/'))
+      {
+        moved.emplace_back(newk + k.substr(oldk.size()), it->second);
+        it = m_map.erase(it);
+      }
+      else
+      {
+        ++it;
+      }
+    }
+    for (auto& m : moved)
+      m_map.insert_or_assign(std::move(m.first), std::move(m.second));
+  }
+
   void insert(const value_type& m)
   {
     lock_t lock(m_mutex);
diff --git a/src/ossia/network/minuit/minuit.cpp b/src/ossia/network/minuit/minuit.cpp
index 17096b1..340646a 100644
--- a/src/ossia/network/minuit/minuit.cpp
+++ b/src/ossia/network/minuit/minuit.cpp
@@ -66,6 +66,7 @@ minuit_protocol::~minuit_protocol()
 
 void minuit_protocol::set_device(ossia::net::device_base& dev)
 {
+  m_listening.set_device(dev);
   m_device = &dev;
 }
 
diff --git a/src/ossia/network/minuit/minuit.hpp b/src/ossia/network/minuit/minuit.hpp
index 0d7c584..4742f53 100644
--- a/src/ossia/network/minuit/minuit.hpp
+++ b/src/ossia/network/minuit/minuit.hpp
@@ -1,7 +1,7 @@
 #pragma once
 #include <ossia/detail/mutex.hpp>
 #include <ossia/detail/string_map.hpp>
-#include <ossia/network/base/listening.hpp>
+#include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/minuit/detail/minuit_name_table.hpp>
 #include <ossia/network/value/value.hpp>
@@ -94,7 +94,7 @@ private:
   uint16_t m_localPort{}; /// the port where a remote device sends OSC messages
                           /// to (opened in this library)
 
-  listened_parameters m_listening;
+  listened_addresses m_listening;
 
   std::promise<void> m_namespaceFinishedPromise;
   ossia::net::device_base* m_device{};
diff --git a/src/ossia/network/osc/osc.cpp b/src/ossia/network/osc/osc.cpp
index aafbd29..6a991d4 100644
--- a/src/ossia/network/osc/osc.cpp
+++ b/src/ossia/network/osc/osc.cpp
@@ -248,6 +248,7 @@ void osc_protocol::on_received_message(
 
 void osc_protocol::set_device(device_base& dev)
 {
+  m_listening.set_device(dev);
   m_device = &dev;
 }
 }
diff --git a/src/ossia/network/osc/osc.hpp b/src/ossia/network/osc/osc.hpp
index dcb9e91..0bed9f8 100644
--- a/src/ossia/network/osc/osc.hpp
+++ b/src/ossia/network/osc/osc.hpp
@@ -1,6 +1,6 @@
 #pragma once
 #include <ossia/detail/mutex.hpp>
-#include <ossia/network/base/listening.hpp>
+#include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/zeroconf/zeroconf.hpp>
 
@@ -76,7 +76,7 @@ private:
   void update_receiver();
   void update_zeroconf();
 
-  listened_parameters m_listening;
+  listened_addresses m_listening;
 
   std::unique_ptr<osc::sender<osc_1_0_outbound_stream_visitor>> m_sender;
   std::unique_ptr<osc::receiver> m_receiver;
diff --git a/src/ossia/protocols/osc/osc_generic_protocol.hpp b/src/ossia/protocols/osc/osc_generic_protocol.hpp
index 09b17f8..51c0bde 100644
--- a/src/ossia/protocols/osc/osc_generic_protocol.hpp
+++ b/src/ossia/protocols/osc/osc_generic_protocol.hpp
@@ -3,7 +3,7 @@
 #include <ossia/detail/logger.hpp>
 #include <ossia/detail/lockfree_queue.hpp>
 
-#include <ossia/network/base/listening.hpp>
+#include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/sockets/writers.hpp>
 #include <ossia/network/context.hpp>
@@ -243,6 +243,7 @@ public:
 
   void set_device(ossia::net::device_base& dev) override
   {
+    m_listening.set_device(dev);
     m_device = &dev;
   }
 
@@ -254,7 +255,7 @@ public:
   using ossia::net::protocol_base::m_logger;
   ossia::net::network_context_ptr m_ctx;
   message_origin_identifier m_id;
-  listened_parameters m_listening;
+  listened_addresses m_listening;
 
   // Set in the user's thread, read in the one of the network context
   std::atomic<ossia::net::device_base*> m_device{};
@@ -355,6 +356,7 @@ public:
 
   void set_device(ossia::net::device_base& dev) override
   {
+    m_listening.set_device(dev);
     m_device = &dev;
   }
 
@@ -366,7 +368,7 @@ public:
   using ossia::net::protocol_base::m_logger;
   ossia::net::network_context_ptr m_ctx;
   message_origin_identifier m_id;
-  listened_parameters m_listening;
+  listened_addresses m_listening;
 
   // Set in the user's thread, read in the one of the network context
   std::atomic<ossia::net::device_base*> m_device{};
@@ -472,6 +474,7 @@ public:
 
   void set_device(ossia::net::device_base& dev) override
   {
+    m_listening.set_device(dev);
     m_device = &dev;
   }
 
@@ -493,7 +496,7 @@ public:
   using ossia::net::protocol_base::m_logger;
   ossia::net::network_context_ptr m_ctx;
   message_origin_identifier m_id;
-  listened_parameters m_listening;
+  listened_addresses m_listening;
 
   // Set in the user's thread, read in the one of the network context
   std::atomic<ossia::net::device_base*> m_device{};
diff --git a/src/ossia_sources.cmake b/src/ossia_sources.cmake
index 5d31263..286fb1e 100644
--- a/src/ossia_sources.cmake
+++ b/src/ossia_sources.cmake
@@ -105,6 +105,7 @@ set(API_HEADERS
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/node.hpp"
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/message_origin_identifier.hpp"
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/node_functions.hpp"
+    "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/listened_addresses.hpp"
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/listening.hpp"
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/node_attributes.hpp"
     "${CMAKE_CURRENT_SOURCE_DIR}/ossia/network/base/osc_address.hpp"
-- 
2.43.0


From 75b2b7145c83e7fd4363fe01cfab7a816eafa277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 30/60] fix: keep the addresses below a renamed node of an
 OSCQuery device

Only the entry of the node itself was renamed, and renaming the device was
announced to the mirrors as a renamed node.
---
 .../oscquery/oscquery_mirror_asio.cpp         | 30 +------------------
 .../oscquery/oscquery_mirror_asio.hpp         |  6 ++--
 .../oscquery/oscquery_server_asio.cpp         |  9 +++---
 .../oscquery/oscquery_server_asio.hpp         |  4 +--
 4 files changed, 10 insertions(+), 39 deletions(-)

diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
index e04727d..ccd04d3 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
@@ -317,38 +317,11 @@ std::future<void> oscquery_mirror_asio_protocol::update_async(net::node_base& b)
   return fut;
 }
 
-void oscquery_mirror_asio_protocol::on_nodeRenamed(
-    const net::node_base& n, std::string oldname) try
-{
-  // Normally, the only reason this function could be called
-  // is because of a path_renamed oscquery message
-  {
-    // Local listening
-    auto old_addr = n.osc_address();
-    auto it = old_addr.find_last_of('/');
-    old_addr.resize(it + 1);
-    old_addr += oldname;
-    m_listening.rename(old_addr, n.osc_address());
-  }
-}
-
-catch (const std::exception& e)
-{
-  logger().error("oscquery_mirror_asio_protocol::on_nodeRenamed: {}", e.what());
-}
-catch (...)
-{
-  logger().error("oscquery_mirror_asio_protocol::on_nodeRenamed: error.");
-}
-
 void oscquery_mirror_asio_protocol::set_device(net::device_base& dev)
 {
   if (m_device)
   {
     auto& old = *m_device;
-    old.on_node_renamed.disconnect<&oscquery_mirror_asio_protocol::on_nodeRenamed>(
-        this);
-
     ossia::net::visit_parameters(
         old.get_root_node(),
         [&](ossia::net::node_base& n, ossia::net::parameter_base& p) {
@@ -358,11 +331,10 @@ void oscquery_mirror_asio_protocol::set_device(net::device_base& dev)
   }
 
   m_device = &dev;
+  m_listening.set_device(dev);
 
   init();
 
-  m_device->on_node_renamed.connect<&oscquery_mirror_asio_protocol::on_nodeRenamed>(
-      this);
   ossia::net::visit_parameters(
       dev.get_root_node(),
       [&](ossia::net::node_base& n, ossia::net::parameter_base& p) {
diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
index 6d8d7ef..006638b 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
@@ -1,7 +1,7 @@
 #pragma once
 
 #include <ossia/detail/json_fwd.hpp>
-#include <ossia/network/base/listening.hpp>
+#include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/oscquery/host_info.hpp>
 #include <ossia/detail/lockfree_queue.hpp>
@@ -139,8 +139,6 @@ private:
   bool query_connected();
   void query_stop();
 
-  void on_nodeRenamed(const ossia::net::node_base& n, std::string oldname);
-
   ossia::net::network_context_ptr m_ctx;
 
   std::unique_ptr<osc_sender_impl> m_oscSender;
@@ -150,7 +148,7 @@ private:
   std::atomic_bool m_hasWS{};
 
   // Listening status of the local software
-  net::listened_parameters m_listening;
+  net::listened_addresses m_listening;
 
   ossia::net::device_base* m_device{};
 
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
index 7dab13c..b58bab6 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
@@ -388,6 +388,7 @@ void oscquery_server_protocol::set_device(net::device_base& dev)
         });
   }
   m_device = &dev;
+  m_listening.set_device(dev);
 
   dev.on_node_created
       .connect<&oscquery_server_protocol::on_nodeCreated>(this);
@@ -680,14 +681,14 @@ catch (...)
 void oscquery_server_protocol::on_nodeRenamed(
     const net::node_base& n, std::string oldname) try
 {
+  // The addresses do not contain the name of the root
+  if (!n.get_parent())
+    return;
+
   auto old_addr = n.osc_address();
   auto it = old_addr.find_last_of('/');
   old_addr.resize(it + 1);
   old_addr += oldname;
-  {
-    // Local listening
-    m_listening.rename(old_addr, n.osc_address());
-  }
 
   {
     // Remote listening
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.hpp b/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
index 8278e1b..efef17a 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
@@ -1,7 +1,7 @@
 #pragma once
 #include <ossia/detail/mutex.hpp>
 #include <ossia/network/context_functions.hpp>
-#include <ossia/network/base/listening.hpp>
+#include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/generic/generic_device.hpp>
 #include <ossia/network/sockets/websocket_reply.hpp>
@@ -133,7 +133,7 @@ private:
   net::zeroconf_server m_zeroconfServerOSC;
 
   // Listening status of the local software
-  net::listened_parameters m_listening;
+  net::listened_addresses m_listening;
 
   // The clients connected to this server
   std::vector<oscquery_client> m_clients;
-- 
2.43.0


From 94b5531cb6e1d5b3104bc594d08117a6f0615ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 31/60] fix: send the read-only parameters in the bundles of an
 OSCQuery server

They were made with the policy of the clients, which leaves out what cannot be
set on the other side.
---
 src/ossia/protocols/oscquery/oscquery_server_asio.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
index b58bab6..0749729 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
@@ -251,7 +251,7 @@ bool oscquery_server_protocol::push_bundle(
   using namespace ossia::net;
   using OscVersion = osc_extended_policy;
 
-  if(auto bundle = ossia::net::make_bundle(ossia::net::bundle_client_policy<OscVersion>{}, addresses))
+  if(auto bundle = ossia::net::make_bundle(ossia::net::bundle_server_policy<OscVersion>{}, addresses))
   {
     return write_impl(std::string_view{bundle->data.data(), bundle->data.size()}, bundle->critical);
   }
@@ -264,7 +264,7 @@ bool oscquery_server_protocol::push_raw_bundle(
   using namespace ossia::net;
   using OscVersion = osc_extended_policy;
 
-  if(auto bundle = ossia::net::make_bundle(ossia::net::bundle_client_policy<OscVersion>{}, addresses))
+  if(auto bundle = ossia::net::make_bundle(ossia::net::bundle_server_policy<OscVersion>{}, addresses))
   {
     return write_impl(std::string_view{bundle->data.data(), bundle->data.size()}, bundle->critical);
   }
-- 
2.43.0


From 948a9bab050718e5fa9c113c5962ca3c50572466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:17 +0000
Subject: [PATCH 32/60] fix: ignore the HTTP answers which arrive after the
 OSCQuery mirror is deleted

---
 src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp | 9 ++++++---
 src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp | 3 +++
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
index ccd04d3..d04b087 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
@@ -41,11 +41,14 @@ struct oscquery_mirror_asio_protocol::osc_receiver_impl : ossia::net::udp_receiv
 struct http_async_answer
 {
   oscquery_mirror_asio_protocol& self;
+  ossia::net::lifetime_token::observer life;
 
   template <typename T, typename S>
   void operator()(T& req, const S& str)
   {
-    if (self.on_text_ws_message({}, str))
+    if (life.expired())
+      req.close();
+    else if (self.on_text_ws_message({}, str))
     {
       req.close();
     }
@@ -161,7 +164,7 @@ void oscquery_mirror_asio_protocol::cleanup_connections()
 void oscquery_mirror_asio_protocol::http_send_message(const std::string& str)
 {
   auto hrq = std::make_shared<http_async_request>(
-      http_async_answer{*this}, http_async_error{}, m_ctx->context, m_httpHost, str);
+      http_async_answer{*this, m_life.observe()}, http_async_error{}, m_ctx->context, m_httpHost, str);
   hrq->resolve(m_httpHost, m_queryPort);
 }
 
@@ -169,7 +172,7 @@ void oscquery_mirror_asio_protocol::http_send_message(
     const rapidjson::StringBuffer& str)
 {
   auto hrq = std::make_shared<http_async_request>(
-      http_async_answer{*this}, http_async_error{}, m_ctx->context, m_httpHost,
+      http_async_answer{*this, m_life.observe()}, http_async_error{}, m_ctx->context, m_httpHost,
       str.GetString());
   hrq->resolve(m_httpHost, m_queryPort);
 }
diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
index 006638b..80aeac7 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
@@ -4,6 +4,7 @@
 #include <ossia/network/base/listened_addresses.hpp>
 #include <ossia/network/base/protocol.hpp>
 #include <ossia/network/oscquery/host_info.hpp>
+#include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/detail/lockfree_queue.hpp>
 #include <atomic>
 
@@ -165,6 +166,8 @@ private:
   ossia::net::message_origin_identifier m_id;
 
   bool m_zombie_on_remove{true};
+
+  ossia::net::lifetime_token m_life;
 };
 }
 }
-- 
2.43.0


From 5c59d99502589ebff5d345c9e0fd0a409dae999e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 33/60] fix: ask for OSC streaming once the websocket of the
 mirror is open

The request was lost when the host info came first, and it carried a random
port instead of the one which the mirror sends from.
---
 .../oscquery/oscquery_mirror_asio.cpp         | 31 ++++++++++++++-----
 .../oscquery/oscquery_mirror_asio.hpp         |  2 ++
 2 files changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
index d04b087..134150d 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
@@ -401,6 +401,7 @@ void oscquery_mirror_asio_protocol::start_websockets()
       });
   m_id.identifier = (uintptr_t) m_websocketClient.get();
 
+  m_websocketClient->on_open.connect<&oscquery_mirror_asio_protocol::on_ws_connected>(*this);
   m_websocketClient->on_close.connect<&oscquery_mirror_asio_protocol::on_ws_disconnected>(*this);
   m_websocketClient->on_fail.connect<&oscquery_mirror_asio_protocol::on_ws_disconnected>(*this);
 
@@ -412,7 +413,6 @@ void oscquery_mirror_asio_protocol::start_websockets()
   try
   {
     m_websocketClient->connect(m_queryHost);
-    m_hasWS = true;
   }
   catch (...)
   {
@@ -427,6 +427,25 @@ void oscquery_mirror_asio_protocol::start_osc()
   m_oscServer->receive([this] (const char* data, std::size_t sz) { process_raw_osc_data(data, sz); });
 }
 
+void oscquery_mirror_asio_protocol::on_ws_connected()
+{
+  m_hasWS = true;
+
+  // The host info can arrive before the websocket is open
+  start_osc_streaming();
+}
+
+void oscquery_mirror_asio_protocol::start_osc_streaming()
+{
+  // Send to the server the local receiver port
+  if (m_hasWS && m_oscSender && m_host_info.extensions["OSC_STREAMING"])
+  {
+    uint16_t local_server_port = m_oscServer->m_socket.local_endpoint().port();
+    uint16_t local_sender_port = m_oscSender->m_socket.local_endpoint().port();
+    ws_send_message(ossia::oscquery::json_writer::start_osc_streaming(local_server_port, local_sender_port));
+  }
+}
+
 void oscquery_mirror_asio_protocol::init()
 {
   start_http();
@@ -530,14 +549,10 @@ bool oscquery_mirror_asio_protocol::on_text_ws_message(
             uint16_t server_port = uint16_t(*m_host_info.osc_port);
             m_oscSender = std::make_unique<osc_sender_impl>(ossia::net::socket_configuration{server_host, server_port}, this->m_ctx->context);
             m_oscSender->connect();
-            uint16_t local_server_port = m_oscServer->m_socket.local_endpoint().port();
-            uint16_t local_sender_port = rand();
+            // The server recognizes our messages by the port that they come from
+            m_oscSender->m_socket.bind({boost::asio::ip::udp::v4(), 0});
 
-            // Send to the server the local receiver port
-            if (m_host_info.extensions["OSC_STREAMING"])
-            {
-              ws_send_message(ossia::oscquery::json_writer::start_osc_streaming(local_server_port, local_sender_port));
-            }
+            start_osc_streaming();
           }
           else
           {
diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
index 80aeac7..03d0dd6 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
@@ -112,6 +112,7 @@ public:
 private:
   friend struct http_async_answer;
   using connection_handler = std::weak_ptr<void>;
+  void on_ws_connected();
   void on_ws_disconnected() { m_hasWS = false; }
 
   void init();
@@ -119,6 +120,7 @@ private:
   void start_http();
   void start_websockets();
   void start_osc();
+  void start_osc_streaming();
 
   void cleanup_connections();
 
-- 
2.43.0


From 42aac3f2b0650860b92ccbcd800e13ae65e6ff07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 34/60] fix: do not echo values to the OSCQuery client which
 sent them

All the messages were taken to come from an unknown client as soon as there
were two of them, so that the sender received its own values again.
---
 .../oscquery/oscquery_client_asio.hpp         |  2 ++
 .../oscquery/oscquery_server_asio.cpp         | 20 +++++++++----------
 .../oscquery/oscquery_server_asio.hpp         |  4 ++--
 3 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
index a8f2a62..1a22329 100644
--- a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
@@ -28,6 +28,7 @@ public:
       , listening{std::move(other.listening)}
       , client_ip{std::move(other.client_ip)}
       , osc_socket{std::move(other.osc_socket)}
+      , remote_sender_port{other.remote_sender_port}
   {
     // FIXME http://stackoverflow.com/a/29988626/1495627
   }
@@ -38,6 +39,7 @@ public:
     listening = std::move(other.listening);
     client_ip = std::move(other.client_ip);
     osc_socket = std::move(other.osc_socket);
+    remote_sender_port = other.remote_sender_port;
     return *this;
   }
 
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
index 0749729..60fcccb 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
@@ -39,14 +39,15 @@ struct oscquery_server_protocol::osc_receiver_impl : ossia::net::udp_receive_soc
   using udp_receive_socket::udp_receive_socket;
 };
 
-static uintptr_t client_identifier(const std::vector<oscquery_client>& clts, const oscpack::IpEndpointName& ip)
+static uintptr_t client_identifier(const std::vector<oscquery_client>& clts, const boost::asio::ip::udp::endpoint& ep)
 {
   if(clts.size() == 1)
     return (uintptr_t) clts[0].connection.lock().get();
 
+  const auto ip = ep.address().to_string();
   for (const oscquery_client& c : clts)
   {
-    if(c.remote_sender_port == ip.port)
+    if(c.remote_sender_port == ep.port() && c.client_ip == ip)
     {
       return (uintptr_t) c.connection.lock().get();
     }
@@ -416,8 +417,7 @@ void oscquery_server_protocol::set_device(net::device_base& dev)
 
   m_oscServer->open();
   m_oscServer->receive([this] (const char* data, std::size_t sz) {
-    std::cerr << m_oscServer->m_endpoint.address() << " : " << m_oscServer->m_endpoint.port() << std::endl;
-    process_raw_osc_data(data, sz);
+    process_raw_osc_data(data, sz, client_identifier(m_clients, m_oscServer->m_endpoint));
   });
 }
 
@@ -547,17 +547,16 @@ void oscquery_server_protocol::rename_node(
   m_device->on_rename_node_requested(std::string(path), new_name);
 }
 
-void oscquery_server_protocol::process_raw_osc_data(const char* data, std::size_t sz)
+void oscquery_server_protocol::process_raw_osc_data(const char* data, std::size_t sz, uintptr_t client)
 {
-  auto on_message = [this] (auto&& msg) { this->on_osc_message(msg); };
+  auto on_message = [this, client] (auto&& msg) { this->on_osc_message(msg, client); };
   ossia::net::osc_packet_processor<decltype(on_message)>{on_message}(data, sz);
 }
 
 void oscquery_server_protocol::on_osc_message(
-    const oscpack::ReceivedMessage& m) try
+    const oscpack::ReceivedMessage& m, uintptr_t client) try
 {
-  // TODO
-  auto id = ossia::net::message_origin_identifier{*this, client_identifier(m_clients, {})};
+  auto id = ossia::net::message_origin_identifier{*this, client};
   ossia::net::on_input_message<true>(
         m.AddressPattern(),
         ossia::net::osc_message_applier{id, m},
@@ -786,8 +785,7 @@ ossia::net::server_reply oscquery_server_protocol::on_binary_ws_message(
     const oscquery_server_protocol::connection_handler& hdl,
     const std::string& message)
 {
-  // TODO here we know where the message comes from, can be used for id
-  process_raw_osc_data(message.data(), message.size());
+  process_raw_osc_data(message.data(), message.size(), (uintptr_t)hdl.lock().get());
   return {};
 }
 }
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.hpp b/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
index efef17a..b09b07a 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.hpp
@@ -96,8 +96,8 @@ private:
   void rename_node(ossia::string_view node, const std::string& new_name);
 
   // OSC callback
-  void on_osc_message(const oscpack::ReceivedMessage& m);
-  void process_raw_osc_data(const char* data, std::size_t sz);
+  void on_osc_message(const oscpack::ReceivedMessage& m, uintptr_t client);
+  void process_raw_osc_data(const char* data, std::size_t sz, uintptr_t client);
 
   // Websocket callbacks
   void on_connectionOpen(const connection_handler& hdl);
-- 
2.43.0


From 004c83bc5c9c235ee34a465a4e9d1602b3afdcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:33 +0000
Subject: [PATCH 35/60] fix: replace the OSC senders of OSCQuery devices while
 other threads push values

---
 .../oscquery/detail/oscquery_protocol_common.hpp  | 15 ++++++++-------
 .../protocols/oscquery/oscquery_client_asio.hpp   |  8 ++++++--
 .../protocols/oscquery/oscquery_mirror_asio.cpp   | 12 +++++++++---
 .../protocols/oscquery/oscquery_mirror_asio.hpp   | 13 ++++++++++---
 4 files changed, 33 insertions(+), 15 deletions(-)

diff --git a/src/ossia/network/oscquery/detail/oscquery_protocol_common.hpp b/src/ossia/network/oscquery/detail/oscquery_protocol_common.hpp
index 9da1602..8c017f9 100644
--- a/src/ossia/network/oscquery/detail/oscquery_protocol_common.hpp
+++ b/src/ossia/network/oscquery/detail/oscquery_protocol_common.hpp
@@ -25,7 +25,7 @@ struct oscquery_protocol_common
   template<typename Protocol, typename Addr>
   static void osc_send_message(Protocol& proto, const Addr& addr, const ossia::value& val)
   {
-    osc_send_message(proto, proto.osc_sender(), addr, val);
+    osc_send_message(proto, *proto.osc_sender(), addr, val);
   }
 
   template<typename Protocol, typename Socket, typename Addr>
@@ -69,14 +69,15 @@ struct oscquery_protocol_common
       // Push to server
       const bool critical = addr.get_critical();
       const bool has_ws = proto.ws_connected();
-      const bool has_osc = proto.osc_connected();
-      if ((!critical || !has_ws) && has_osc)
+      // The sender can be replaced by the network thread
+      const auto osc = proto.osc_sender();
+      if ((!critical || !has_ws) && osc)
       {/*
         if (m_logger.outbound_logger)
         {
           m_logger.outbound_logger->info("Out: {} {}", addr.address, val);
         }*/
-        osc_send_message(proto, addr, val);
+        osc_send_message(proto, *osc, addr, val);
         return true;
       }
       else if (has_ws)
@@ -118,10 +119,10 @@ struct oscquery_protocol_client : oscquery_protocol_common<OscVersion>
     {
       const bool critical = bundle->critical;
       const bool has_ws = proto.ws_connected();
-      const bool has_osc = proto.osc_connected();
-      if ((!critical || !has_ws) && has_osc)
+      const auto osc = proto.osc_sender();
+      if ((!critical || !has_ws) && osc)
       {
-        proto.osc_sender().write(bundle->data.data(), bundle->data.size());
+        osc->write(bundle->data.data(), bundle->data.size());
         ossia::buffer_pool::instance().release(std::move(bundle->data));
       }
       else if (has_ws)
diff --git a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
index 1a22329..a08d4c2 100644
--- a/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_client_asio.hpp
@@ -72,8 +72,12 @@ public:
 
   void open_osc_sender(ossia::oscquery_asio::oscquery_server_protocol& proto, uint16_t port)
   {
-    osc_socket = std::make_unique<ossia::net::udp_send_socket>(ossia::net::socket_configuration{client_ip, port}, proto.m_context->context);
-    osc_socket->connect();
+    auto socket = std::make_unique<ossia::net::udp_send_socket>(ossia::net::socket_configuration{client_ip, port}, proto.m_context->context);
+    socket->connect();
+
+    // Values can be pushed from other threads
+    lock_t lock(proto.m_clientsMutex);
+    osc_socket = std::move(socket);
   }
 
 };
diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
index 134150d..b1b297f 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.cpp
@@ -547,10 +547,16 @@ bool oscquery_mirror_asio_protocol::on_text_ws_message(
           {
             const auto& server_host = asio_to_ip(*m_host_info.osc_ip);
             uint16_t server_port = uint16_t(*m_host_info.osc_port);
-            m_oscSender = std::make_unique<osc_sender_impl>(ossia::net::socket_configuration{server_host, server_port}, this->m_ctx->context);
-            m_oscSender->connect();
+            auto sender = std::make_shared<osc_sender_impl>(ossia::net::socket_configuration{server_host, server_port}, this->m_ctx->context);
+            sender->connect();
             // The server recognizes our messages by the port that they come from
-            m_oscSender->m_socket.bind({boost::asio::ip::udp::v4(), 0});
+            sender->m_socket.bind({boost::asio::ip::udp::v4(), 0});
+
+            {
+              // Values can be pushed from other threads
+              std::lock_guard lock{m_oscSenderMutex};
+              m_oscSender = std::move(sender);
+            }
 
             start_osc_streaming();
           }
diff --git a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
index 03d0dd6..8345f87 100644
--- a/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
+++ b/src/ossia/protocols/oscquery/oscquery_mirror_asio.hpp
@@ -7,6 +7,8 @@
 #include <ossia/network/sockets/lifetime.hpp>
 #include <ossia/detail/lockfree_queue.hpp>
 #include <atomic>
+#include <memory>
+#include <mutex>
 
 namespace osc
 {
@@ -70,8 +72,12 @@ public:
   }
 
   bool ws_connected() const noexcept { return m_hasWS; }
-  bool osc_connected() const noexcept { return bool(m_oscSender); }
-  osc_sender_impl& osc_sender() const noexcept { return *m_oscSender; }
+  bool osc_connected() const noexcept { return bool(osc_sender()); }
+  std::shared_ptr<osc_sender_impl> osc_sender() const noexcept
+  {
+    std::lock_guard lock{m_oscSenderMutex};
+    return m_oscSender;
+  }
   ossia::net::websocket_client& ws_client() const noexcept { return *m_websocketClient; }
 
   /**
@@ -144,7 +150,8 @@ private:
 
   ossia::net::network_context_ptr m_ctx;
 
-  std::unique_ptr<osc_sender_impl> m_oscSender;
+  mutable std::mutex m_oscSenderMutex;
+  std::shared_ptr<osc_sender_impl> m_oscSender;
   std::unique_ptr<osc_receiver_impl> m_oscServer;
 
   std::unique_ptr<ossia::net::websocket_client> m_websocketClient;
-- 
2.43.0


From 23d0dbf75328b44989f3d2a6adf959cd4a84db4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 36/60] fix: keep the type of the lists which an OSCQuery
 mirror reads

Their type tags are those of the current values: a list became a parameter of
the type of its first value.
---
 src/ossia/network/oscquery/detail/json_reader_detail.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index 9ca055f..b960a17 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -680,7 +680,8 @@ ossia::value parse_oscquery_value(
 {
   ossia::value res = node.get_parameter()->value();
   const auto& u = node.get_parameter()->get_unit();
-  if (typetag.size() == 1)
+  if (typetag.size() == 1
+      && !(v.IsArray() && res.get_type() == ossia::val_type::LIST))
   {
     if (v.IsArray())
     {
@@ -771,6 +772,12 @@ void json_parser_impl::readParameter(
       addr->set_unit(*unit);
       ossia::net::set_extended_type(node, ext_type);
     }
+    // The type tags of a list are those of its current values
+    else if (ext_type && *ext_type == list_type())
+    {
+      addr = node.create_parameter(ossia::val_type::LIST);
+      ossia::net::set_extended_type(node, ext_type);
+    }
     // FIXME necessary for R color handling... berk handle that better
     else if (has_typetag)
     {
-- 
2.43.0


From d3b5a6caf9272704a6f641a98f6e99381f2ac177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 37/60] fix: refuse OSCQuery messages which nest too deeply

They are parsed recursively: a client could overflow the stack of the server.
---
 .../network/oscquery/detail/json_parser.hpp   |  5 ++++
 .../oscquery/detail/json_reader_detail.cpp    | 30 ++++++++++++++++++-
 .../oscquery/oscquery_server_asio.cpp         |  3 ++
 3 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/oscquery/detail/json_parser.hpp b/src/ossia/network/oscquery/detail/json_parser.hpp
index cf96c06..b7f8992 100644
--- a/src/ossia/network/oscquery/detail/json_parser.hpp
+++ b/src/ossia/network/oscquery/detail/json_parser.hpp
@@ -13,6 +13,11 @@ struct OSSIA_EXPORT json_parser
 {
   static std::shared_ptr<rapidjson::Document>
   parse(const std::string& message);
+
+  //! Parsing is recursive: what is nested more deeply than this is refused
+  static constexpr int max_depth = 512;
+  static bool is_too_deep(ossia::string_view message) noexcept;
+
   static std::shared_ptr<rapidjson::Document>
   parse(const char* data, std::size_t N);
 
diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index b960a17..db52714 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -923,10 +923,38 @@ std::shared_ptr<rapidjson::Document>
 json_parser::parse(const std::string& message)
 {
   auto document = std::make_shared<rapidjson::Document>();
-  document->Parse(message);
+  if (!is_too_deep(message))
+    document->Parse(message);
   return document;
 }
 
+bool json_parser::is_too_deep(ossia::string_view message) noexcept
+{
+  int depth = 0;
+  bool in_string = false;
+  for (std::size_t i = 0; i < message.size(); i++)
+  {
+    const char c = message[i];
+    if (in_string)
+    {
+      if (c == '\\')
+        i++;
+      else if (c == '"')
+        in_string = false;
+    }
+    else if (c == '"')
+      in_string = true;
+    else if (c == '[' || c == '{')
+    {
+      if (++depth > max_depth)
+        return true;
+    }
+    else if (c == ']' || c == '}')
+      depth--;
+  }
+  return false;
+}
+
 int json_parser::get_port(const rapidjson::Value& obj)
 {
   using namespace detail;
diff --git a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
index 60fcccb..69518f2 100644
--- a/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
+++ b/src/ossia/protocols/oscquery/oscquery_server_asio.cpp
@@ -767,6 +767,9 @@ ossia::net::server_reply oscquery_server_protocol::on_text_ws_message(
   }
   else
   {
+    if (ossia::oscquery::json_parser::is_too_deep(message))
+      return {};
+
     rapidjson::Document doc;
     doc.Parse(message); // TODO ParseInsitu
 
-- 
2.43.0


From 0e3e9dd15dc6f7527ba629b5ad510a188f9289cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:43 +0000
Subject: [PATCH 38/60] fix: check the types of what is in OSCQuery messages

rapidjson aborts or reads other memory when a value does not have the type
which is asked for.
---
 src/ossia/detail/json.hpp                     |  5 ++++
 .../oscquery/detail/json_query_parser.hpp     |  4 +--
 .../oscquery/detail/json_reader_detail.cpp    | 28 +++++++++++++++----
 .../network/oscquery/detail/value_to_json.hpp | 11 ++++----
 4 files changed, 36 insertions(+), 12 deletions(-)

diff --git a/src/ossia/detail/json.hpp b/src/ossia/detail/json.hpp
index 542a51d..8ab1923 100644
--- a/src/ossia/detail/json.hpp
+++ b/src/ossia/detail/json.hpp
@@ -19,6 +19,7 @@
 #include <rapidjson/writer.h>
 
 #include <cstring>
+#include <stdexcept>
 
 namespace ossia
 {
@@ -32,10 +33,14 @@ using json_writer = rapidjson::Writer<
 }
 inline std::string get_string(const rapidjson::Value& val)
 {
+  if (!val.IsString())
+    throw std::runtime_error("JSON: a string was expected");
   return std::string{val.GetString(), val.GetStringLength()};
 }
 inline ossia::string_view get_string_view(const rapidjson::Value& val)
 {
+  if (!val.IsString())
+    throw std::runtime_error("JSON: a string was expected");
   return ossia::string_view{val.GetString(), val.GetStringLength()};
 }
 
diff --git a/src/ossia/network/oscquery/detail/json_query_parser.hpp b/src/ossia/network/oscquery/detail/json_query_parser.hpp
index bd98b72..3490dc0 100644
--- a/src/ossia/network/oscquery/detail/json_query_parser.hpp
+++ b/src/ossia/network/oscquery/detail/json_query_parser.hpp
@@ -136,7 +136,7 @@ struct json_query_answerer
       return {};
 
     auto nodes = ossia::net::find_nodes(
-        proto.get_device().get_root_node(), m->value.GetString());
+        proto.get_device().get_root_node(), get_string(m->value));
     for (auto n : nodes)
     {
       clt->start_listen(n->osc_address(), n->get_parameter());
@@ -161,7 +161,7 @@ struct json_query_answerer
       return {};
 
     auto nodes = ossia::net::find_nodes(
-        proto.get_device().get_root_node(), m->value.GetString());
+        proto.get_device().get_root_node(), get_string(m->value));
     for (auto n : nodes)
     {
       clt->stop_listen(n->osc_address());
diff --git a/src/ossia/network/oscquery/detail/json_reader_detail.cpp b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
index db52714..bd30ecc 100644
--- a/src/ossia/network/oscquery/detail/json_reader_detail.cpp
+++ b/src/ossia/network/oscquery/detail/json_reader_detail.cpp
@@ -279,9 +279,9 @@ bool json_parser_impl::ReadValue(
   {
     return ReadValueObject(val, res);
   }
-  else if (val.IsArray())
+  else if (auto p = node.get_parameter(); p && val.IsArray() && !val.Empty())
   {
-    auto t = node.get_parameter()->get_value_type();
+    auto t = p->get_value_type();
     switch (t)
     {
       case ossia::val_type::VEC2F:
@@ -794,7 +794,7 @@ void json_parser_impl::readParameter(
       ossia::net::set_extended_type(node, ext_type);
     }
     // We have a type. Now we read the value according to it.
-    if (value_it != obj.MemberEnd())
+    if (addr && value_it != obj.MemberEnd())
     {
       bool ok = false;
       auto res = parse_oscquery_value(node, value_it->value, typetag, ok);
@@ -803,7 +803,7 @@ void json_parser_impl::readParameter(
     }
 
     // Same for default value
-    if (default_value_it != obj.MemberEnd())
+    if (addr && default_value_it != obj.MemberEnd())
     {
       bool ok = false;
       auto res = parse_oscquery_value(node, default_value_it->value, typetag, ok);
@@ -858,6 +858,9 @@ void json_parser_impl::readParameter(
 void json_parser_impl::readObject(
     net::node_base& node, const rapidjson::Value& obj)
 {
+  if (!obj.IsObject())
+    throw std::runtime_error("JSON: an object was expected");
+
   // If it's a real parameter
   if (obj.FindMember(detail::attribute_full_path()) != obj.MemberEnd())
   {
@@ -882,6 +885,9 @@ void json_parser_impl::readObject(
 void json_parser_impl::reloadObject(
     net::node_base& node, const rapidjson::Value& obj)
 {
+  if (!obj.IsObject())
+    throw std::runtime_error("JSON: an object was expected");
+
   // If it's a real parameter
   if (obj.FindMember(detail::attribute_full_path()) != obj.MemberEnd())
   {
@@ -979,6 +985,9 @@ json_parser::message_type(const rapidjson::Value& obj)
       {detail::ignore(), ossia::oscquery::message_type::Ignore}};
   using namespace detail;
 
+  if (!obj.IsObject())
+    throw std::runtime_error("JSON: an object was expected");
+
   auto it = obj.FindMember(detail::command());
   if (it != obj.MemberEnd())
   {
@@ -1105,6 +1114,9 @@ void json_parser::parse_parameter_value(
     net::node_base& root, const rapidjson::Value& obj,
     ossia::net::device_base& dev)
 {
+  if (!obj.IsObject())
+    throw std::runtime_error("JSON: an object was expected");
+
   for (auto it = obj.MemberBegin(), end = obj.MemberEnd(); it != end; ++it)
   {
     auto path = get_string_view(it->name);
@@ -1153,6 +1165,8 @@ void json_parser::parse_path_added(
   // TODO potential race condition there,
   // if the node is created in-between the if / else
   auto opt_str = splitParentChild(full_path);
+  if (!opt_str)
+    return;
   auto& s = *opt_str;
 
   if (auto parent = ossia::net::find_node(root, s.first))
@@ -1197,7 +1211,8 @@ void json_parser::parse_path_removed(
       }
       else
       {
-        node->get_parent()->remove_child(*node);
+        if (auto parent = node->get_parent())
+          parent->remove_child(*node);
       }
     }
   }
@@ -1262,6 +1277,9 @@ void json_parser::parse_attributes_changed(
   if (dat_it != obj.MemberEnd())
   {
     const rapidjson::Value& dat = dat_it->value;
+    if (!dat.IsObject())
+      return;
+
     auto path_it = dat.FindMember(detail::attribute_full_path());
     if (path_it != dat.MemberEnd())
     {
diff --git a/src/ossia/network/oscquery/detail/value_to_json.hpp b/src/ossia/network/oscquery/detail/value_to_json.hpp
index b9d0171..6076e32 100644
--- a/src/ossia/network/oscquery/detail/value_to_json.hpp
+++ b/src/ossia/network/oscquery/detail/value_to_json.hpp
@@ -126,7 +126,7 @@ static inline auto from_hex(char c)
     }
   };
   static constexpr Table t;
-  return t[c];
+  return t[c & 0x7f];
 }
 
 struct json_to_value
@@ -165,7 +165,7 @@ struct json_to_value
   {
     bool b = false;
 
-    switch(typetags[typetag_cursor])
+    switch(typetag_cursor < (int)typetags.size() ? typetags[typetag_cursor] : 0)
     {
       case 'F':
         res = false;
@@ -211,8 +211,8 @@ struct json_to_value
   {
     if constexpr (N == 4)
     {
-      if (typetags[typetag_cursor]
-          == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
+      if (typetag_cursor < (int)typetags.size()
+          && typetags[typetag_cursor] == oscpack::TypeTagValues::RGBA_COLOR_TYPE_TAG)
       {
         typetag_cursor += 1;
         bool b = val.IsString();
@@ -619,7 +619,8 @@ struct json_to_value_unchecked
       {
         for (int i = 0; i < (int)N; i++)
         {
-          res[i] = arr[i].GetDouble();
+          if (arr[i].IsNumber())
+            res[i] = arr[i].GetDouble();
         }
       }
     }
-- 
2.43.0


From 3f538c3e422914cc2babad1296d7ac7ecc77704b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 39/60] fix: number instances after the largest number

---
 src/ossia/network/base/name_validation.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ossia/network/base/name_validation.cpp b/src/ossia/network/base/name_validation.cpp
index dd9150a..ce11b8f 100644
--- a/src/ossia/network/base/name_validation.cpp
+++ b/src/ossia/network/base/name_validation.cpp
@@ -9,10 +9,26 @@
 #include <boost/lexical_cast.hpp>
 
 #include <algorithm>
+#include <limits>
 namespace ossia
 {
 namespace net
 {
+// A number which none of the sorted instances has
+static int next_instance(const ossia::small_vector<int, 16>& instances)
+{
+  if (instances.back() < std::numeric_limits<int>::max())
+    return instances.back() + 1;
+
+  int n = 1;
+  for (int i : instances)
+  {
+    if (i == n)
+      n++;
+  }
+  return n;
+}
+
 std::string& sanitize_device_name(std::string& ret)
 {
   // Note : if this is changed, also change the Qt version in js_utilities.cpp
@@ -135,7 +151,7 @@ sanitize_name(std::string name, const std::vector<std::string>& brethren)
     {
       std::sort(instance_num.begin(), instance_num.end());
       return root_name + "."
-             + boost::lexical_cast<std::string>(instance_num.back() + 1);
+             + boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
@@ -212,7 +228,7 @@ void sanitize_name(
       std::sort(instance_num.begin(), instance_num.end());
       name = root_name;
       name += '.';
-      name += boost::lexical_cast<std::string>(instance_num.back() + 1);
+      name += boost::lexical_cast<std::string>(next_instance(instance_num));
     }
   }
 }
-- 
2.43.0


From 8edf326d414c103370bb83a64596329b1f3a0a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 40/60] fix: a framed server releases the connections that
 ended

---
 src/ossia/network/sockets/framing.hpp | 56 ++++++++++++++++++++++-----
 1 file changed, 46 insertions(+), 10 deletions(-)

diff --git a/src/ossia/network/sockets/framing.hpp b/src/ossia/network/sockets/framing.hpp
index 090467c..b521d04 100644
--- a/src/ossia/network/sockets/framing.hpp
+++ b/src/ossia/network/sockets/framing.hpp
@@ -7,6 +7,8 @@
 #include <ossia/network/sockets/slip_framing.hpp>
 #include <ossia/network/sockets/writers.hpp>
 
+#include <algorithm>
+#include <functional>
 #include <memory>
 #include <mutex>
 #include <vector>
@@ -21,15 +23,31 @@ struct framed_listener : public Base
   using socket = typename proto::socket;
   using decoder = typename Framing::template decoder<socket>;
 
-  template<typename F>
-  framed_listener(socket&& sock, F f)
+  explicit framed_listener(socket&& sock)
       : Base{std::move(sock)}
       , m_decoder{this->m_socket}
   {
+  }
+
+  template<typename F, typename OnEnd>
+  void receive(F f, OnEnd on_end)
+  {
+    m_on_end = std::move(on_end);
     m_decoder.receive(stream_processor<framed_listener, F>{*this, std::move(f)});
   }
 
+  void on_close()
+  {
+    m_on_end();
+  }
+
+  void on_fail()
+  {
+    m_on_end();
+  }
+
   decoder m_decoder;
+  std::function<void()> m_on_end;
 };
 
 template<typename Base, typename Framing>
@@ -39,7 +57,7 @@ public:
   using proto = typename Base::proto;
   using socket = typename proto::socket;
   using listener = framed_listener<typename Base::listener, Framing>;
-  using encoder = typename Framing::template encoder<multi_socket_writer<listener*>>;
+  using encoder = typename Framing::template encoder<multi_socket_writer<std::shared_ptr<listener>>>;
   using decoder = typename Framing::template decoder<socket>;
 
   template<typename... Args>
@@ -75,7 +93,11 @@ public:
 
           if (!ec)
           {
-            auto client = std::make_unique<listener>(std::move(socket), f);
+            auto client = std::make_shared<listener>(std::move(socket));
+            client->receive(f, [this, ptr = client.get(), life = m_life.observe()] {
+              if (!life.expired())
+                remove(ptr);
+            });
             std::lock_guard<std::mutex> lck{m_socketsMutex};
             m_sockets.push_back(std::move(client));
           }
@@ -90,20 +112,34 @@ public:
     // threads must not be interleaved.
     std::lock_guard<std::mutex> write_lck{m_writeMutex};
 
-    std::vector<listener*> clients;
+    std::vector<std::shared_ptr<listener>> clients;
     {
       std::lock_guard<std::mutex> lck{m_socketsMutex};
-      clients.reserve(m_sockets.size());
-      for(auto& sock : m_sockets)
-        clients.push_back(sock.get());
+      clients = m_sockets;
     }
 
-    multi_socket_writer<listener*> wr{clients};
+    multi_socket_writer<std::shared_ptr<listener>> wr{clients};
     encoder{wr}.write(data, sz);
   }
 
+  // The connection of a client ended
+  void remove(listener* client)
+  {
+    std::shared_ptr<listener> removed;
+    std::lock_guard<std::mutex> lck{m_socketsMutex};
+    auto it = std::find_if(m_sockets.begin(), m_sockets.end(), [=](auto& s) { return s.get() == client; });
+    if (it != m_sockets.end())
+    {
+      removed = std::move(*it);
+      m_sockets.erase(it);
+
+      // It can still be in use by the caller
+      this->m_context.post([removed = std::move(removed)] { });
+    }
+  }
+
   // Clients are added in the network thread, messages are written from any thread
-  std::vector<std::unique_ptr<listener>> m_sockets;
+  std::vector<std::shared_ptr<listener>> m_sockets;
   std::mutex m_socketsMutex;
   std::mutex m_writeMutex;
   lifetime_token m_life;
-- 
2.43.0


From 00776e640516ec8462ee8554e14dfce7288ebca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 41/60] fix: a negative size fails the stream, an empty message
 does not end it

---
 src/ossia/network/sockets/size_prefix_framing.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ossia/network/sockets/size_prefix_framing.hpp b/src/ossia/network/sockets/size_prefix_framing.hpp
index f035a43..d7a22dc 100644
--- a/src/ossia/network/sockets/size_prefix_framing.hpp
+++ b/src/ossia/network/sockets/size_prefix_framing.hpp
@@ -58,8 +58,17 @@ struct size_prefix_decoder
       return;
 
     boost::endian::big_to_native_inplace(m_next_packet_size);
-    if (m_next_packet_size <= 0)
+    if (m_next_packet_size < 0)
+    {
+      // Not something that we can resynchronize from
+      f.validate_stream(boost::asio::error::invalid_argument);
       return;
+    }
+    if (m_next_packet_size == 0)
+    {
+      this->receive(std::move(f));
+      return;
+    }
 
     try
     {
-- 
2.43.0


From 3c35eb2606089cbfe94424be4937152b5b1549cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 42/60] fix: disposed events of a scenario do not happen

---
 .../editor/scenario/detail/scenario_execution.cpp  | 13 ++++++++++---
 .../detail/scenario_sync_musical_execution.cpp     | 14 ++++++++++++++
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index cf3285b..36e72c2 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -42,6 +42,13 @@ small_sync_vec scenario::get_roots() const noexcept
   return res;
 }
 
+// The status of an event which is finished has one more bit
+static bool is_disposed(const time_event& ev) noexcept
+{
+  const auto mask = uint8_t(time_event::status::DISPOSED);
+  return (uint8_t(ev.get_status()) & mask) == mask;
+}
+
 void scenario::make_happen(
     time_event& event, interval_set& started, interval_set& stopped,
     ossia::time_value tick_offset, const ossia::token_request& tok)
@@ -104,15 +111,15 @@ void scenario::make_dispose(time_event& event, interval_set& stopped)
     for (auto& previousTimeInterval :
          nextTimeInterval->get_end_event().previous_time_intervals())
     {
-      if (previousTimeInterval->get_start_event().get_status()
-          != time_event::status::DISPOSED)
+      if (!is_disposed(previousTimeInterval->get_start_event()))
       {
         dispose = false;
         break;
       }
     }
 
-    if (dispose && !nextTimeInterval->graphal)
+    if (dispose && !nextTimeInterval->graphal
+        && !is_disposed(nextTimeInterval->get_end_event()))
       make_dispose(nextTimeInterval->get_end_event(), stopped);
   }
 
diff --git a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
index 97990dd..5706fee 100644
--- a/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_sync_musical_execution.cpp
@@ -84,12 +84,18 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
     {
       bool minimalDurationReached = true;
 
+      // An event which is only reached through disposed events does not happen
+      bool reachable = timeEvent->previous_time_intervals().empty();
+
       for (const std::shared_ptr<ossia::time_interval>& timeInterval :
            timeEvent->previous_time_intervals())
       {
         // ignore graphal intervals for the sake of allowing them to repeat
         if(timeInterval->graphal)
+        {
+          reachable = true;
           continue;
+        }
 
         const auto& ev = timeInterval->get_start_event();
         const auto start_ev_status = ev.get_status();
@@ -100,6 +106,8 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
           continue;
         }
 
+        reachable = true;
+
         // previous TimeInterval with a not yet HAPPENED start event
         // can't have reached its minimal duration
         if (!is_happened(start_ev_status) && !is_finished(start_ev_status))
@@ -117,6 +125,12 @@ int is_timesync_ready(time_sync& sync, small_event_vec& pendingEvents, bool& max
         }
       }
 
+      if (!reachable)
+      {
+        activeCount--;
+        continue;
+      }
+
       // access to PENDING status once all previous TimeIntervals allow it
       if (minimalDurationReached)
       {
-- 
2.43.0


From 9a6f387b5388e1a18f0be5ad491a39d898df8917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 43/60] fix: what waits for disposed events is ready in the
 same tick

---
 .../editor/scenario/detail/scenario_execution.cpp   | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/ossia/editor/scenario/detail/scenario_execution.cpp b/src/ossia/editor/scenario/detail/scenario_execution.cpp
index 36e72c2..6738b88 100644
--- a/src/ossia/editor/scenario/detail/scenario_execution.cpp
+++ b/src/ossia/editor/scenario/detail/scenario_execution.cpp
@@ -369,6 +369,7 @@ void scenario::state_impl(const ossia::token_request& tk)
     // running_interval are in cur_cst
     // else, add the next intervals
 
+    small_sync_vec waiting;
     do
     {
       for (const auto& timeEvent : m_maxReachedEvents)
@@ -397,6 +398,7 @@ void scenario::state_impl(const ossia::token_request& tk)
 
       m_maxReachedEvents.clear();
 
+      bool disposed = false;
       for (auto node : m_endNodes)
       {
         auto it = m_overticks.find(node);
@@ -420,9 +422,13 @@ void scenario::state_impl(const ossia::token_request& tk)
           {
             node->set_is_being_triggered(false);
             m_retry_syncs.erase(node);
+            disposed |= ossia::any_of(node->get_time_events(), [] (const auto& ev) {
+              return is_disposed(*ev);
+            });
             break;
           }
           case sync_status::NOT_READY:
+            waiting.push_back(node);
             break;
           case sync_status::RETRY:
             m_retry_syncs.insert(node);
@@ -433,6 +439,13 @@ void scenario::state_impl(const ossia::token_request& tk)
       m_endNodes.container.assign(m_retry_syncs.container.begin(), m_retry_syncs.container.end());
       m_retry_syncs.clear();
 
+      // What was only waiting for the events which are now disposed is ready in the same tick
+      if (disposed)
+      {
+        m_endNodes.insert(waiting.begin(), waiting.end());
+        waiting.clear();
+      }
+
     } while (!m_maxReachedEvents.empty() || !m_endNodes.empty());
   }
 
-- 
2.43.0


From 233e5f05341d38f67a7ed7d3f4c30ddce7776824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 44/60] fix: the last tick of a clock has the unit of the
 interval

---
 src/ossia/editor/scenario/clock.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index af64b41..2c80966 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -119,7 +119,7 @@ bool clock::tick()
     if (m_duration - m_date < Zero && !m_duration.infinite())
     {
       // notify the owner
-      m_interval.tick_offset(time_value{deltaInUs}, 0_tv, tok);
+      m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
 
       request_stop();
 
-- 
2.43.0


From 10162e60bdc02b0d7230348509bef038c250b717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 45/60] fix: a clock tells once that it stopped

---
 src/ossia/editor/scenario/clock.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index 2c80966..81d690c 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -222,9 +222,9 @@ time_value clock::get_date() const
 
 void clock::request_stop()
 {
-  if (m_running)
+  // the thread may end by itself meanwhile: only the first one notifies
+  if (m_running && !m_shouldStop.exchange(true))
   {
-    m_shouldStop = true;
     m_paused = false;
     if (m_statusCallback)
       m_statusCallback(exec_status::STOPPED);
-- 
2.43.0


From 365016a29c9a8b3cf1d21e53bd74e4431d20d7e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 46/60] fix: the date of a clock may be read by any thread

---
 src/ossia/editor/scenario/clock.cpp | 10 +++++-----
 src/ossia/editor/scenario/clock.hpp |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index 81d690c..945c633 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -42,7 +42,7 @@ void clock::start_and_tick()
   m_shouldStop = false;
 
   // set clock at a tick
-  m_date = 0_tv;
+  m_date = 0;
   m_lastTime = clock_type::now();
   m_elapsedTime = 0.;
 
@@ -67,7 +67,7 @@ void clock::stop()
 
   m_interval.stop();
 
-  m_date = 0_tv;
+  m_date = 0;
   m_lastTime = clock_type::time_point{};
   m_elapsedTime = 0;
 }
@@ -116,7 +116,7 @@ bool clock::tick()
     m_elapsedTime += droppedTicks * m_granularity.impl;
 
     // maybe the clock reaches the end ?
-    if (m_duration - m_date < Zero && !m_duration.infinite())
+    if (!m_duration.infinite() && m_duration.impl < m_date)
     {
       // notify the owner
       m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
@@ -173,7 +173,7 @@ bool clock::tick()
     m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
 
     // is this the end
-    if (m_duration - m_date < Zero && !m_duration.infinite())
+    if (!m_duration.infinite() && m_duration.impl < m_date)
     {
       request_stop();
     }
@@ -217,7 +217,7 @@ bool clock::running() const
 
 time_value clock::get_date() const
 {
-  return m_date;
+  return time_value{m_date.load()};
 }
 
 void clock::request_stop()
diff --git a/src/ossia/editor/scenario/clock.hpp b/src/ossia/editor/scenario/clock.hpp
index fa3f46b..ccdb750 100644
--- a/src/ossia/editor/scenario/clock.hpp
+++ b/src/ossia/editor/scenario/clock.hpp
@@ -107,8 +107,8 @@ private:
   time_value m_granularity{}; /// the minimum time between each tick (in ms)
 
   /// how many time the clock is running (without no speed
-  /// factor consideration)
-  time_value m_date{};
+  /// factor consideration) : read by other threads
+  std::atomic<int64_t> m_date{};
 
   std::thread m_thread; /// a thread to launch the clock execution
 
-- 
2.43.0


From ba2b3a58b7502a361efde8add9dd0fca8a381c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:10 +0000
Subject: [PATCH 47/60] fix: pausing and resuming a clock while it ticks

---
 src/ossia/editor/scenario/clock.cpp | 35 +++++++++++++++++------------
 src/ossia/editor/scenario/clock.hpp |  1 +
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/ossia/editor/scenario/clock.cpp b/src/ossia/editor/scenario/clock.cpp
index 945c633..665b43d 100644
--- a/src/ossia/editor/scenario/clock.cpp
+++ b/src/ossia/editor/scenario/clock.cpp
@@ -40,6 +40,7 @@ void clock::start_and_tick()
   m_running = true;
   m_paused = false;
   m_shouldStop = false;
+  m_resumed = false;
 
   // set clock at a tick
   m_date = 0;
@@ -84,10 +85,9 @@ bool clock::paused() const
 
 void clock::resume()
 {
+  // the time reference belongs to the thread which ticks: it will reset it
+  m_resumed = true;
   m_paused = false;
-
-  // reset the time reference
-  m_lastTime = clock_type::now();
 }
 
 bool clock::tick()
@@ -98,6 +98,10 @@ bool clock::tick()
   if (paused || !running)
     return false;
 
+  if (m_resumed.exchange(false))
+    m_lastTime = clock_type::now();
+  const auto interrupted = [this] { return m_paused || m_resumed || m_shouldStop; };
+
   int64_t droppedTicks = 0;
 
   // how many time since the last tick ?
@@ -108,6 +112,10 @@ bool clock::tick()
   droppedTicks
       = ossia::llround(std::floor(double(deltaInUs) / double(m_granularity.impl)));
 
+  // paused, or even resumed since then
+  if (interrupted())
+    return false;
+
   const auto tok = ossia::token_request{};
   // adjust date and elapsed time considering the dropped ticks
   if (droppedTicks)
@@ -156,6 +164,10 @@ bool clock::tick()
           - droppedTicks * m_granularity.impl;
   }
 
+  // test the paused and stopped status again because there is a sleep before
+  if (interrupted())
+    return false;
+
   // std::cerr << deltaInUs << std::endl;
   // how many time elapsed from the start ?
 
@@ -165,18 +177,13 @@ bool clock::tick()
   // note the time now to evaluate how long is the callback processing
   m_lastTime = clock_type::now();
 
-  // test paused and running status after computing the date because there is a
-  // sleep before
-  if (!paused && running)
-  {
-    // notify the owner
-    m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
+  // notify the owner
+  m_interval.tick(time_value{deltaInUs}, tok, m_ratio);
 
-    // is this the end
-    if (!m_duration.infinite() && m_duration.impl < m_date)
-    {
-      request_stop();
-    }
+  // is this the end
+  if (!m_duration.infinite() && m_duration.impl < m_date)
+  {
+    request_stop();
   }
 
   return true;
diff --git a/src/ossia/editor/scenario/clock.hpp b/src/ossia/editor/scenario/clock.hpp
index ccdb750..142bfc9 100644
--- a/src/ossia/editor/scenario/clock.hpp
+++ b/src/ossia/editor/scenario/clock.hpp
@@ -123,6 +123,7 @@ private:
   std::atomic_bool m_running{}; /// is the clock running right now ?
   std::atomic_bool m_paused{};  /// is the clock paused right now ?
   std::atomic_bool m_shouldStop{};
+  std::atomic_bool m_resumed{}; /// the time reference is to be reset
 
   /*! called back by the internal thread */
   void thread_callback();
-- 
2.43.0


From 1c8a658439ec848fc1b7fc6559a4b46e537eaef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 48/60] fix: no lock inversion between observed expressions and
 parameters

---
 src/ossia/detail/callback_container.hpp | 27 ++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/ossia/detail/callback_container.hpp b/src/ossia/detail/callback_container.hpp
index 8f515c1..ad4108b 100644
--- a/src/ossia/detail/callback_container.hpp
+++ b/src/ossia/detail/callback_container.hpp
@@ -87,9 +87,17 @@ public:
     T cb = callback;
     if (cb)
     {
-      std::lock_guard<std::mutex> lck{m_mutx};
-      auto it = m_callbacks.insert(m_callbacks.begin(), std::move(cb));
-      if (m_callbacks.size() == 1)
+      // m_mutx is not held while calling on_first_callback_added: it may add a
+      // callback to something which at the same time sends a value here
+      std::lock_guard<std::mutex> observe_lck{m_observeMutx};
+      iterator it;
+      bool first{};
+      {
+        std::lock_guard<std::mutex> lck{m_mutx};
+        it = m_callbacks.insert(m_callbacks.begin(), std::move(cb));
+        first = m_callbacks.size() == 1;
+      }
+      if (first)
         on_first_callback_added();
       return it;
     }
@@ -105,9 +113,11 @@ public:
    */
   void remove_callback(iterator it)
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    if (m_callbacks.size() == 1)
+    std::lock_guard<std::mutex> observe_lck{m_observeMutx};
+    if (callback_count() == 1)
       on_removing_last_callback();
+
+    std::lock_guard<std::mutex> lck{m_mutx};
     m_callbacks.erase(it);
   }
 
@@ -198,9 +208,11 @@ public:
    */
   void callbacks_clear()
   {
-    std::lock_guard<std::mutex> lck{m_mutx};
-    if (!m_callbacks.empty())
+    std::lock_guard<std::mutex> observe_lck{m_observeMutx};
+    if (!callbacks_empty())
       on_removing_last_callback();
+
+    std::lock_guard<std::mutex> lck{m_mutx};
     m_callbacks.clear();
   }
 
@@ -231,5 +243,6 @@ protected:
 private:
   impl m_callbacks;
   mutable std::mutex m_mutx;
+  std::mutex m_observeMutx; // taken before m_mutx
 };
 }
-- 
2.43.0


From 4a3dc023749c07da046da453d77abf8d60fc5838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 49/60] fix: a pulse is set by another thread

---
 src/ossia/editor/expression/expression_pulse.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/editor/expression/expression_pulse.hpp b/src/ossia/editor/expression/expression_pulse.hpp
index e6376c1..3526e7f 100644
--- a/src/ossia/editor/expression/expression_pulse.hpp
+++ b/src/ossia/editor/expression/expression_pulse.hpp
@@ -6,6 +6,7 @@
 
 #include <ossia/detail/config.hpp>
 
+#include <atomic>
 #include <memory>
 
 /**
@@ -53,7 +54,7 @@ private:
   destination m_destination;
 
   net::parameter_base::callback_index m_callback;
-  mutable bool m_result{};
+  mutable std::atomic_bool m_result{}; // set by the thread of the network
 };
 }
 }
-- 
2.43.0


From f65508a9f75dc373560bad25ed41e4fae6a25fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:29 +0000
Subject: [PATCH 50/60] fix: a sync which is reset does not observe its
 expression any more

---
 src/ossia/editor/scenario/time_sync.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/editor/scenario/time_sync.cpp b/src/ossia/editor/scenario/time_sync.cpp
index b625306..64f7566 100644
--- a/src/ossia/editor/scenario/time_sync.cpp
+++ b/src/ossia/editor/scenario/time_sync.cpp
@@ -164,7 +164,7 @@ void time_sync::reset()
   }
 
   m_trigger_date = Infinite;
-  m_observe = false;
+  observe_expression(false);
   m_evaluating = false;
 }
 
-- 
2.43.0


From aeb19cd988773eda8eaeab00e09f77eb6d1316ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 51/60] fix: order a task of the executor after all those it
 depends on

---
 src/ossia/dataflow/graph/graph_parallel_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/graph/graph_parallel_impl.hpp b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
index f7fd161..931e096 100644
--- a/src/ossia/dataflow/graph/graph_parallel_impl.hpp
+++ b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
@@ -241,7 +241,7 @@ private:
 
       std::atomic_int& remaining = nextTask.m_remaining_dependencies;
       assert(remaining > 0);
-      const int rem = remaining.fetch_sub(1, std::memory_order_relaxed) - 1;
+      const int rem = remaining.fetch_sub(1, std::memory_order_acq_rel) - 1;
       assert(rem >= 0);
       if (rem == 0)
       {
-- 
2.43.0


From 7cd5c626321b8823ed312e31e97cdb9102685fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 52/60] fix: order the end of a run of the executor after the
 end of its tasks

---
 src/ossia/dataflow/graph/graph_parallel_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/graph/graph_parallel_impl.hpp b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
index 931e096..a904b09 100644
--- a/src/ossia/dataflow/graph/graph_parallel_impl.hpp
+++ b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
@@ -276,7 +276,7 @@ private:
     }
 #endif
 
-    this->m_doneTasks.fetch_add(1, std::memory_order_relaxed);
+    this->m_doneTasks.fetch_add(1, std::memory_order_release);
   }
 
   void execute(task& task)
-- 
2.43.0


From ece2d410934141614478656f5e564ce59817f0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 53/60] fix: do not dereference missing tasks when a parallel
 graph has a cycle

---
 src/ossia/dataflow/graph/graph_parallel_impl.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_parallel_impl.hpp b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
index a904b09..3c9d698 100644
--- a/src/ossia/dataflow/graph/graph_parallel_impl.hpp
+++ b/src/ossia/dataflow/graph/graph_parallel_impl.hpp
@@ -392,9 +392,11 @@ public:
       auto& n1 = graph[edge.m_source];
       auto& n2 = graph[edge.m_target];
 
-      auto& sender = flow_nodes[n2.get()];
-      auto& receiver = flow_nodes[n1.get()];
-      sender->precede(*receiver);
+      // There are no tasks if the graph isn't a DAG
+      auto sender = flow_nodes.find(n2.get());
+      auto receiver = flow_nodes.find(n1.get());
+      if (sender != flow_nodes.end() && receiver != flow_nodes.end())
+        sender->second->precede(*receiver->second);
     }
   }
 
-- 
2.43.0


From 3829250aa7e284da9885e448b90c6ebbfeb97670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 54/60] fix: do not read past the sorted nodes when a BFS graph
 has a cycle

---
 src/ossia/dataflow/graph/graph_static.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 53371a1..6859b4b 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -175,13 +175,13 @@ public:
     auto& m_graph = g.m_graph;
     auto& m_nodes = g.m_nodes;
     auto& m_all_nodes = g.m_all_nodes;
-    const auto N = boost::num_vertices(m_graph);
     // m_color.clear();
     // m_color.reserve(N);
     m_sub_graph = m_graph;
 
     g.sort_all_nodes(m_graph);
-    // m_active_nodes is in topo order
+    // m_active_nodes is in topo order (and empty if the graph isn't a DAG)
+    const auto N = m_all_nodes.size();
 
     for (std::size_t i = 0; i < N; i++)
     {
-- 
2.43.0


From 67174cc177d9e2c00c98732cf9dcb2a8a1f7c593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 55/60] fix: run nodes without ports after the nodes they
 depend on

---
 src/ossia/dataflow/graph/graph_static.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/ossia/dataflow/graph/graph_static.hpp b/src/ossia/dataflow/graph/graph_static.hpp
index 6859b4b..799c651 100644
--- a/src/ossia/dataflow/graph/graph_static.hpp
+++ b/src/ossia/dataflow/graph/graph_static.hpp
@@ -43,25 +43,27 @@ public:
       m_topo_order_cache.reserve(m_nodes.size());
       boost::topological_sort(gr, std::back_inserter(m_topo_order_cache));
 
-      // First put the ones without any I/O (most likely states)
-      for (auto vtx : m_topo_order_cache)
-      {
+      // First put the ones without any I/O (most likely states),
+      // unless they explicitly depend on other nodes
+      auto goes_first = [&](graph_vertex_t vtx) {
         auto node = gr[vtx].get();
         assert(node);
-        if(node->root_inputs().empty() && node->root_outputs().empty())
+        return node->root_inputs().empty() && node->root_outputs().empty()
+               && boost::out_degree(vtx, gr) == 0;
+      };
+      for (auto vtx : m_topo_order_cache)
+      {
+        if (goes_first(vtx))
         {
-          m_all_nodes.push_back(node);
+          m_all_nodes.push_back(gr[vtx].get());
         }
       }
       // Then the others
       for (auto vtx : m_topo_order_cache)
       {
-        auto node = gr[vtx].get();
-        assert(node);
-
-        if(!(node->root_inputs().empty() && node->root_outputs().empty()))
+        if (!goes_first(vtx))
         {
-          m_all_nodes.push_back(node);
+          m_all_nodes.push_back(gr[vtx].get());
         }
       }
     }
-- 
2.43.0


From 814a4997d0b498be27e595d94a1c1ac32b57dac0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 56/60] fix: keep the timestamp of values written to ports

---
 src/ossia/dataflow/data.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ossia/dataflow/data.cpp b/src/ossia/dataflow/data.cpp
index 3daa45b..0db0ddd 100644
--- a/src/ossia/dataflow/data.cpp
+++ b/src/ossia/dataflow/data.cpp
@@ -175,13 +175,13 @@ void value_port::write_value(const value& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(v);
+      data.emplace_back(v, timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(v);
+    this->data.emplace_back(v, timestamp);
     break;
   }
   case data_mix_method::mix_merge:
@@ -207,13 +207,13 @@ void value_port::write_value(value&& v, int64_t timestamp)
     }
     else
     {
-      data.emplace_back(std::move(v));
+      data.emplace_back(std::move(v), timestamp);
     }
     break;
   }
   case data_mix_method::mix_append:
   {
-    this->data.emplace_back(std::move(v));
+    this->data.emplace_back(std::move(v), timestamp);
     break;
   }
   case data_mix_method::mix_merge:
-- 
2.43.0


From 5aaea44bb0ef41cc830c9a689de094c32faa26c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:53 +0000
Subject: [PATCH 57/60] fix: do not lock the mutex of execution_state twice
 when a state is inserted

---
 src/ossia/dataflow/execution_state.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ossia/dataflow/execution_state.cpp b/src/ossia/dataflow/execution_state.cpp
index 7372d58..43719f1 100644
--- a/src/ossia/dataflow/execution_state.cpp
+++ b/src/ossia/dataflow/execution_state.cpp
@@ -874,7 +874,7 @@ struct state_exec_visitor
 
   void operator()(const ossia::message& msg)
   {
-    OSSIA_EXEC_STATE_LOCK_WRITE(e);
+    // The mutex is already locked by execution_state::insert
     e.m_valueState[&msg.dest.address()].emplace_back(
         ossia::typed_value{msg.message_value, msg.dest.index, msg.dest.unit},
         e.m_msgIndex++);
-- 
2.43.0


From 20922d1c09ed1704d4caf0281fdf8b4516b1a44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 58/60] fix: read lists of mixed types from presets

---
 src/ossia/preset/preset.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index c7c7f30..544999e 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -451,21 +451,21 @@ ossia::value json_to_ossia_value(const rapidjson::Value& value)
       switch (N)
       {
         case 2:
-          if (value[0].IsDouble() && value[1].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble())
             return ossia::make_vec(value[0].GetDouble(), value[1].GetDouble());
           else
             return handle_vec(value);
         case 3:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble());
           else
             return handle_vec(value);
         case 4:
-          if (value[0].IsDouble() && value[1].GetDouble()
-              && value[2].GetDouble() && value[3].GetDouble())
+          if (value[0].IsDouble() && value[1].IsDouble()
+              && value[2].IsDouble() && value[3].IsDouble())
             return ossia::make_vec(
                 value[0].GetDouble(), value[1].GetDouble(),
                 value[2].GetDouble(), value[3].GetDouble());
-- 
2.43.0


From fea7b9da72bce3b39b00ebd3d07c4b27451411b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 59/60] fix: a preset may have a value for a node without
 parameter

---
 src/ossia/preset/preset.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 544999e..42c3d21 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1141,7 +1141,8 @@ void apply_preset_node(
     }
     else
     {
-      root.get_parameter()->push_value(val);
+      if (auto param = root.get_parameter())
+        param->push_value(val);
     }
   }
   else
-- 
2.43.0


From f86399c74a62875a7c4d8867dc72f21756b23dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 60/60] fix: report errors while a preset is read

---
 src/ossia/preset/preset.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ossia/preset/preset.cpp b/src/ossia/preset/preset.cpp
index 42c3d21..b82d409 100644
--- a/src/ossia/preset/preset.cpp
+++ b/src/ossia/preset/preset.cpp
@@ -1085,7 +1085,9 @@ const std::string ossia::presets::read_file(const std::string& filename)
     std::ifstream file;
     file.exceptions(std::ifstream::failbit | std::ifstream::badbit);
     file.open(filename);
-    buffer << file.rdbuf();
+    // operator<< would swallow errors while reading
+    std::string content{std::istreambuf_iterator<char>{file}, {}};
+    buffer << content;
     file.close();
   }
   return buffer.str();
-- 
2.43.0

