From 0aa915db2e6bcf6094e607459ca5d4a452540cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 01/47] fix: moving an nio keeps its write buffer

---
 src/include/cppev/nio.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index c1f4c88..24f1ea3 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -160,7 +160,7 @@ protected:
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-        this->wbuffer_ = std::move(other.rbuffer_);
+        this->wbuffer_ = std::move(other.wbuffer_);
         this->evlp_ = other.evlp_;
 
         other.fd_ = -1;
-- 
2.43.0


From 41c42c57c3a7871751538ddc3e9a7b6c8247bfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 02/47] fix: move assignment of an nio closes the descriptor it
 replaces

---
 src/include/cppev/nio.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/cppev/nio.h b/src/include/cppev/nio.h
index 24f1ea3..0cc0d30 100644
--- a/src/include/cppev/nio.h
+++ b/src/include/cppev/nio.h
@@ -58,6 +58,7 @@ public:
     nio &operator=(const nio &) = delete;
 
     nio(nio &&other) noexcept
+    : fd_(-1), closed_(true), evlp_(nullptr)
     {
         if (&other == this)
         {
@@ -157,6 +158,10 @@ protected:
 
     void move(nio &&other) noexcept
     {
+        if (!closed_)
+        {
+            close();
+        }
         this->fd_ = other.fd_;
         this->closed_ = other.closed_;
         this->rbuffer_ = std::move(other.rbuffer_);
-- 
2.43.0


From ee14ca02648184d4dd78f23a260897c379aa90b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 03/47] fix: a moved-from buffer is empty and usable

---
 src/include/cppev/buffer.h | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index d2ff8a9..2dd1a93 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -49,9 +49,17 @@ public:
         return *this;
     }
 
-    buffer(buffer &&other) noexcept = default;
+    buffer(buffer &&other) noexcept
+    : cap_(0), start_(0), offset_(0)
+    {
+        move(std::move(other));
+    }
 
-    buffer &operator=(buffer &&other) = default;
+    buffer &operator=(buffer &&other) noexcept
+    {
+        move(std::move(other));
+        return *this;
+    }
 
     ~buffer() = default;
 
@@ -198,6 +206,21 @@ private:
     // Heap buffer
     std::unique_ptr<char[]> buffer_;
 
+    // Move function for move contructor and move assignment, the source becomes an empty buffer
+    void move(buffer &&other) noexcept
+    {
+        if (&other != this)
+        {
+            this->cap_ = other.cap_;
+            this->start_ = other.start_;
+            this->offset_ = other.offset_;
+            this->buffer_ = std::move(other.buffer_);
+            other.cap_ = 0;
+            other.start_ = 0;
+            other.offset_ = 0;
+        }
+    }
+
     // Copy function for copy contructor and copy assignment
     void copy(const buffer &other) noexcept
     {
-- 
2.43.0


From c148e52747b6a50acc43a5566f1fcc95587997c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 04/47] fix: buffer(int) may throw, so it is not noexcept

---
 src/include/cppev/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/cppev/buffer.h b/src/include/cppev/buffer.h
index 2dd1a93..51b70ba 100644
--- a/src/include/cppev/buffer.h
+++ b/src/include/cppev/buffer.h
@@ -24,7 +24,7 @@ public:
     {
     }
 
-    explicit buffer(int cap) noexcept
+    explicit buffer(int cap)
     : cap_(cap), start_(0), offset_(0)
     {
         if (cap_ < 1)
-- 
2.43.0


From 531af221d4d9c9d5196a08c2f409d881705f3539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 05/47] fix: closing an nio twice does not close the descriptor
 number again

---
 src/lib/nio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index bbecc9f..0465868 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -21,7 +21,7 @@ namespace cppev
 
 void nio::close() noexcept
 {
-    if (fd_ != -1)
+    if (fd_ != -1 && !closed_)
     {
         ::close(fd_);
     }
-- 
2.43.0


From d3585d65219bbf2c02a99c367493ce824540813f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 06/47] fix: nsocktcp::shutdown only shuts down the requested
 direction

---
 src/lib/nio.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 0465868..ddaf487 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -498,14 +498,17 @@ void nsocktcp::shutdown(shut_mode howto) noexcept
     case shut_mode::shut_rd :
     {
         ::shutdown(fd_, SHUT_RD);
+        break;
     }
     case shut_mode::shut_wr :
     {
         ::shutdown(fd_, SHUT_WR);
+        break;
     }
     case shut_mode::shut_rdwr :
     {
         ::shutdown(fd_, SHUT_RDWR);
+        break;
     }
     default: ;
     }
-- 
2.43.0


From 51451aee0e6c66b5b50a607c13fa8f0fcb7f2085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 07/47] fix: nsockudp::recv reports errors and accepts empty
 datagrams

---
 src/lib/nio.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index ddaf487..3a66703 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -654,7 +654,7 @@ std::tuple<std::string, int, family> nsockudp::recv()
     socklen_t len = faddr_len_.at(family_);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("recvfrom error");
     }
-- 
2.43.0


From 03fb8aa89740019b1fb102f6b27cd42f9c8ab699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 08/47] fix: unconsumed data does not shrink the room
 nsockudp::recv offers a datagram

---
 src/lib/nio.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 3a66703..733819c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -652,6 +652,7 @@ std::tuple<std::string, int, family> nsockudp::recv()
 {
     sockaddr_storage addr;
     socklen_t len = faddr_len_.at(family_);
+    rbuffer().resize(rbuffer().offset_ + sysconfig::udp_buffer_size);
     int ret = recvfrom(fd_, rbuffer().buffer_.get() + rbuffer().offset_,
         rbuffer().cap_ - rbuffer().offset_, 0, (sockaddr *)&addr, &len);
     if (ret < 0)
-- 
2.43.0


From 1aa8a6b321d3e494d511a0188bd796cf49ad86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 09/47] fix: a failed datagram send throws and keeps the write
 buffer

---
 src/lib/nio.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 733819c..7f80c4c 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -674,7 +674,7 @@ void nsockudp::send(const char *ip, int port)
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, faddr_len_.at(family_));
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("sendto error");
     }
@@ -688,7 +688,7 @@ void nsockudp::send_unix(const char *path)
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
         0, (sockaddr *)&addr, SUN_LEN((sockaddr_un *)&addr));
-    if (ret == 0)
+    if (ret < 0)
     {
         throw_system_error("sendto error");
     }
-- 
2.43.0


From 31fff0968724efa709d5c537e2b740b6af0d3a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 10/47] fix: datagram destination addresses are fully
 initialised

---
 src/lib/nio.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 7f80c4c..7e663cd 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -670,6 +670,7 @@ std::tuple<std::string, int, family> nsockudp::recv()
 void nsockudp::send(const char *ip, int port)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_ip_port(addr, ip, port);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
@@ -684,6 +685,7 @@ void nsockudp::send(const char *ip, int port)
 void nsockudp::send_unix(const char *path)
 {
     sockaddr_storage addr;
+    memset(&addr, 0, sizeof(addr));
     addr.ss_family = fmap_.at(family_);
     set_path(addr, path);
     int ret = sendto(fd_, wbuffer().buffer_.get() + wbuffer().start_, wbuffer().size(),
-- 
2.43.0


From db2312a12045b173a4c38967053a4dfee9691b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 11/47] fix: an overlong unix socket path is rejected instead
 of truncated

---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 7e663cd..5a9f33a 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -238,6 +238,10 @@ static void set_ip_port(sockaddr_storage &addr, const char *ip, int port)
 static void set_path(sockaddr_storage &addr, const char *path)
 {
     sockaddr_un *ap = (sockaddr_un *)(&addr);
+    if (strlen(path) >= sizeof(ap->sun_path))
+    {
+        throw_system_error("unix socket path error", ENAMETOOLONG);
+    }
     strncpy(ap->sun_path, path, sizeof(ap->sun_path) - 1);
 }
 
-- 
2.43.0


From dfed6958ecc68eb9d8aaca07b2a1b29124b03eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 12/47] fix: accept survives signals and connections aborted
 while queued

---
 src/lib/nio.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index 5a9f33a..d9cdf67 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -635,6 +635,10 @@ std::vector<std::shared_ptr<nsocktcp>> nsocktcp::accept(int batch)
             {
                 break;
             }
+            else if (errno == EINTR || errno == ECONNABORTED)
+            {
+                continue;
+            }
             else
             {
                 throw_system_error("accept error");
-- 
2.43.0


From 97b7f8ccf8997ffe45b23d73c16057b50588d60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:00 +0000
Subject: [PATCH 13/47] fix: get_fifos closes the read end when the write end
 cannot be opened

---
 src/lib/nio.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/nio.cc b/src/lib/nio.cc
index d9cdf67..5c8db3b 100644
--- a/src/lib/nio.cc
+++ b/src/lib/nio.cc
@@ -763,7 +763,9 @@ std::vector<std::shared_ptr<nstream>> get_fifos(const std::string &path)
     int fdw = open(path.c_str(), O_WRONLY | O_NONBLOCK);
     if (fdw == -1)
     {
-        throw_system_error("open error");
+        int err = errno;
+        close(fdr);
+        throw_system_error("open error", err);
     }
     std::vector<std::shared_ptr<nstream>> fifos =
     {
-- 
2.43.0


From 3b80ba88d60348fad3800e046224e04ceb7be125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 14/47] fix: register a new connection before handing it to
 on_accept/on_connect, which may write to or close it

---
 src/lib/tcp.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 7361feb..66ccb75 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -117,8 +117,8 @@ void iohandler::on_acpt_writable(const std::shared_ptr<nio> &iop)
     iopt->evlp().fd_remove(iop, true);
     // The sequence CANNOT be changed, since on_accept may call async_write
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_accept(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_accept(iopt);
 }
 
 void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
@@ -143,8 +143,8 @@ void iohandler::on_cont_writable(const std::shared_ptr<nio> &iop)
     tp_shared_data *dp = reinterpret_cast<tp_shared_data *>(iop->evlp().data());
     // The sequence CANNOT be changed since on_connect may call aysnc_write
     iopt->evlp().fd_register(iop, fd_event::fd_writable, iohandler::on_writable, false);
-    dp->on_connect(iopt);
     iopt->evlp().fd_register(iop, fd_event::fd_readable, iohandler::on_readable, true);
+    dp->on_connect(iopt);
 }
 
 void iohandler::run_impl()
-- 
2.43.0


From bbe9d09b70f98486a772a71baf64cf5163329788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 15/47] fix: wait for readability again before
 on_write_complete, which may start another write

---
 src/lib/tcp.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 66ccb75..0a9593f 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -93,11 +93,8 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
     if (0 == iopt->wbuffer().size())
     {
         iopt->evlp().fd_remove(iop, false);
+        iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
-        if (!iopt->is_closed())
-        {
-            iopt->evlp().fd_register(iop, fd_event::fd_readable);
-        }
     }
     if (iopt->eop() || iopt->is_reset())
     {
-- 
2.43.0


From bc282d7784affa1c89009eb62f45aefb0316c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 16/47] fix: a connection the user closed in a callback is not
 removed from epoll or reported closed again

---
 src/lib/tcp.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 0a9593f..887083d 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -74,10 +74,13 @@ void iohandler::on_readable(const std::shared_ptr<nio> &iop)
     iopt->read_all();
     dp->on_read_complete(iopt);
     iopt->rbuffer().clear();
-    if (iopt->eof() || iopt->is_reset())
+    if ((iopt->eof() || iopt->is_reset()) && !iopt->is_closed())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
@@ -96,10 +99,13 @@ void iohandler::on_writable(const std::shared_ptr<nio> &iop)
         iopt->evlp().fd_register(iop, fd_event::fd_readable);
         dp->on_write_complete(iopt);
     }
-    if (iopt->eop() || iopt->is_reset())
+    if ((iopt->eop() || iopt->is_reset()) && !iopt->is_closed())
     {
         dp->on_closed(iopt);
-        iopt->evlp().fd_remove(iop, true);
+        if (!iopt->is_closed())
+        {
+            iopt->evlp().fd_remove(iop, true);
+        }
     }
 }
 
-- 
2.43.0


From 7ef8c4345b7b3e6acd5cb0fa8b7ff863d7ec7f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 17/47] fix: connector::add writes its wake-up pipe under the
 lock

---
 src/lib/tcp.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index 887083d..b2b6ae2 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -226,10 +226,10 @@ void connector::add(const std::string &ip, int port, family f, int t)
         {
             hosts_[h] = t;
         }
+        // The wake-up pipe's buffer is shared by all adding threads too
+        wrp_->wbuffer().put_string("0");
+        wrp_->write_all(1);
     }
-
-    wrp_->wbuffer().put_string("0");
-    wrp_->write_all(1);
 }
 
 void connector::add_unix(const std::string &path, int t)
-- 
2.43.0


From 6800b0e4a8b1e427680c891a4b2d410fe572ce2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 18/47] fix: the logger writes out everything logged before it
 is destroyed

---
 src/lib/async_logger.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index fad5cd3..c0fc26e 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -34,7 +34,10 @@ async_logger::~async_logger()
     {
         return;
     }
-    stop_ = true;
+    {
+        std::unique_lock<std::recursive_mutex> lock(lock_);
+        stop_ = true;
+    }
     cond_.notify_one();
     join();
 }
@@ -112,13 +115,17 @@ async_logger &async_logger::operator<<(const async_logger &)
 
 void async_logger::run_impl()
 {
-    while (!stop_)
+    while (true)
     {
         int prev = -1;
         {
             std::unique_lock<std::recursive_mutex> lock(lock_);
             if (0 == buffers_[curr_].size())
             {
+                if (stop_)
+                {
+                    break;
+                }
                 cond_.wait(lock,
                     [this]() -> bool
                     {
-- 
2.43.0


From 7d8570ef0f088c24a91468fdb7a89f13bc3b4e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 19/47] fix: the logger completes short writes instead of
 dropping the rest

---
 src/lib/async_logger.cc | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index c0fc26e..1986ce0 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -7,6 +7,8 @@
 #include <string>
 #include <unordered_set>
 #include <cassert>
+#include <cerrno>
+#include <poll.h>
 #include <unistd.h>
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
@@ -139,10 +141,22 @@ void async_logger::run_impl()
 
         buffer &buf = buffers_[prev];
 
-        if (buf.size())
+        while (buf.size())
         {
-            write(level_, buf.rawbuf(), buf.size());
-            buf.clear();
+            int ret = write(level_, buf.rawbuf(), buf.size());
+            if (ret > 0)
+            {
+                buf.consume(ret);
+            }
+            else if (errno == EAGAIN || errno == EWOULDBLOCK)
+            {
+                pollfd pfd = { level_, POLLOUT, 0 };
+                poll(&pfd, 1, -1);
+            }
+            else if (errno != EINTR)
+            {
+                buf.clear();
+            }
         }
     }
 }
-- 
2.43.0


From 463aef4f5e63cb8df4da9429f15d440ad79b0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 20/47] fix: logging a std::string keeps what follows a NUL

---
 src/lib/async_logger.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/async_logger.cc b/src/lib/async_logger.cc
index 1986ce0..61d1526 100644
--- a/src/lib/async_logger.cc
+++ b/src/lib/async_logger.cc
@@ -46,7 +46,10 @@ async_logger::~async_logger()
 
 async_logger &async_logger::operator<<(const std::string &str)
 {
-    return (*this) << str.c_str();
+    std::unique_lock<std::recursive_mutex> lock(lock_);
+    (*this) << "";
+    buffers_[curr_].put_string(str);
+    return *this;
 }
 
 async_logger &async_logger::operator<<(long x)
-- 
2.43.0


From 9cafb0e6dc63f5c6526d9383b30ca28368efcab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 21/47] fix: the one time fence releases every waiter

---
 src/lib/lock.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index b87c2d9..f8c7d96 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -236,7 +236,7 @@ void pshared_one_time_fence::notify()
     {
         std::unique_lock<pshared_lock> lock(lock_);
         ok_ = true;
-        cond_.notify_one();
+        cond_.notify_all();
     }
 }
 
-- 
2.43.0


From ca7de6817f4a0149c063b314db20f21e5653096a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 22/47] fix: the one time fence flag is read without the lock,
 so it is atomic

---
 src/include/cppev/lock.h | 2 +-
 src/lib/lock.cc          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index d62bf86..8f1152e 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -111,7 +111,7 @@ public:
     bool ok() const noexcept;
 
 private:
-    bool ok_;
+    std::atomic<bool> ok_;
 
     pshared_lock lock_;
 
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index f8c7d96..74d93b9 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -225,7 +225,7 @@ void pshared_one_time_fence::wait()
         std::unique_lock<pshared_lock> lock(lock_);
         if (!ok_)
         {
-            cond_.wait(lock, [this](){ return ok_; });
+            cond_.wait(lock, [this]() -> bool { return ok_; });
         }
     }
 }
-- 
2.43.0


From dcaa32df70dd592499de8a3bd58fe08e680fa0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 23/47] fix: a late extra barrier waiter does not strand the
 waiters already released

---
 src/lib/lock.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 74d93b9..123855e 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -254,18 +254,18 @@ pshared_barrier::pshared_barrier(int count)
 void pshared_barrier::wait()
 {
     std::unique_lock<pshared_lock> lock(lock_);
+    if (count_ <= 0)
+    {
+        throw_logic_error("too many threads waited in the barrier");
+    }
     --count_;
     if (count_ == 0)
     {
         cond_.notify_all();
     }
-    else if (count_ > 0)
-    {
-        cond_.wait(lock, [this]() { return count_ == 0; });
-    }
     else
     {
-        throw_logic_error("too many threads waited in the barrier");
+        cond_.wait(lock, [this]() { return count_ == 0; });
     }
 }
 
-- 
2.43.0


From 2ae5a7b347f885b07169db395b49dc192144ffb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 24/47] fix: assigning to a lock guard releases the lock it
 held

---
 src/lib/lock.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index 123855e..bd9f069 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -373,8 +373,12 @@ rdlockguard::rdlockguard(rdlockguard &&other) noexcept
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        rdlockguard released(std::move(*this));
+        this->rwlock_ = other.rwlock_;
+        other.rwlock_ = nullptr;
+    }
 
     return *this;
 }
@@ -418,8 +422,12 @@ wrlockguard::wrlockguard(wrlockguard &&other) noexcept
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 {
-    this->rwlock_ = other.rwlock_;
-    other.rwlock_ = nullptr;
+    if (&other != this)
+    {
+        wrlockguard released(std::move(*this));
+        this->rwlock_ = other.rwlock_;
+        other.rwlock_ = nullptr;
+    }
 
     return *this;
 }
-- 
2.43.0


From 117beef46323239553afc6e8896594d7d8bf2924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 25/47] fix: a lock guard does not unlock again what its user
 already unlocked

---
 src/include/cppev/lock.h |  6 ++++++
 src/lib/lock.cc          | 22 ++++++++++++++++++----
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/include/cppev/lock.h b/src/include/cppev/lock.h
index 8f1152e..31bb2f6 100644
--- a/src/include/cppev/lock.h
+++ b/src/include/cppev/lock.h
@@ -184,6 +184,9 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the lock is held by this guard
+    bool locked_;
 };
 
 class wrlockguard final
@@ -204,6 +207,9 @@ public:
 
 private:
     pshared_rwlock *rwlock_;
+
+    // Whether the lock is held by this guard
+    bool locked_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/lock.cc b/src/lib/lock.cc
index bd9f069..a366c46 100644
--- a/src/lib/lock.cc
+++ b/src/lib/lock.cc
@@ -360,15 +360,18 @@ bool pshared_rwlock::try_wrlock()
 
 
 rdlockguard::rdlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), locked_(false)
 {
     rwlock_->rdlock();
+    locked_ = true;
 }
 
 rdlockguard::rdlockguard(rdlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->locked_ = other.locked_;
     other.rwlock_ = nullptr;
+    other.locked_ = false;
 }
 
 rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
@@ -377,7 +380,9 @@ rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
     {
         rdlockguard released(std::move(*this));
         this->rwlock_ = other.rwlock_;
+        this->locked_ = other.locked_;
         other.rwlock_ = nullptr;
+        other.locked_ = false;
     }
 
     return *this;
@@ -385,7 +390,7 @@ rdlockguard &rdlockguard::operator=(rdlockguard &&other) noexcept
 
 rdlockguard::~rdlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    if (rwlock_ != nullptr && locked_)
     {
         try
         {
@@ -400,24 +405,29 @@ rdlockguard::~rdlockguard() noexcept
 void rdlockguard::lock()
 {
     rwlock_->rdlock();
+    locked_ = true;
 }
 
 void rdlockguard::unlock()
 {
     rwlock_->unlock();
+    locked_ = false;
 }
 
 
 wrlockguard::wrlockguard(pshared_rwlock &lock)
-: rwlock_(&lock)
+: rwlock_(&lock), locked_(false)
 {
     rwlock_->wrlock();
+    locked_ = true;
 }
 
 wrlockguard::wrlockguard(wrlockguard &&other) noexcept
 {
     this->rwlock_ = other.rwlock_;
+    this->locked_ = other.locked_;
     other.rwlock_ = nullptr;
+    other.locked_ = false;
 }
 
 wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
@@ -426,7 +436,9 @@ wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
     {
         wrlockguard released(std::move(*this));
         this->rwlock_ = other.rwlock_;
+        this->locked_ = other.locked_;
         other.rwlock_ = nullptr;
+        other.locked_ = false;
     }
 
     return *this;
@@ -434,7 +446,7 @@ wrlockguard &wrlockguard::operator=(wrlockguard &&other) noexcept
 
 wrlockguard::~wrlockguard() noexcept
 {
-    if (rwlock_ != nullptr)
+    if (rwlock_ != nullptr && locked_)
     {
         try
         {
@@ -449,11 +461,13 @@ wrlockguard::~wrlockguard() noexcept
 void wrlockguard::lock()
 {
     rwlock_->wrlock();
+    locked_ = true;
 }
 
 void wrlockguard::unlock()
 {
     rwlock_->unlock();
+    locked_ = false;
 }
 
 }   // namespace cppev
\ No newline at end of file
-- 
2.43.0


From 05de0c3fc400785c73291dfda9bab4b131e8530e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 26/47] fix: creating shared memory does not clear it after
 others may have attached

---
 src/lib/ipc.cc | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 9224798..b7d5ee6 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -57,10 +57,6 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         throw_system_error("mmap error");
     }
     close(fd);
-    if (creator_)
-    {
-        memset(ptr_, 0, size_);
-    }
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From cea2b25794a61e63b09b5fc24ab725e962f2d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:50 +0000
Subject: [PATCH 27/47] fix: shared memory closes its descriptor when it cannot
 be sized or mapped

---
 src/lib/ipc.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index b7d5ee6..3f43136 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -48,15 +48,18 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         int ret = ftruncate(fd, size_);
         if (ret == -1)
         {
-            throw_system_error("ftruncate error");
+            int err = errno;
+            close(fd);
+            throw_system_error("ftruncate error", err);
         }
     }
     ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
+    int err = errno;
+    close(fd);
     if (ptr_ == MAP_FAILED)
     {
-        throw_system_error("mmap error");
+        throw_system_error("mmap error", err);
     }
-    close(fd);
 }
 
 shared_memory::~shared_memory() noexcept
-- 
2.43.0


From 93c95d606e7a18dd8cda2626b78f1537eb1b32d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 28/47] fix: move assignment of shared_memory unmaps what it
 replaces

---
 src/include/cppev/ipc.h | 4 ++++
 src/lib/ipc.cc          | 9 +++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index 459b076..be5beeb 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -17,6 +17,7 @@ public:
     shared_memory &operator=(const shared_memory &) = delete;
 
     shared_memory(shared_memory &&other) noexcept
+    : size_(0), ptr_(nullptr), creator_(false)
     {
         if (&other == this)
         {
@@ -66,8 +67,11 @@ public:
     }
 
 private:
+    void close() noexcept;
+
     void move(shared_memory &&other) noexcept
     {
+        close();
         this->name_ = other.name_;
         this->size_ = other.size_;
         this->ptr_ = other.ptr_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 3f43136..c828326 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -49,13 +49,13 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         if (ret == -1)
         {
             int err = errno;
-            close(fd);
+            ::close(fd);
             throw_system_error("ftruncate error", err);
         }
     }
     ptr_ = mmap(nullptr, size_, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
     int err = errno;
-    close(fd);
+    ::close(fd);
     if (ptr_ == MAP_FAILED)
     {
         throw_system_error("mmap error", err);
@@ -63,6 +63,11 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
 }
 
 shared_memory::~shared_memory() noexcept
+{
+    close();
+}
+
+void shared_memory::close() noexcept
 {
     if (ptr_ != nullptr && size_ != 0)
     {
-- 
2.43.0


From 2178f8b38b0ccd2f412ea05c0fb53ecce9f45b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 29/47] fix: move assignment of a semaphore closes what it
 replaces

---
 src/include/cppev/ipc.h | 4 ++++
 src/lib/ipc.cc          | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/src/include/cppev/ipc.h b/src/include/cppev/ipc.h
index be5beeb..29a7466 100644
--- a/src/include/cppev/ipc.h
+++ b/src/include/cppev/ipc.h
@@ -101,6 +101,7 @@ public:
     semaphore &operator=(const semaphore &) = delete;
 
     semaphore(semaphore &&other) noexcept
+    : sem_(SEM_FAILED), creator_(false)
     {
         if (&other == this)
         {
@@ -135,8 +136,11 @@ public:
     }
 
 private:
+    void close() noexcept;
+
     void move(semaphore &&other) noexcept
     {
+        close();
         this->name_ = other.name_;
         this->sem_ = other.sem_;
         this->creator_ = other.creator_;
diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index c828326..17e547d 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -122,6 +122,11 @@ semaphore::semaphore(const std::string &name, mode_t mode)
 }
 
 semaphore::~semaphore() noexcept
+{
+    close();
+}
+
+void semaphore::close() noexcept
 {
     if (sem_ != SEM_FAILED)
     {
-- 
2.43.0


From f073a4e8fd77a4969e41864d3b0df08ab008e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 30/47] fix: a signal does not abort semaphore::acquire half
 way

---
 src/lib/ipc.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 17e547d..2d15713 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -154,8 +154,12 @@ void semaphore::acquire(int count)
 {
     for (int i = 0; i < count; ++i)
     {
-        if (sem_wait(sem_) == -1)
+        while (sem_wait(sem_) == -1)
         {
+            if (errno == EINTR)
+            {
+                continue;
+            }
             throw_system_error("sem_wait error");
         }
     }
-- 
2.43.0


From 5f1c8939a42f2f23ac2b02bb6c262bb9ffb859fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 31/47] fix: attaching to shared memory that is not sized yet
 does not map past its end

---
 src/lib/ipc.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/lib/ipc.cc b/src/lib/ipc.cc
index 2d15713..c6cbaff 100644
--- a/src/lib/ipc.cc
+++ b/src/lib/ipc.cc
@@ -3,6 +3,7 @@
 #include <fcntl.h>
 #include <unistd.h>
 #include <sys/mman.h>
+#include <sys/stat.h>
 
 namespace cppev
 {
@@ -43,7 +44,15 @@ shared_memory::shared_memory(const std::string &name, int size, mode_t mode)
         }
     }
 
-    if (creator_)
+    struct stat st;
+    if (fstat(fd, &st) == -1)
+    {
+        int err = errno;
+        ::close(fd);
+        throw_system_error("fstat error", err);
+    }
+    // The creator may not have sized the object yet when others attach
+    if (st.st_size < size_)
     {
         int ret = ftruncate(fd, size_);
         if (ret == -1)
-- 
2.43.0


From eb6a0d336809a350c9989a40eeab4c624caa7fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 32/47] fix: polling a subprocess again after it was reaped
 does not exit the caller

---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 6e1a59d..134785c 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -86,6 +86,9 @@ private:
     pid_t pid_;
 
     int returncode_;
+
+    // Whether the subprocess has terminated and been reaped
+    bool exited_;
 };
 
 }   // namespace cppev
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 4749909..81b47b9 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -28,7 +28,7 @@ std::tuple<int, std::string, std::string> exec_cmd(const std::string &cmd, const
 }   // namespace subprocess
 
 subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env)
-: cmd_(cmd), env_(env)
+: cmd_(cmd), env_(env), pid_(-1), returncode_(-1), exited_(false)
 {
     int fds[2];
     int zero, one, two;
@@ -95,12 +95,17 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
 bool subp_open::poll()
 {
+    if (exited_)
+    {
+        return true;
+    }
     int ret = waitpid(pid_, &returncode_, WNOHANG);
     if (ret == -1)
     {
-        _exit(-1);
+        throw_system_error("waitpid error");
     }
-    return ret != 0;
+    exited_ = (ret != 0);
+    return exited_;
 }
 
 void subp_open::wait()
-- 
2.43.0


From 77f9b52a04a356ad84ded449ca7065aeebd3f185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:16 +0000
Subject: [PATCH 33/47] fix: a failed fork throws instead of exiting the caller

---
 src/lib/subprocess.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 81b47b9..ab10482 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -58,7 +58,7 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == -1)
     {
-        _exit(-1);
+        throw_system_error("fork error");
     }
 
     if (pid == 0)
-- 
2.43.0


From 082333bc1906092aa0f04a17abfad03faaef2a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 34/47] fix: subp_open leaks no pipe ends into the caller or
 the subprocess

---
 src/include/cppev/subprocess.h |  3 +++
 src/lib/subprocess.cc          | 26 +++++++++++++++++++-------
 2 files changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/include/cppev/subprocess.h b/src/include/cppev/subprocess.h
index 134785c..e985f11 100644
--- a/src/include/cppev/subprocess.h
+++ b/src/include/cppev/subprocess.h
@@ -79,6 +79,9 @@ private:
 
     std::unique_ptr<nstream> stdin_;
 
+    // Read end of stdin, kept open so that writing to a terminated subprocess raises no SIGPIPE
+    std::unique_ptr<nstream> child_stdin_;
+
     std::unique_ptr<nstream> stdout_;
 
     std::unique_ptr<nstream> stderr_;
diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index ab10482..0888ce7 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -31,29 +31,34 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 : cmd_(cmd), env_(env), pid_(-1), returncode_(-1), exited_(false)
 {
     int fds[2];
-    int zero, one, two;
+    std::unique_ptr<nstream> one, two;
 
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
-    zero = fds[0];
+    child_stdin_ = std::make_unique<nstream>(fds[0]);
     stdin_ = std::make_unique<nstream>(fds[1]);
 
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
-    one = fds[1];
+    one = std::make_unique<nstream>(fds[1]);
     stdout_ = std::make_unique<nstream>(fds[0]);
 
     if (pipe(fds) < 0)
     {
         throw_system_error("pipe error");
     }
-    two = fds[1];
+    two = std::make_unique<nstream>(fds[1]);
     stderr_ = std::make_unique<nstream>(fds[0]);
 
+    // The subprocess uses its ends as blocking
+    child_stdin_->set_io_block();
+    one->set_io_block();
+    two->set_io_block();
+
     pid_t pid = fork();
 
     if (pid == -1)
@@ -63,9 +68,16 @@ subp_open::subp_open(const std::string &cmd, const std::vector<std::string> &env
 
     if (pid == 0)
     {
-        dup2(zero, STDIN_FILENO);
-        dup2(one, STDOUT_FILENO);
-        dup2(two, STDERR_FILENO);
+        dup2(child_stdin_->fd(), STDIN_FILENO);
+        dup2(one->fd(), STDOUT_FILENO);
+        dup2(two->fd(), STDERR_FILENO);
+        for (int fd : { child_stdin_->fd(), one->fd(), two->fd(), stdin_->fd(), stdout_->fd(), stderr_->fd() })
+        {
+            if (fd > STDERR_FILENO)
+            {
+                close(fd);
+            }
+        }
 
         std::vector<std::string> cmd_with_args = split(cmd_, " ");
         std::string cmd_with_path = cmd_with_args[0];
-- 
2.43.0


From 503d290c013cabb238ec7c1b4a76a72c94739775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 35/47] fix: joining no strings yields the empty string

---
 src/lib/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index a4c507c..5ad92b9 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -384,6 +384,10 @@ std::vector<std::string> split(const std::string &str, const std::string &sep)
 std::string join(const std::vector<std::string> &str_arr, const std::string &sep) noexcept
 {
     std::string ret = "";
+    if (str_arr.empty())
+    {
+        return ret;
+    }
     size_t size = 0;
     for (size_t i = 0; i < str_arr.size(); ++i)
     {
-- 
2.43.0


From 032a9ce4aa2e1f1ef0b6431b9b0e0602d1251262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 36/47] fix: rstrip compares before stripping when the strip
 string spans all that is left

---
 src/lib/utils.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 5ad92b9..31f04dc 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -450,9 +450,9 @@ static std::string do_strip(const std::string &str, const std::string &chars, co
         {
             bool eq = true;
             size_t j = chars.size() - 1;
-            for (size_t i = r - 1; i > r - chars.size() - 1; --i)
+            for (size_t i = r; i > r - chars.size(); --i)
             {
-                if (str[i] != chars[j--])
+                if (str[i - 1] != chars[j--])
                 {
                     eq = false;
                     break;
-- 
2.43.0


From 907ad6d6163695dc84e55f16e34cc4067c748a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 37/47] fix: sleep_until can be instantiated

---
 src/include/cppev/utils.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/utils.h b/src/include/cppev/utils.h
index ca3f9ab..fb965f7 100644
--- a/src/include/cppev/utils.h
+++ b/src/include/cppev/utils.h
@@ -62,7 +62,8 @@ std::string timestamp(time_t t = -1, const char *format = nullptr);
 template <typename Clock = std::chrono::system_clock>
 void sleep_until(const std::chrono::nanoseconds &stamp)
 {
-    std::this_thread::sleep_until(std::chrono::duration_cast<Clock::duration>(stamp));
+    std::this_thread::sleep_until(typename Clock::time_point(
+        std::chrono::duration_cast<typename Clock::duration>(stamp)));
 }
 
 template <typename Clock = std::chrono::system_clock>
-- 
2.43.0


From db35b72a3f44021325d5c2c360e5bf1976b0485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 38/47] fix: check_process reports a process it may not signal
 as existing

---
 src/lib/utils.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 31f04dc..9990685 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -157,6 +157,10 @@ bool check_process(pid_t pid)
         {
             return false;
         }
+        else if (errno == EPERM)
+        {
+            return true;
+        }
         throw_system_error("kill error");
     }
     return true;
-- 
2.43.0


From 58b540ef1b9447a9f40d7e8213c75626ea6717db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 39/47] fix: a sigwait failure reports the error it returned

---
 src/lib/utils.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 9990685..356b2dc 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -189,9 +189,10 @@ void thread_wait_for_signal(int sig)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
 }
 
@@ -206,9 +207,10 @@ int thread_wait_for_signal(const std::vector<int> &sigs)
 
     // linux requires non-null
     int ret_sig;
-    if (sigwait(&set, &ret_sig) != 0)
+    int ret = sigwait(&set, &ret_sig);
+    if (ret != 0)
     {
-        throw_system_error("sigwait error");
+        throw_system_error("sigwait error", ret);
     }
     return ret_sig;
 }
-- 
2.43.0


From fb6cde1206ee082a7b1281393b70624a2207341f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 40/47] fix: the scheduler stop flag is shared with its thread,
 so it is atomic

---
 src/include/cppev/scheduler.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 3294926..01b5e77 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -12,6 +12,7 @@
 #include <map>
 #include <thread>
 #include <algorithm>
+#include <atomic>
 #include "cppev/utils.h"
 
 namespace cppev
@@ -153,7 +154,7 @@ public:
 
 private:
     // whether thread shall stop
-    bool stop_;
+    std::atomic<bool> stop_;
 
     // time interval in nanoseconds
     int64_t interval_;
-- 
2.43.0


From 868610753e4d311347b581ea097626005f5ff01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 41/47] fix: a scheduler without timer tasks is rejected

---
 src/include/cppev/scheduler.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/include/cppev/scheduler.h b/src/include/cppev/scheduler.h
index 01b5e77..82c5e63 100644
--- a/src/include/cppev/scheduler.h
+++ b/src/include/cppev/scheduler.h
@@ -46,6 +46,10 @@ public:
     )
     : stop_(false)
     {
+        if (timer_tasks.empty())
+        {
+            throw_logic_error("timer tasks shall not be empty");
+        }
         std::priority_queue<std::tuple<priority, size_t>, std::vector<std::tuple<priority, size_t>>,
             tuple_less<std::tuple<priority, size_t>, 0>> timer_tasks_heap;
         for (size_t i = 0; i < timer_tasks.size(); ++i)
-- 
2.43.0


From bee984d1e5cd6efd5111ffea9ba8b337b0d7078d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 42/47] fix: the event loop stop flag is shared between
 threads, so it is atomic

---
 src/include/cppev/event_loop.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/include/cppev/event_loop.h b/src/include/cppev/event_loop.h
index 0edb3ef..b4c7a45 100644
--- a/src/include/cppev/event_loop.h
+++ b/src/include/cppev/event_loop.h
@@ -6,6 +6,7 @@
 #include <unistd.h>
 #include <queue>
 #include <tuple>
+#include <atomic>
 #include <mutex>
 #include <functional>
 #include "cppev/nio.h"
@@ -136,7 +137,7 @@ private:
     std::unordered_map<int, fd_event> fd_events_;
 
     // Whether loop forever shall be stopped
-    bool stop_;
+    std::atomic<bool> stop_;
 };
 
 }   // namespace cppev
-- 
2.43.0


From 0d94cb6a1c4f723725a8f8b19b26aca9459c00b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:59 +0000
Subject: [PATCH 43/47] fix: cppev.h includes every header of the library

---
 src/include/cppev/cppev.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/include/cppev/cppev.h b/src/include/cppev/cppev.h
index 7d7b512..3df37d4 100644
--- a/src/include/cppev/cppev.h
+++ b/src/include/cppev/cppev.h
@@ -3,6 +3,7 @@
 
 #include "cppev/async_logger.h"
 #include "cppev/buffer.h"
+#include "cppev/dynamic_loader.h"
 #include "cppev/utils.h"
 #include "cppev/sysconfig.h"
 #include "cppev/event_loop.h"
@@ -10,6 +11,7 @@
 #include "cppev/lock.h"
 #include "cppev/nio.h"
 #include "cppev/runnable.h"
+#include "cppev/scheduler.h"
 #include "cppev/subprocess.h"
 #include "cppev/tcp.h"
 #include "cppev/thread_pool.h"
-- 
2.43.0


From 3e4e0fe8d5493ea3e3b928bf33515d092855b992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 44/47] fix: input larger than the pipe reaches the subprocess

---
 src/lib/subprocess.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 0888ce7..1b499bc 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -133,6 +133,10 @@ void subp_open::communicate(const char *input, int len)
     if (input != nullptr && len != 0)
     {
         stdin_->wbuffer().produce(input, len);
+    }
+    // Input that did not fit into the pipe last time is written too
+    if (stdin_->wbuffer().size() != 0)
+    {
         stdin_->write_all();
     }
 }
-- 
2.43.0


From bd4aa1d97f78b049a5b5d71c7b57ebb15cd065ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 45/47] fix: no signal is sent to a subprocess that was already
 reaped

---
 src/lib/subprocess.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lib/subprocess.cc b/src/lib/subprocess.cc
index 1b499bc..b79cd55 100644
--- a/src/lib/subprocess.cc
+++ b/src/lib/subprocess.cc
@@ -153,6 +153,11 @@ void subp_open::communicate(const std::string &input)
 
 void subp_open::send_signal(int sig) const
 {
+    // The process id of a reaped subprocess may belong to another process by now
+    if (exited_)
+    {
+        throw_system_error("kill error", ESRCH);
+    }
     if (::kill(pid(), sig) < 0)
     {
         throw_system_error("kill error");
-- 
2.43.0


From 39d67ba5dccba9eb8dc8dd45a0b23bfdf5c809fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 46/47] fix: a listener that cannot be set up is not kept by
 the server

---
 src/lib/tcp.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/lib/tcp.cc b/src/lib/tcp.cc
index b2b6ae2..ad98c65 100644
--- a/src/lib/tcp.cc
+++ b/src/lib/tcp.cc
@@ -316,14 +316,16 @@ tcp_server::tcp_server(int thr_num, void *external_data)
 
 void tcp_server::listen(int port, family f, const char *ip)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen(port, f, ip);
+    auto acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen(port, f, ip);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::listen_unix(const std::string &path, bool remove)
 {
-    acpts_.push_back(std::make_unique<acceptor>(&data_));
-    acpts_.back()->listen_unix(path, remove);
+    auto acpt = std::make_unique<acceptor>(&data_);
+    acpt->listen_unix(path, remove);
+    acpts_.push_back(std::move(acpt));
 }
 
 void tcp_server::run()
-- 
2.43.0


From b244d0492bee7cf818bbd175884c59e1226afd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:03 +0000
Subject: [PATCH 47/47] fix: a time without a local date is thrown instead of
 formatting what was on the stack

---
 src/lib/utils.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/utils.cc b/src/lib/utils.cc
index 356b2dc..a940a66 100644
--- a/src/lib/utils.cc
+++ b/src/lib/utils.cc
@@ -37,7 +37,10 @@ std::string timestamp(time_t t, const char *format)
         format = "%F %T %Z";
     }
     tm s_tm;
-    localtime_r(&t, &s_tm);
+    if (localtime_r(&t, &s_tm) == nullptr)
+    {
+        throw_system_error("localtime_r error");
+    }
     char buf[1024];
     memset(buf, 0, 1024);
     if (0 == strftime(buf, 1024, format, &s_tm))
-- 
2.43.0

