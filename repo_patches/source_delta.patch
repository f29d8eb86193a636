From 660e5f8747e5530d7ae7e6ca06854fa2b3fe5af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:09 +0000
Subject: [PATCH 01/26] fix: qualify align in sink::post_with_str_table

Logging a string together with an argument whose alignment exceeds that of a
function pointer did not compile.
---
 include/xtr/sink.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/sink.hpp b/include/xtr/sink.hpp
index 66e88fd..f768b91 100644
--- a/include/xtr/sink.hpp
+++ b/include/xtr/sink.hpp
@@ -285,7 +285,7 @@ void xtr::sink::post_with_str_table(Args&&... args)
 
     auto func_pos = s.begin() + sizeof(fptr_t);
     if constexpr (alignof(lambda_t) > alignof(fptr_t))
-        func_pos = align<alignof(lambda_t)>(func_pos);
+        func_pos = detail::align<alignof(lambda_t)>(func_pos);
 
     static_assert(alignof(char) == 1);
     const auto str_pos = func_pos + sizeof(lambda_t);
-- 
2.43.0


From 76781fd2cc036c6e2780aa60ba472feeda930f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:33:48 +0000
Subject: [PATCH 02/26] fix: sanitize strings moved into the log record

std::string arguments passed by r-value bypassed sanitizing, so terminal escape
sequences and newlines in them were written to the log verbatim.
---
 include/xtr/detail/string_table.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_table.hpp b/include/xtr/detail/string_table.hpp
index e2a7ebd..3b7fe16 100644
--- a/include/xtr/detail/string_table.hpp
+++ b/include/xtr/detail/string_table.hpp
@@ -55,12 +55,23 @@ namespace xtr::detail
     };
 
     template<typename T>
-    requires (!std::same_as<std::remove_cvref_t<T>, string_table_entry>)
+    requires
+        (!std::same_as<std::remove_cvref_t<T>, string_table_entry> &&
+         !std::same_as<std::remove_cvref_t<T>, std::string>)
     T&& transform_string_table_entry(const std::byte*, T&& value)
     {
         return std::forward<T>(value);
     }
 
+    // Strings which were moved into the log record, rather than being copied
+    // into the string table, must still be sanitized.
+    inline string_ref<std::string_view> transform_string_table_entry(
+        const std::byte*,
+        const std::string& str)
+    {
+        return string_ref<std::string_view>(str);
+    }
+
     inline string_ref<std::string_view> transform_string_table_entry(
         std::byte*& pos,
         string_table_entry entry)
-- 
2.43.0


From ec53cbfc481a038c6b77dc22d5d9b7eed999474a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:37 +0000
Subject: [PATCH 03/26] fix: retry fsync(2) if interrupted

---
 src/fd_storage_base.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fd_storage_base.cpp b/src/fd_storage_base.cpp
index 45db47f..bb58e49 100644
--- a/src/fd_storage_base.cpp
+++ b/src/fd_storage_base.cpp
@@ -49,7 +49,7 @@ xtr::detail::fd_storage_base::fd_storage_base(int fd, std::string reopen_path)
 XTR_FUNC
 void xtr::detail::fd_storage_base::sync() noexcept
 {
-    ::fsync(fd_.get());
+    XTR_TEMP_FAILURE_RETRY(::fsync(fd_.get()));
 }
 
 XTR_FUNC
-- 
2.43.0


From 940b983edf589c049ebacc558d9498970dc055fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:37 +0000
Subject: [PATCH 04/26] fix: do not submit a buffer twice if allocating the
 next one fails

---
 src/buffer.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer.cpp b/src/buffer.cpp
index 021c71a..c8a28de 100644
--- a/src/buffer.cpp
+++ b/src/buffer.cpp
@@ -114,7 +114,12 @@ XTR_FUNC
 void xtr::detail::buffer::next_buffer()
 {
     if (pos_ != begin_) [[likely]] // if not the first call to push_back
+    {
         storage_->submit_buffer(begin_, std::size_t(pos_ - begin_));
+        // Forget the buffer before allocating the next one, so that it is not
+        // submitted again if allocate_buffer throws.
+        pos_ = begin_ = end_ = nullptr;
+    }
     const std::span<char> s = storage_->allocate_buffer();
     begin_ = s.data();
     end_ = begin_ + s.size();
-- 
2.43.0


From 30c24f96f41c2428c1bd494fe0ecab5672355c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:37 +0000
Subject: [PATCH 05/26] fix: clear user data of close operations in
 io_uring_fd_storage

---
 src/io_uring_fd_storage.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 32b1f41..8c313e4 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -170,6 +170,9 @@ void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
     // ensure that all previous writes complete before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
+    // The SQE may have been used by a write before, in which case it still
+    // refers to the buffer that was written.
+    ::io_uring_sqe_set_data(sqe, nullptr);
     sqe->flags |= IOSQE_IO_DRAIN;
     ++pending_cqe_count_;
     io_uring_submit_func_(&ring_);
-- 
2.43.0


From eddec663407bbd1d5107ae780086f99d9d796c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:37 +0000
Subject: [PATCH 06/26] fix: finish pending io_uring writes before replacing
 the descriptor

---
 src/io_uring_fd_storage.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 8c313e4..a5242e7 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -165,9 +165,18 @@ void xtr::io_uring_fd_storage::submit_buffer(char* data, std::size_t size)
 XTR_FUNC
 void xtr::io_uring_fd_storage::replace_fd(int newfd) noexcept
 {
-    // As write events might be in-flight, closing the file descriptor must
-    // be queued up behind any pending writes. IOSQE_IO_DRAIN is used to
-    // ensure that all previous writes complete before closing.
+    // Pending writes must be finished before the file descriptor is replaced:
+    // if a write is short or fails with EAGAIN then the remainder has to be
+    // written to the old file.
+    if (pending_cqe_count_ > 0)
+    {
+        io_uring_submit_func_(&ring_);
+        while (pending_cqe_count_ > 0)
+            wait_for_one_cqe();
+    }
+
+    // IOSQE_IO_DRAIN is used to ensure that all previous operations complete
+    // before closing.
     io_uring_sqe* sqe = get_sqe();
     ::io_uring_prep_close(sqe, fd_.release());
     // The SQE may have been used by a write before, in which case it still
-- 
2.43.0


From 56d5f73a910cdb734a45f6120129dfbb2c64f04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 07/26] fix: limit the io_uring batch size to the number of
 buffers

---
 src/io_uring_fd_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index a5242e7..90877d3 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -26,6 +26,7 @@
 
 #include <liburing.h>
 
+#include <algorithm>
 #include <cassert>
 #include <cstdio>
 #include <cstring>
@@ -46,7 +47,9 @@ xtr::io_uring_fd_storage::io_uring_fd_storage(
 :
     fd_storage_base(fd, std::move(reopen_path)),
     buffer_capacity_(buffer_capacity),
-    batch_size_(batch_size),
+    // If no more than batch_size - 1 buffers exist then they would never be
+    // submitted, as submission happens when the batch is full.
+    batch_size_(std::max(std::min(batch_size, queue_size), std::size_t(1))),
     io_uring_submit_func_(io_uring_submit_func),
     io_uring_get_sqe_func_(io_uring_get_sqe_func),
     io_uring_wait_cqe_func_(io_uring_wait_cqe_func),
-- 
2.43.0


From 5040d6dd7fb55a4c77759a50f7d8aff369a4f13e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 08/26] fix: release the ring if io_uring_fd_storage
 construction fails

---
 src/io_uring_fd_storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/io_uring_fd_storage.cpp b/src/io_uring_fd_storage.cpp
index 90877d3..99541a0 100644
--- a/src/io_uring_fd_storage.cpp
+++ b/src/io_uring_fd_storage.cpp
@@ -223,6 +223,8 @@ void xtr::io_uring_fd_storage::allocate_buffers(std::size_t queue_size)
     if (const int errnum =
         ::io_uring_register_buffers(&ring_, &iov[0], unsigned(iov.size())))
     {
+        // The destructor will not run as the constructor has not completed
+        ::io_uring_queue_exit(&ring_);
         detail::throw_system_error_fmt(
             -errnum,
             "xtr::io_uring_fd_storage::allocate_buffers: "
-- 
2.43.0


From 40133e9caba3b594385815abb1a903181614090b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 09/26] fix: keep the reopen path when falling back to
 posix_fd_storage

---
 src/fd_storage.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index b6e4520..c798811 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -69,7 +69,8 @@ xtr::storage_interface_ptr xtr::make_fd_storage(int fd, std::string reopen_path)
     {
         try
         {
-            return std::make_unique<io_uring_fd_storage>(fd, std::move(reopen_path));
+            // reopen_path is not moved, as it is needed below upon failure
+            return std::make_unique<io_uring_fd_storage>(fd, reopen_path);
         }
         catch (const std::exception& e)
         {
-- 
2.43.0


From 1d7f4866c733f946ce90013701c61f633d612a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 10/26] fix: do not leak the descriptor opened by
 make_fd_storage

---
 src/fd_storage.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/fd_storage.cpp b/src/fd_storage.cpp
index c798811..c74d5c0 100644
--- a/src/fd_storage.cpp
+++ b/src/fd_storage.cpp
@@ -23,6 +23,7 @@
 #include "xtr/io/io_uring_fd_storage.hpp"
 #include "xtr/io/posix_fd_storage.hpp"
 
+#include "xtr/detail/file_descriptor.hpp"
 #include "xtr/detail/retry.hpp"
 #include "xtr/detail/throw.hpp"
 
@@ -39,17 +40,18 @@
 XTR_FUNC
 xtr::storage_interface_ptr xtr::make_fd_storage(const char* path)
 {
-    const int fd =
+    // The storage duplicates the descriptor, so it is closed upon return
+    const detail::file_descriptor fd(
         XTR_TEMP_FAILURE_RETRY(
             ::open(
                 path,
                 O_CREAT|O_APPEND|O_WRONLY,
-                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH));
+                S_IRUSR|S_IWUSR|S_IRGRP|S_IWGRP|S_IROTH|S_IWOTH)));
 
-    if (fd == -1)
+    if (!fd)
         detail::throw_system_error_fmt(errno, "Failed to open `%s'", path);
 
-    return make_fd_storage(fd, path);
+    return make_fd_storage(fd.get(), path);
 }
 
 XTR_FUNC
-- 
2.43.0


From 341a8a5e37590bf81b9c5cb4061fc950d4719ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 11/26] fix: reject negative levels in set_level requests

---
 src/consumer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index eaa00fb..4341f95 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -217,7 +217,7 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
 {
     sl.pattern.text[sizeof(sl.pattern.text) - 1] = '\0';
 
-    if (sl.level > xtr::log_level_t::debug)
+    if (sl.level < xtr::log_level_t::none || sl.level > xtr::log_level_t::debug)
     {
         cmds_->send_error(fd, "Invalid level");
         return;
-- 
2.43.0


From 8739bb7febbe4a55d9c3fe2ded86dbff52570e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:48:14 +0000
Subject: [PATCH 12/26] fix: round times before the epoch down to a whole
 second

---
 include/xtr/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index b72b054..a448f2d 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -344,7 +344,7 @@ private:
                 const auto now = clock_.now();
                 auto sec = time_point_cast<seconds>(now);
                 if (sec > now)
-                    sec - seconds{1};
+                    sec -= seconds{1};
                 return std::timespec{
                     .tv_sec=sec.time_since_epoch().count(),
                     .tv_nsec=duration_cast<nanoseconds>(now - sec).count()};
-- 
2.43.0


From 7ecd40d56df3a44d1950c28d9d0bc7d2e5647d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:28 +0000
Subject: [PATCH 13/26] fix: flush data logged just before a sink is closed

---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 4341f95..0e0563e 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -98,6 +98,8 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
+            // Data may have been written before the sink was closed
+            flush_count = sinks_.size();
             continue;
         }
 
-- 
2.43.0


From b75982c4659d7b231e22452631e2100d404a1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:28 +0000
Subject: [PATCH 14/26] fix: hold the control mutex while syncing the control
 sink

---
 src/logger.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 386fdce..b68092d 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -43,7 +43,8 @@ void xtr::logger::register_sink(sink& s, std::string name) noexcept
 XTR_FUNC
 void xtr::logger::set_command_path(std::string path) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [s = std::move(path)](detail::consumer& c, auto&) mutable
         {
             c.set_command_path(std::move(s));
@@ -54,7 +55,8 @@ void xtr::logger::set_command_path(std::string path) noexcept
 XTR_FUNC
 void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 {
-    post(
+    std::scoped_lock lock{control_mutex_};
+    control_.post(
         [=](detail::consumer& c, auto&)
         {
             c.buf.lstyle = level_style;
-- 
2.43.0


From 57c81b978b61a575ff7b01a4c6f32ede434fd071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:28 +0000
Subject: [PATCH 15/26] fix: make the default log level atomic

---
 include/xtr/logger.hpp | 3 ++-
 src/logger.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xtr/logger.hpp b/include/xtr/logger.hpp
index a448f2d..089196f 100644
--- a/include/xtr/logger.hpp
+++ b/include/xtr/logger.hpp
@@ -31,6 +31,7 @@
 #include "log_level.hpp"
 #include "sink.hpp"
 
+#include <atomic>
 #include <chrono>
 #include <cstdio>
 #include <ctime>
@@ -354,7 +355,7 @@ private:
     jthread consumer_;
     sink control_;
     std::mutex control_mutex_;
-    log_level_t default_log_level_ = log_level_t::info;
+    std::atomic<log_level_t> default_log_level_{log_level_t::info};
 
     friend sink;
 };
diff --git a/src/logger.cpp b/src/logger.cpp
index b68092d..2345975 100644
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -25,7 +25,7 @@
 XTR_FUNC
 xtr::sink xtr::logger::get_sink(std::string name)
 {
-    return sink(*this, std::move(name), default_log_level_);
+    return sink(*this, std::move(name), default_log_level_.load(std::memory_order_relaxed));
 }
 
 XTR_FUNC
@@ -68,5 +68,5 @@ void xtr::logger::set_log_level_style(log_level_style_t level_style) noexcept
 XTR_FUNC
 void xtr::logger::set_default_log_level(log_level_t level)
 {
-    default_log_level_ = level;
+    default_log_level_.store(level, std::memory_order_relaxed);
 }
-- 
2.43.0


From c794e43e8571df44fb4cd4e415aa27b41ef43268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:28 +0000
Subject: [PATCH 16/26] fix: report messages dropped before a sink is closed

---
 include/xtr/detail/consumer.hpp |  5 +++++
 src/consumer.cpp                | 27 ++++++++++++++++++++-------
 src/sink.cpp                    |  7 ++++++-
 3 files changed, 31 insertions(+), 8 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index e2bda1d..687170e 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -81,8 +81,13 @@ public:
 
     buffer buf;
     bool destroy = false;
+    std::size_t destroy_dropped_count = 0; // valid if destroy is true
 
 private:
+    void report_dropped(
+        const char* ts,
+        const std::string& name,
+        std::size_t n_dropped) noexcept;
     void status_handler(int fd, detail::status&);
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
diff --git a/src/consumer.cpp b/src/consumer.cpp
index 0e0563e..dd4da0c 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -95,6 +95,10 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
 
         if (destroy)
         {
+            // The sink may no longer exist, so the number of messages dropped
+            // since the last report was saved when the sink was closed
+            if (destroy_dropped_count > 0)
+                report_dropped(ts, sinks_[n].name, destroy_dropped_count);
             using std::swap;
             swap(sinks_[n], sinks_.back()); // possible self-swap, ok
             sinks_.pop_back();
@@ -110,13 +114,7 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
         if (sinks_[n]->buf_.read_span().empty() &&
             (n_dropped = sinks_[n]->buf_.dropped_count()) > 0)
         {
-            detail::print(
-                buf,
-                "{}{} {}: {} messages dropped\n",
-                log_level_t::warning,
-                ts,
-                sinks_[n].name,
-                n_dropped);
+            report_dropped(ts, sinks_[n].name, n_dropped);
             sinks_[n].dropped_count += n_dropped;
         }
 
@@ -125,6 +123,21 @@ void xtr::detail::consumer::run(std::function<::timespec()>&& clock) noexcept
     }
 }
 
+XTR_FUNC
+void xtr::detail::consumer::report_dropped(
+    const char* ts,
+    const std::string& name,
+    std::size_t n_dropped) noexcept
+{
+    detail::print(
+        buf,
+        "{}{} {}: {} messages dropped\n",
+        log_level_t::warning,
+        ts,
+        name,
+        n_dropped);
+}
+
 XTR_FUNC
 void xtr::detail::consumer::add_sink(sink& s, const std::string& name)
 {
diff --git a/src/sink.cpp b/src/sink.cpp
index 1f7b744..68b0513 100644
--- a/src/sink.cpp
+++ b/src/sink.cpp
@@ -71,7 +71,12 @@ void xtr::sink::close()
 {
     if (open_)
     {
-        sync_post([](detail::consumer& c) { c.destroy = true; });
+        sync_post(
+            [this](detail::consumer& c)
+            {
+                c.destroy = true;
+                c.destroy_dropped_count = buf_.dropped_count();
+            });
         open_ = false;
         // clear() is called here in case the sink is registered with the
         // logger again, e.g. via assignment. This is because when the
-- 
2.43.0


From b9250b751dfeb5c81282cf483692b7fe54c018f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:52:22 +0000
Subject: [PATCH 17/26] fix: do not write data twice after a write error in
 posix_fd_storage

---
 include/xtr/io/posix_fd_storage.hpp |  1 +
 src/posix_fd_storage.cpp            | 12 ++++++++----
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/xtr/io/posix_fd_storage.hpp b/include/xtr/io/posix_fd_storage.hpp
index 98a0512..af3f1b2 100644
--- a/include/xtr/io/posix_fd_storage.hpp
+++ b/include/xtr/io/posix_fd_storage.hpp
@@ -74,6 +74,7 @@ public:
 private:
     std::unique_ptr<char[]> buf_;
     std::size_t buffer_capacity_;
+    std::size_t nwritten_ = 0;
 };
 
 #endif
diff --git a/src/posix_fd_storage.cpp b/src/posix_fd_storage.cpp
index 052c86e..979659d 100644
--- a/src/posix_fd_storage.cpp
+++ b/src/posix_fd_storage.cpp
@@ -43,16 +43,20 @@ xtr::posix_fd_storage::posix_fd_storage(
 XTR_FUNC
 std::span<char> xtr::posix_fd_storage::allocate_buffer()
 {
+    nwritten_ = 0;
     return {buf_.get(), buffer_capacity_};
 }
 
 XTR_FUNC
 void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
 {
-    while (size > 0)
+    // If writing part of the buffer failed then the buffer is submitted again
+    // later, so the part that was written (if any) must be skipped.
+    while (nwritten_ < size)
     {
         const ::ssize_t nwritten =
-            XTR_TEMP_FAILURE_RETRY(::write(fd_.get(), buf, size));
+            XTR_TEMP_FAILURE_RETRY(
+                ::write(fd_.get(), buf + nwritten_, size - nwritten_));
         if (nwritten == -1)
         {
             detail::throw_system_error_fmt(
@@ -60,7 +64,7 @@ void xtr::posix_fd_storage::submit_buffer(char* buf, std::size_t size)
                 "xtr::posix_fd_storage::submit_buffer: write failed");
             return;
         }
-        size -= std::size_t(nwritten);
-        buf += std::size_t(nwritten);
+        nwritten_ += std::size_t(nwritten);
     }
+    nwritten_ = 0;
 }
-- 
2.43.0


From 2198cd03c029d7ba0acc3dbe034b2ce818209c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:22:17 +0000
Subject: [PATCH 18/26] fix: do not read past the end of pollfds_ after a
 disconnect

If the last descriptor was disconnected then pollfds_[i] was accessed
after the element had been erased.
---
 src/command_dispatcher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/command_dispatcher.cpp b/src/command_dispatcher.cpp
index 2566293..f54be84 100644
--- a/src/command_dispatcher.cpp
+++ b/src/command_dispatcher.cpp
@@ -157,7 +157,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
 
     for (std::size_t i = 1; i < pollfds_.size() && nfds > 0; ++i)
     {
-        const int fd = pollfds_[i].fd.get();
+        const std::size_t n = pollfds_.size();
         if ((pollfds_[i].revents & POLLOUT) != 0)
         {
             process_socket_write(pollfds_[i]);
@@ -168,7 +168,7 @@ void xtr::detail::command_dispatcher::process_commands(int timeout) noexcept
             process_socket_read(pollfds_[i]);
             --nfds;
         }
-        if (fd != pollfds_[i].fd.get())
+        if (pollfds_.size() < n)
             --i; // Adjust for erased item
     }
 }
-- 
2.43.0


From 4d958b157d133a67751aedbbec1b2997e86e6c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:55 +0000
Subject: [PATCH 19/26] fix: do not read an arbitrary byte received from a
 client as a bool

---
 include/xtr/detail/commands/pattern.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/commands/pattern.hpp b/include/xtr/detail/commands/pattern.hpp
index cde5971..6503a7f 100644
--- a/include/xtr/detail/commands/pattern.hpp
+++ b/include/xtr/detail/commands/pattern.hpp
@@ -28,7 +28,7 @@ namespace xtr::detail
     struct pattern
     {
         pattern_type_t type;
-        bool ignore_case;
+        unsigned char ignore_case; // Not bool, any value may be received
         char text[256];
     };
 }
-- 
2.43.0


From dcb95dbf48a3264e47b55fd0477914746bca7951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:02 +0000
Subject: [PATCH 20/26] fix: apply commands to all sinks after the control sink
 is closed

The control sink was assumed to be the first sink, however once it is
closed (when the logger is being destructed) another sink takes its place.
---
 include/xtr/detail/consumer.hpp |  2 ++
 src/consumer.cpp                | 12 ++++--------
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/include/xtr/detail/consumer.hpp b/include/xtr/detail/consumer.hpp
index 687170e..e61d38b 100644
--- a/include/xtr/detail/consumer.hpp
+++ b/include/xtr/detail/consumer.hpp
@@ -66,6 +66,7 @@ public:
     consumer(buffer&& bf, sink* control, std::string command_path)
     :
         buf(std::move(bf)),
+        control_(control),
         sinks_({{control, "control", 0}})
     {
         set_command_path(std::move(command_path));
@@ -92,6 +93,7 @@ private:
     void set_level_handler(int fd, detail::set_level&);
     void reopen_handler(int fd, detail::reopen&);
 
+    const sink* control_; // may be closed before other sinks
     std::vector<sink_handle> sinks_;
     std::unique_ptr<
         detail::command_dispatcher,
diff --git a/src/consumer.cpp b/src/consumer.cpp
index dd4da0c..8711754 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -208,11 +208,9 @@ void xtr::detail::consumer::status_handler(int fd, detail::status& st)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         detail::frame<detail::sink_info> sif;
@@ -250,11 +248,9 @@ void xtr::detail::consumer::set_level_handler(int fd, detail::set_level& sl)
         return;
     }
 
-    for (std::size_t i = 1; i < sinks_.size(); ++i)
+    for (auto& s : sinks_)
     {
-        auto& s = sinks_[i];
-
-        if (!(*matcher)(s.name.c_str()))
+        if (s.p == control_ || !(*matcher)(s.name.c_str()))
             continue;
 
         s->set_level(sl.level);
-- 
2.43.0


From a693adce9a74c9aa88ab0f0f9645e310bd642589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:04:01 +0000
Subject: [PATCH 21/26] fix: do not unmap the mirror twice if
 mirrored_memory_mapping fails

---
 src/mirrored_memory_mapping.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/mirrored_memory_mapping.cpp b/src/mirrored_memory_mapping.cpp
index 70c05f0..f062355 100644
--- a/src/mirrored_memory_mapping.cpp
+++ b/src/mirrored_memory_mapping.cpp
@@ -128,9 +128,15 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
             prot,
             MAP_FIXED|MAP_SHARED|MAP_ANONYMOUS|flags);
 
+        // The mirror lies within reserve, so if an error occurs it will be
+        // unmapped by reserve (unmapping it twice may unmap an unrelated
+        // mapping). Otherwise it is unmapped by ~mirrored_memory_mapping.
+        void* const mirror_addr = mirror.get();
+        mirror.release();
+
         m_.reset(
             ::mremap(
-                mirror.get(),
+                mirror_addr,
                 0,
                 length,
                 MREMAP_FIXED|MREMAP_MAYMOVE,
@@ -146,7 +152,6 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         }
 
         reserve.release(); // mapping was destroyed by mremap
-        mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
         return;
 #else
         if (!(temp_fd = shm_open_anon(O_RDWR, S_IRUSR|S_IWUSR)))
@@ -180,10 +185,11 @@ xtr::detail::mirrored_memory_mapping::mirrored_memory_mapping(
         fd,
         offset);
 
+    mirror.release(); // as above, reserve unmaps the mirror upon error
+
     m_ = memory_mapping(reserve.get(), length, prot, flags, fd, offset);
 
     reserve.release(); // mapping was destroyed when m_ was created
-    mirror.release(); // mirror will be recreated in ~mirrored_memory_mapping
 }
 
 XTR_FUNC
-- 
2.43.0


From b575c178d4a5f1bc5dd5404f891383c3b3c48fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 22/26] fix: synchronise the TSC with the wall clock on first
 use even if the TSC has run for less than a minute

---
 src/tsc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 1565473..10f9bde 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -159,8 +159,8 @@ std::timespec xtr::detail::tsc::to_timespec(tsc ts)
     static const std::uint64_t one_minute_ticks = 60 * get_tsc_hz();
     static const double tsc_multiplier = 1e9 / double(get_tsc_hz());
 
-    // Sync up TSC and wall clocks every minute
-    if (ts.ticks > last_tsc.ticks + one_minute_ticks)
+    // Sync up TSC and wall clocks initially, then every minute
+    if (last_tsc.ticks == 0 || ts.ticks > last_tsc.ticks + one_minute_ticks)
     {
         last_tsc = tsc::now();
         std::timespec temp;
-- 
2.43.0


From e327e4b074b9de593a73c74c58af5defd2ffd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:59 +0000
Subject: [PATCH 23/26] fix: do not divide by zero if the CPU does not
 enumerate the TSC ratio

---
 src/tsc.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/tsc.cpp b/src/tsc.cpp
index 10f9bde..70edbfc 100644
--- a/src/tsc.cpp
+++ b/src/tsc.cpp
@@ -58,6 +58,10 @@ std::uint64_t xtr::detail::read_tsc_hz() noexcept
     // Where CCC = core crystal clock.
     auto [ratio_den, ratio_num, ccc_hz, unused] = cpuid(0x15);
 
+    // The ratio is not enumerated if either part is zero
+    if (ratio_den == 0 || ratio_num == 0)
+        return 0;
+
     if (ccc_hz == 0)
     {
         // Core crystal clock frequency not provided, must infer
-- 
2.43.0


From 47232793a661472fc6b655fadd1794db10967e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:18 +0000
Subject: [PATCH 24/26] fix: xtrctl refuses patterns that are too long instead
 of shortening them

---
 src/xtrctl.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/xtrctl.cpp b/src/xtrctl.cpp
index 0149c2b..0dc583b 100644
--- a/src/xtrctl.cpp
+++ b/src/xtrctl.cpp
@@ -199,6 +199,9 @@ int main(int argc, char* argv[])
     if (pattern_type != xtrd::pattern_type_t::none && pattern == nullptr)
         usage(argv[0], EXIT_FAILURE, "Pattern type specified, but no pattern given");
 
+    if (pattern != nullptr && std::strlen(pattern) >= sizeof(xtrd::pattern::text))
+        errx("Pattern too long");
+
     if (pattern != nullptr && pattern_type == xtrd::pattern_type_t::none)
         pattern_type = xtrd::pattern_type_t::basic_regex;
 
-- 
2.43.0


From 3dc28eb2ac883753ffc06d17cf266c9e404ac1ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:09 +0000
Subject: [PATCH 25/26] fix: log all of a std::string passed via nocopy, not
 just up to the first NUL

The string was referred to by its c_str(), so everything following an
embedded NUL was silently left out of the log, whereas a NUL in a string
that is passed by value or in a string_view is logged as \x00.
---
 include/xtr/detail/string_ref.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xtr/detail/string_ref.hpp b/include/xtr/detail/string_ref.hpp
index 5a76114..4ed1b43 100644
--- a/include/xtr/detail/string_ref.hpp
+++ b/include/xtr/detail/string_ref.hpp
@@ -52,7 +52,7 @@ namespace xtr::detail
     };
 
     string_ref(const char*) -> string_ref<const char*>;
-    string_ref(const std::string&) -> string_ref<const char*>;
+    string_ref(const std::string&) -> string_ref<std::string_view>;
     string_ref(const std::string_view&) -> string_ref<std::string_view>;
 
     template<>
-- 
2.43.0


From 7ec839ddbb463d65adef2d6e1f31b50de98c6616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:22 +0000
Subject: [PATCH 26/26] fix: keep the command socket if set_command_path() is
 given the current path

---
 src/consumer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/consumer.cpp b/src/consumer.cpp
index 8711754..d9e6918 100644
--- a/src/consumer.cpp
+++ b/src/consumer.cpp
@@ -150,6 +150,8 @@ void xtr::detail::consumer::set_command_path(std::string path) noexcept
     if (path == null_command_path)
         return;
 
+    // The current socket is closed first as the new path may be the same path
+    cmds_.reset();
     cmds_.reset(new detail::command_dispatcher(std::move(path)));
 
     // Reset if failed to open
-- 
2.43.0

