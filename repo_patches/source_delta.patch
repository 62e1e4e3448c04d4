From 56332e1d7b8e88b8798179d11999515802ee8056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 01/38] fix: flush directly on the worker when a message
 reaches the flush level

Enqueueing a flush from the worker thread and waiting for it deadlocks.
---
 include/async_logger.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/async_logger.h b/include/async_logger.h
index f849331..88a8202 100644
--- a/include/async_logger.h
+++ b/include/async_logger.h
@@ -80,7 +80,7 @@ private:
         }
 
         if (should_flush_(msg_popped.level)) {
-            flush_sink_();
+            do_flush_sink_();
         }
     }
     
-- 
2.43.0


From 02d9cfe99b83df0ab246a12581a56da23a9aae40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 02/38] fix: apply the global formatter to newly initialized
 loggers

set_pattern() overwrote the formatter that was set just before it.
---
 base/registry.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 99a4a22..0a32c02 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -10,9 +10,9 @@ using namespace base;
 
 void registry::initialize_logger(logger_shr_ptr new_logger) {
     std::lock_guard<std::mutex> lock(loggers_mutex_);
-    new_logger->set_formatter(global_formatter_->clone());
     std::string pattern = global_pattern_;
     new_logger->set_pattern(pattern);
+    new_logger->set_formatter(global_formatter_->clone());
     new_logger->set_log_level(global_log_level_);
     new_logger->set_flush_level(global_flush_level_);
     
-- 
2.43.0


From ad3bcda007cea6264d7dafd461d61964fce9430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 03/38] fix: set_global_pattern() updates the pattern reported
 by registered loggers

---
 base/registry.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/base/registry.cpp b/base/registry.cpp
index 0a32c02..c8767f9 100644
--- a/base/registry.cpp
+++ b/base/registry.cpp
@@ -60,13 +60,15 @@ void registry::set_default_logger(logger_shr_ptr new_default_logger) {
 }
 
 void registry::set_global_pattern(std::string pattern) {
-    {
-        std::lock_guard<std::mutex> lock(loggers_mutex_);
-        global_pattern_ = pattern;
-    }
     auto new_pattern_formatter = 
-        learnlog::make_unique<sinks::pattern_formatter>(std::move(pattern));
-    set_global_formatter(std::move(new_pattern_formatter));
+        learnlog::make_unique<sinks::pattern_formatter>(pattern);
+    
+    std::lock_guard<std::mutex> lock(loggers_mutex_);
+    global_pattern_ = std::move(pattern);
+    global_formatter_ = std::move(new_pattern_formatter);
+    for (auto &l : loggers_) {
+        l.second->set_pattern(global_pattern_);
+    }
 }
 
 void registry::set_global_formatter(formatter_uni_ptr new_formatter) {
-- 
2.43.0


From 7bdba83cabf3d04c782d9dc51afed6e4015b78b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 04/38] fix: periodic_function destructor can miss its own
 wakeup

Clearing active_ without the mutex loses the notification if the thread is
between the predicate check and the wait.
---
 base/periodic_function.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 5d6fa49..492c1c3 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -36,7 +36,11 @@ public:
 
     ~periodic_function() {
         if (thread_.joinable()) {
-            active_ = false;
+            {
+                // 在持有 mutex_ 时修改 active_，避免线程在检查条件后、进入等待前错过通知
+                std::lock_guard<std::mutex> lock(mutex_);
+                active_ = false;
+            }
             cv_.notify_one();
             thread_.join();
         }
-- 
2.43.0


From 4b1597ce2505006a1adbfa35fd70bc22c2dcfcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 05/38] fix: evaluate the colour terminal test

The lambda was converted to bool instead of being called, so every terminal
was taken for one that supports colours.
---
 base/os.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index a664aa1..cf874f1 100755
--- a/base/os.h
+++ b/base/os.h
@@ -8,6 +8,8 @@
 #include <sys/stat.h>
 #include <thread>
 #include <ctime>
+#include <cstdlib>
+#include <cstring>
 #include <array>
 
 #ifdef _WIN32
@@ -116,7 +118,7 @@ inline bool is_color_terminal() noexcept {
         return std::any_of(terms.begin(), terms.end(), [&](const char *term) {
             return std::strstr(env_term, term) != nullptr;
         });
-    };
+    }();
 
     return result;
 #endif
-- 
2.43.0


From 1ffdceadfbb86823573403812a494b233e7472e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 06/38] fix: sleep_for_ms() slept for microseconds

---
 base/os.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index cf874f1..7bbd44f 100755
--- a/base/os.h
+++ b/base/os.h
@@ -80,7 +80,7 @@ inline void sleep_for_ms(size_t ms) noexcept {
 #ifdef _WIN32
     ::Sleep(static_cast<DWORD>(ms));
 #else
-    std::this_thread::sleep_for(microseconds{ms});
+    std::this_thread::sleep_for(milliseconds{ms});
 #endif
 }
 
-- 
2.43.0


From c83f65c0c75f1f8f081e4f752fce316a1408a399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 07/38] fix: wait between attempts to open a file in truncate
 mode too

---
 base/file_base.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/base/file_base.h b/base/file_base.h
index 57835e6..6e3ff86 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -44,7 +44,10 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
         
         if (truncate) {
             FILE* fd_tmp;
-            if (!os::open_file(&fd_tmp, fname, wb)) continue;
+            if (!os::open_file(&fd_tmp, fname, wb)) {
+                os::sleep_for_ms(try_every_ms);
+                continue;
+            }
             ::fclose(fd_tmp);
         }
         
-- 
2.43.0


From 1dc0058b5a91d8834ae7659e461f81a432acaba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 08/38] fix: create_dir() failed for every missing absolute
 path

---
 base/os.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 7bbd44f..68e4c74 100755
--- a/base/os.h
+++ b/base/os.h
@@ -208,7 +208,8 @@ inline bool create_dir(const filename_t& path) {
         }
 #endif
 
-        if (!dir_exist(curr_dir) && !mkdir_(curr_dir)) {
+        // 绝对路径以分隔符开头，第一级目录为空，跳过
+        if (!curr_dir.empty() && !dir_exist(curr_dir) && !mkdir_(curr_dir)) {
             return false;
         }
         offset = spr_pos + 1;
-- 
2.43.0


From 18908cabfa8ec7011156ed89e256aae1e96b3855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 09/38] fix: file_base::close() kept a dangling stream when
 fclose() failed

---
 base/file_base.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 6e3ff86..50aff4b 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -10,14 +10,15 @@ namespace file_base {
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
-        if (::fclose(*fpp) != 0) {
+        // 无论 fclose() 是否成功，文件流都已失效，不能再次使用
+        FILE* fp = *fpp;
+        *fpp = nullptr;
+        if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
             std::string fname_str(fname.begin(), fname.end());
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
-        
-        *fpp = nullptr;
     }
 }
 
-- 
2.43.0


From 125cfa1668327a3bdc9c25612ad3fab21b8ed000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 10/38] fix: file sinks terminated the process when closing
 failed

Flushing or closing in the destructor can throw, e.g. on a full disk.
---
 sinks/basic_file_sink.h   | 7 +++++--
 sinks/rolling_file_sink.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/sinks/basic_file_sink.h b/sinks/basic_file_sink.h
index 461cfee..2baccf8 100644
--- a/sinks/basic_file_sink.h
+++ b/sinks/basic_file_sink.h
@@ -24,8 +24,11 @@ public:
     }
     
     ~basic_file_sink() override {
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, filename_);
+        // 析构函数不能抛出异常，刷新失败时仍要关闭文件
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, filename_); }
+        LEARNLOG_CATCH
     }
 
     filename_t filename() const { return filename_; }
diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index db233bd..af49a1d 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -41,8 +41,11 @@ public:
     }
 
     ~rolling_file_sink() { 
-        basic_sink<Mutex>::flush();
-        base::file_base::close(&file_, get_rolling_filename(file_index_));
+        // 析构函数不能抛出异常，刷新失败时仍要关闭文件
+        try { basic_sink<Mutex>::flush(); }
+        LEARNLOG_CATCH
+        try { base::file_base::close(&file_, get_rolling_filename(file_index_)); }
+        LEARNLOG_CATCH
     }
    
     filename_t base_filename() const { return base_fname_; }
-- 
2.43.0


From 7e54838edd2c74de2269fc730d763bd60ea98226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 11/38] fix: %C crashed on a source location without a function
 name

---
 sinks/formatters/flag_formatter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index 1bef636..dcdf995 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -424,7 +424,7 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg& msg, const std::tm&, fmt_memory_buf& dest_buf) override {
-        if (msg.loc.empty()) {
+        if (msg.loc.empty() || msg.loc.funcname == nullptr) {
             filler f(0, spaces_info_, dest_buf);
             return;
         }
-- 
2.43.0


From a4fd0c93258443eb663c4c6f59fc310b5094cabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 12/38] fix: %c was padded to the wrong width in September

---
 sinks/formatters/flag_formatter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/flag_formatter.h b/sinks/formatters/flag_formatter.h
index dcdf995..69c5b52 100755
--- a/sinks/formatters/flag_formatter.h
+++ b/sinks/formatters/flag_formatter.h
@@ -106,15 +106,15 @@ public:
         : flag_formatter(sp_info) {}
 
     void format(const base::log_msg&, const std::tm& time_tm, fmt_memory_buf& dest_buf) override {
-        const size_t text_len = 24;
+        fmt_string_view m_name{ month_name[static_cast<size_t>(time_tm.tm_mon)] };
+        const size_t text_len = 21 + m_name.size();     // 月份名的长度不固定（"Sept"）
         filler f(text_len, spaces_info_, dest_buf);
 
         // 日期
         base::fmt_base::append_string_view( weekday_name[static_cast<size_t>(time_tm.tm_wday)], 
                                            dest_buf);
         dest_buf.push_back(' ');
-        base::fmt_base::append_string_view( month_name[static_cast<size_t>(time_tm.tm_mon)],
-                                            dest_buf);
+        base::fmt_base::append_string_view(m_name, dest_buf);
         dest_buf.push_back(' ');
         base::fmt_base::fill_uint(time_tm.tm_mday, 2, dest_buf);
         dest_buf.push_back(' ');
-- 
2.43.0


From 1018d14d573d0571984a19bc0f53b9eec8b5e082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 13/38] fix: the padding width overflowed on long digit strings

---
 sinks/formatters/pattern_formatter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 9b989ea..4da5ca6 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -104,6 +104,7 @@ spaces_info pattern_formatter::analyse_spaces_info_(std::string::const_iterator&
     ++it;
     while (it != end && std::isdigit(static_cast<unsigned char>(*it))) {
         fill_len = fill_len * 10 + static_cast<size_t>(*it) - '0';
+        fill_len = std::min<size_t>(fill_len, MAX_SPACES_LEN);  // 避免溢出
         ++it;
     }
 
-- 
2.43.0


From e8d446e7221a507ae55db4dd7c1c7714959b8c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 14/38] fix: disable_backtrace() crashed when backtrace was
 never enabled

---
 include/logger.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/logger.h b/include/logger.h
index 107174b..de25a0a 100755
--- a/include/logger.h
+++ b/include/logger.h
@@ -189,7 +189,11 @@ public:
         }
         tracer_->enable_with_size(msg_num);
     }
-    void disable_backtrace() { tracer_->disable(); }
+    void disable_backtrace() {
+        if (tracer_ != nullptr) {
+            tracer_->disable();
+        }
+    }
     void dump_backtrace();
 
     const std::vector<sink_shr_ptr>& sinks() const { return sinks_; }
-- 
2.43.0


From 588d52015ebf1afe20883816675474f1ff206f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 15/38] fix: circular_queue::size() divided by zero on an
 invalid queue

---
 base/circular_queue.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/base/circular_queue.h b/base/circular_queue.h
index 1b00eff..6868e76 100755
--- a/base/circular_queue.h
+++ b/base/circular_queue.h
@@ -35,7 +35,9 @@ public:
         return *this;
     }
 
-    size_t size() const { return (tail_ - head_ + max_size_) % max_size_; }
+    size_t size() const {
+        return max_size_ > 0 ? (tail_ - head_ + max_size_) % max_size_ : 0;
+    }
 
     size_t vec_size() const { return max_size_; }
 
-- 
2.43.0


From 356a6c4e9865b1b3afae10ad4866f000ae8aaf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 16/38] fix: logger::swap() left the patterns behind

---
 src/logger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/logger.cpp b/src/logger.cpp
index 3c2a5d4..1085bc0 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -10,6 +10,7 @@ void logger::swap(logger& other) noexcept {
     std::swap(log_level_, other.log_level_);
     std::swap(flush_level_, other.flush_level_);
     std::swap(tracer_, other.tracer_);
+    pattern_.swap(other.pattern_);
 }
 
 void logger::set_pattern(std::string pattern) {
-- 
2.43.0


From bb3d13e4ed30700be8b235fb23d0c10662c09be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 17/38] fix: define swap(logger&, logger&) in the namespace
 that declares it

---
 src/logger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/logger.cpp b/src/logger.cpp
index 1085bc0..74f33fe 100755
--- a/src/logger.cpp
+++ b/src/logger.cpp
@@ -74,4 +74,4 @@ void logger::flush_sink_() {
 }
 
 
-void swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
+void learnlog::swap(logger& a, logger& b) { a.swap(b); }
\ No newline at end of file
-- 
2.43.0


From 93154b1f80a2aae2c2254a98f49cf915801572f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 18/38] fix: concurrent exceptions could abort debug builds

The system clock is not monotonic and two threads may report at the same time.
---
 base/exception.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/base/exception.h b/base/exception.h
index d209299..8d47546 100755
--- a/base/exception.h
+++ b/base/exception.h
@@ -29,11 +29,8 @@ inline void handle_excpt(const std::string& msg) {
     static std::atomic<tp> last_report_time{ tp(seconds(0)) };
     static std::atomic<size_t> report_cnt{1};
 
-    tp lr_time = last_report_time.load(std::memory_order_acquire);
     tp now = sys_clock::now();
     size_t cnt = report_cnt.fetch_add(1, std::memory_order_relaxed);
-    assert( now - lr_time > std::chrono::nanoseconds(1) );
-    (void)lr_time;
     // if(now - lr_time < std::chrono::seconds(1)){ return; }
     last_report_time.store(now, std::memory_order_release);
 
-- 
2.43.0


From 7ded4016779bb2caa87b515599c8d1d46a5ca236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 19/38] fix: assigning a log_msg_buf to itself lost its text

---
 base/log_msg_buf.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/base/log_msg_buf.h b/base/log_msg_buf.h
index e1d4b93..0cc77de 100755
--- a/base/log_msg_buf.h
+++ b/base/log_msg_buf.h
@@ -29,6 +29,7 @@ public:
     }
 
     log_msg_buf& operator=(const log_msg_buf &other) {
+        if (this == &other) return *this;
         log_msg::operator=(other);
         buf_.clear();
         buf_.append(other.buf_.data(), other.buf_.data() + other.buf_.size());
-- 
2.43.0


From b1f9ea6e49931baf046942b55ae9ff593ce60eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 20/38] fix: the producer token lock did not order the queue
 accesses it protects

---
 base/lockfree_concurrent_thread_pool.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index b963788..c2013c9 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -19,13 +19,14 @@ struct atomic_token {
     void enqueue_lock() {
         bool expected = false;
         while (!enqueuing_.compare_exchange_weak(expected, true,
+                                             std::memory_order_acquire,
                                              std::memory_order_relaxed)) {
             expected = false;
         }
     }
 
     void release() {
-        enqueuing_.store(false, std::memory_order_relaxed);
+        enqueuing_.store(false, std::memory_order_release);
     }
 };
 
-- 
2.43.0


From 231a0ec1454aaf3917316e9463d301c13e525863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 21/38] fix: lockfree_thread_pool livelocked when other
 producers held every block

A partly used block stays with its producer, so with more producers than
blocks try_enqueue() never succeeds, although the queue is empty. The
destructor hung in the same way on its terminate messages.
---
 base/lockfree_thread_pool.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index f5e890f..e5b462e 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -105,8 +105,13 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
-        while (!msg_q_.try_enqueue(std::move(amsg)))
-            continue;
+        while (!msg_q_.try_enqueue(std::move(amsg))) {
+            // 队列为空却没有可用的内存块，说明内存块都被其它生产者占用（未写满的块不会归还），
+            // 此时继续等待不会有进展，只能额外申请内存
+            if (msg_q_.size_approx() == 0 && msg_q_.enqueue(std::move(amsg))) {
+                break;
+            }
+        }
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
-- 
2.43.0


From 6520bb5d81146fe8f686dde66238f77279fdd7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:02 +0000
Subject: [PATCH 22/38] fix: lockfree_concurrent_thread_pool shared its thread
 token across pools

A thread that used a second pool enqueued with a token of the first one,
possibly already destroyed; messages were lost or memory corrupted. Producer
and consumer tokens are now kept apart, and the cache names its pool.
---
 base/lockfree_concurrent_thread_pool.cpp |  4 +-
 base/lockfree_concurrent_thread_pool.h   | 60 +++++++++++++++---------
 2 files changed, 40 insertions(+), 24 deletions(-)

diff --git a/base/lockfree_concurrent_thread_pool.cpp b/base/lockfree_concurrent_thread_pool.cpp
index ecda9fa..ad71df9 100644
--- a/base/lockfree_concurrent_thread_pool.cpp
+++ b/base/lockfree_concurrent_thread_pool.cpp
@@ -4,5 +4,7 @@ using namespace learnlog;
 using namespace base;
 
 #ifdef LEARNLOG_USE_TLS
-    thread_local atomic_token* lockfree_concurrent_thread_pool::token_ = nullptr;
+    thread_local lockfree_concurrent_thread_pool::producer_cache
+    lockfree_concurrent_thread_pool::producer_cache_ = {0, nullptr};
+thread_local atomic_token* lockfree_concurrent_thread_pool::consumer_token_ = nullptr;
 #endif
diff --git a/base/lockfree_concurrent_thread_pool.h b/base/lockfree_concurrent_thread_pool.h
index c2013c9..3ee0608 100644
--- a/base/lockfree_concurrent_thread_pool.h
+++ b/base/lockfree_concurrent_thread_pool.h
@@ -62,7 +62,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -98,7 +98,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -134,7 +134,7 @@ public:
                     token = atomic_tokens_[idx];
                 }
 #ifdef LEARNLOG_USE_TLS
-                token_ = token;
+                consumer_token_ = token;
 #else
                 {
                     std::lock_guard<std::mutex> lock(c_mutex_);
@@ -174,16 +174,26 @@ private:
     void enqueue_async_msg_(async_msg&& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        if (token_ == nullptr) {
-            size_t cnt = producer_cnt_.fetch_add(1, std::memory_order_relaxed);
-            {
-                std::lock_guard<std::mutex> lock(t_mutex_);
-                token_ = atomic_tokens_[cnt % threads_num_];
-            }
-            producer_sema_.signal();
+        if (producer_cache_.pool_id != pool_id_) {
+            producer_cache_.token = find_producer_token_();
+            producer_cache_.pool_id = pool_id_;
         }
-        token = token_;
+        token = producer_cache_.token;
 #else
+        token = find_producer_token_();
+#endif
+        token->enqueue_lock();
+        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
+            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
+                break;
+            }
+        }
+        token->release();
+    }
+
+    // 获取当前线程在该线程池中入队使用的 token，首次入队时分配
+    atomic_token* find_producer_token_() {
+        atomic_token* token = nullptr;
         size_t tid = os::thread_id();
         {
             std::lock_guard<std::mutex> lock(p_mutex_);
@@ -200,20 +210,13 @@ private:
                 token = producer_atomic_tokens_[tid];
             }
         }
-#endif
-        token->enqueue_lock();
-        while (!msg_q_.try_enqueue(token->p_token_, std::move(amsg))) {
-            if (msg_q_.enqueue(token->p_token_, std::move(amsg))) {
-                break;
-            }
-        }
-        token->release();
+        return token;
     }
 
     void dequeue_async_msg_(async_msg& amsg) override {
         atomic_token* token = nullptr;
 #ifdef LEARNLOG_USE_TLS
-        token = token_;
+        token = consumer_token_;
 #else
         {
             std::lock_guard<std::mutex> lock(c_mutex_);
@@ -231,11 +234,22 @@ private:
 
     std::mutex t_mutex_;
     std::vector<atomic_token*> atomic_tokens_;
-#ifdef LEARNLOG_USE_TLS
-    static thread_local atomic_token* token_;
-#else
     std::mutex p_mutex_;
     std::unordered_map<size_t, atomic_token*> producer_atomic_tokens_;
+#ifdef LEARNLOG_USE_TLS
+    // 同一线程可能先后或交替使用多个线程池，缓存的 token 只对 pool_id 对应的线程池有效
+    struct producer_cache {
+        size_t pool_id;         // 0 表示无缓存
+        atomic_token* token;
+    };
+    static size_t next_pool_id_() {
+        static std::atomic<size_t> id{0};
+        return id.fetch_add(1, std::memory_order_relaxed) + 1;
+    }
+    const size_t pool_id_ = next_pool_id_();
+    static thread_local producer_cache producer_cache_;
+    static thread_local atomic_token* consumer_token_;
+#else
     std::mutex c_mutex_;
     std::unordered_map<size_t, atomic_token*> consumer_atomic_tokens_;
 #endif
-- 
2.43.0


From d943065252670053c28c096d6353146015e5ac12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 23/38] fix: a pattern ending in an incomplete specification
 read past its end

---
 sinks/formatters/pattern_formatter.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sinks/formatters/pattern_formatter.cpp b/sinks/formatters/pattern_formatter.cpp
index 4da5ca6..f66e4b2 100755
--- a/sinks/formatters/pattern_formatter.cpp
+++ b/sinks/formatters/pattern_formatter.cpp
@@ -59,9 +59,8 @@ void pattern_formatter::analyse_pattern_(const std::string& pattern) {
 
             spaces_info sp_info = analyse_spaces_info_(++it, end);
 
-            if (it != end) {
-                append_flag_formatter_(*it, sp_info);
-            }
+            if (it == end) break;   // 末尾的格式不完整，不能再递增 it
+            append_flag_formatter_(*it, sp_info);
         }
         else {
             if (!as_is_formatter) {
-- 
2.43.0


From aca39ec6ad6135f7b42fc2b123ff290eede9d3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:31 +0000
Subject: [PATCH 24/38] fix: rolling_file_sink dropped messages after a failed
 roll

When closing or opening a file failed while rolling, no file was open any
more: small messages were then dropped silently and others failed forever.
Try again to open the next file with the next message.
---
 sinks/rolling_file_sink.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index af49a1d..4586347 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -93,7 +93,12 @@ private:
     void output_(const base::log_msg &msg) override {
         fmt_memory_buf buf;
         basic_sink<Mutex>::formatter_->format(msg, buf);
-        if (cur_file_size_ + buf.size() > max_file_size_) {
+        if (file_ == nullptr) {
+            // 上一次滚动文件时出现异常，没有打开的文件，再次尝试，仍然失败则再次抛出异常
+            roll_file_();
+            cur_file_size_ = 0;
+        }
+        else if (cur_file_size_ + buf.size() > max_file_size_) {
             flush_();
             if (base::file_base::size(file_, get_rolling_filename(file_index_)) > 0) {
                 roll_file_();
-- 
2.43.0


From fdbdffb166c4af2883c9d987f1f6bd4120330b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:38 +0000
Subject: [PATCH 25/38] fix: lockfree_thread_pool could drop its last messages
 on destruction

size_approx() is the semaphore count: it is 0 as soon as a worker claimed the
last message, which may still be in the queue. A terminate enqueued then can be
dequeued first, and the worker exits leaving the message behind. Wait until
every message has really been dequeued.
---
 base/lockfree_thread_pool.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base/lockfree_thread_pool.h b/base/lockfree_thread_pool.h
index e5b462e..b07634d 100644
--- a/base/lockfree_thread_pool.h
+++ b/base/lockfree_thread_pool.h
@@ -84,7 +84,9 @@ public:
     }
 
     ~lockfree_thread_pool() override {
-        while (current_msg_count() != 0) {
+        // 信号量计数为 0 时，已被消费者占用的消息可能还未出队，此时放入的 terminate 可能先于它们出队，
+        // 因此须等待所有消息真正出队
+        while (pending_msgs_.load(std::memory_order_acquire) != 0) {
             // os::sleep_for_ms(1);
         }
         for (size_t i = 0; i < threads_num_; i++) {
@@ -105,6 +107,7 @@ public:
 
 private:
     void enqueue_async_msg_(async_msg&& amsg) override {
+        pending_msgs_.fetch_add(1, std::memory_order_relaxed);
         while (!msg_q_.try_enqueue(std::move(amsg))) {
             // 队列为空却没有可用的内存块，说明内存块都被其它生产者占用（未写满的块不会归还），
             // 此时继续等待不会有进展，只能额外申请内存
@@ -117,6 +120,7 @@ private:
     void dequeue_async_msg_(async_msg& amsg) override {
 #ifdef LEARNLOG_USE_TLS
         msg_q_.wait_dequeue(*token_, amsg);
+        pending_msgs_.fetch_sub(1, std::memory_order_release);
 #else
         size_t tid = os::thread_id();
         moodycamel::ConsumerToken* token = nullptr;
@@ -125,6 +129,7 @@ private:
             token = tokens_[tid].get();
         }
         msg_q_.wait_dequeue(*token, amsg);
+        pending_msgs_.fetch_sub(1, std::memory_order_release);
 #endif
     }
 
@@ -135,6 +140,7 @@ private:
     std::unordered_map<size_t, c_token_uni_ptr> tokens_;
 #endif
 
+    std::atomic<size_t> pending_msgs_{0};     // 已提交但尚未出队的消息数
     moodycamel::BlockingConcurrentQueue<async_msg> msg_q_;
 };
 
-- 
2.43.0


From 9eb43cc485aa53f1f7a60c4682f89e4e51e1c239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 26/38] fix: async factories of different sinks could replace
 each other's pool

The mutex in async_factory_template::create() was one per instantiation, so two
threads creating their first async loggers with different sink types both made
and registered a pool: the loggers of the first were unregistered and could
not log any more.
---
 include/async_factory.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/async_factory.h b/include/async_factory.h
index b1ac68e..3a9582e 100644
--- a/include/async_factory.h
+++ b/include/async_factory.h
@@ -11,12 +11,18 @@
 
 namespace learnlog {
 
+// 检查、创建、注册线程池与创建 logger 须作为整体执行，
+// 因此互斥量由 async_factory_template 的所有实例、所有 Sink 类型的 create() 共用
+inline std::mutex& async_factory_mutex() {
+    static std::mutex f_mutex;
+    return f_mutex;
+}
+
 template <typename Threadpool>
 struct async_factory_template {
     template <typename Sink, typename... SinkArgs>
     static async_logger_shr_ptr create(std::string logger_name, SinkArgs &&...args) {
-        static std::mutex async_factory_mutex_;
-        std::lock_guard<std::mutex> lock(async_factory_mutex_);
+        std::lock_guard<std::mutex> lock(async_factory_mutex());
         auto tp = base::registry::instance().get_thread_pool();
         if (tp == nullptr) {
             auto tp_new = std::make_shared<Threadpool>();
-- 
2.43.0


From ab0802f3074040774b93a98300fd4ccadc8f229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 27/38] fix: periodic_function no longer runs its function in a
 busy loop when the interval is too long for the clock

---
 base/periodic_function.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/base/periodic_function.h b/base/periodic_function.h
index 492c1c3..296ce01 100644
--- a/base/periodic_function.h
+++ b/base/periodic_function.h
@@ -20,9 +20,16 @@ public:
         active_ = (interval > std::chrono::duration<Rep, Period>::zero());
         if (!active_) return;
 
-        thread_ = std::thread([this, func, interval] {
+        // 过长的间隔会使 wait_for 计算到期时刻时溢出，此时只等待析构
+        bool too_long = std::chrono::duration<double>(interval) > std::chrono::hours(24 * 365 * 100);
+
+        thread_ = std::thread([this, func, interval, too_long] {
             for (;;) {
                 std::unique_lock<std::mutex> lock(mutex_);
+                if (too_long) {
+                    cv_.wait(lock, [this] {return !this->active_;} );
+                    return;
+                }
                 if (cv_.wait_for(lock, interval, [this] {return !this->active_;} )) {
                     return;
                 }
-- 
2.43.0


From 2da0ab1c7ef08efe2277f19bb942a50dc2f28787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 28/38] fix: block_queue::dequeue_for waits when the time limit
 is too long for the clock

---
 base/block_queue.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/base/block_queue.h b/base/block_queue.h
index 16f90a6..f5e3043 100755
--- a/base/block_queue.h
+++ b/base/block_queue.h
@@ -76,7 +76,7 @@ public:
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
         {
             std::unique_lock<std::mutex> lock(queue_mutex_);
-            if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
+            if (!wait_not_empty_for_(lock, duration)) {
                 return false;
             }
             popped_item = std::move(queue_.front());
@@ -130,7 +130,7 @@ public:
 
     bool dequeue_for(T& popped_item, std::chrono::milliseconds duration) {
         std::unique_lock<std::mutex> lock(queue_mutex_);
-        if (!push_cv_.wait_for(lock, duration, [this] { return !this->queue_.empty(); })) {
+        if (!wait_not_empty_for_(lock, duration)) {
             return false;
         }
         popped_item = std::move(queue_.front());
@@ -169,6 +169,16 @@ public:
     void reset_discard_count() { discard_count_.store(0, std::memory_order_relaxed); }
 
 private:
+    // 等待队列不空，超时返回 false；过长的 duration 会使 wait_for 计算到期时刻时溢出，此时不设超时
+    bool wait_not_empty_for_(std::unique_lock<std::mutex>& lock, std::chrono::milliseconds duration) {
+        auto not_empty = [this] { return !this->queue_.empty(); };
+        if (duration > std::chrono::hours(24 * 365 * 100)) {
+            push_cv_.wait(lock, not_empty);
+            return true;
+        }
+        return push_cv_.wait_for(lock, duration, not_empty);
+    }
+
     std::mutex queue_mutex_;
     std::condition_variable push_cv_;
     std::condition_variable pop_cv_;
-- 
2.43.0


From 62452579935dfa003e149fa9d4e4f3f98882f90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 29/38] fix: rolling_file_sink.h did not include the
 wide-character conversions it uses on Windows

---
 sinks/rolling_file_sink.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sinks/rolling_file_sink.h b/sinks/rolling_file_sink.h
index 4586347..d81915c 100644
--- a/sinks/rolling_file_sink.h
+++ b/sinks/rolling_file_sink.h
@@ -6,6 +6,10 @@
 #include "sync_factory.h"
 #include "base/null_mutex.h"
 
+#ifdef _WIN32
+    #include "base/wchar_support.h"
+#endif
+
 namespace learnlog {
 namespace sinks {
 
-- 
2.43.0


From 0b9a1e874d122357d5c285b2abac2721667008db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 30/38] fix: converting an empty string to or from a wide
 string constructed a string from a null pointer

---
 base/wchar_support.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/base/wchar_support.h b/base/wchar_support.h
index 3d87d68..56b61a8 100755
--- a/base/wchar_support.h
+++ b/base/wchar_support.h
@@ -14,7 +14,7 @@ inline std::wstring string_to_wstring(const std::string& str) {
     }
     const char* ustr = str.c_str();
     int ustr_size = static_cast<int>(str.size());
-    if (ustr_size <= 0) return 0;
+    if (ustr_size <= 0) return std::wstring();
 
     int size_to_write = ::MultiByteToWideChar(CP_UTF8, MB_ERR_INVALID_CHARS, 
                                               ustr, ustr_size, NULL, 0);
@@ -44,7 +44,7 @@ inline std::string wstring_to_string(const std::wstring& str) {
     }
     const wchar_t* wstr = str.c_str();
     int wstr_size = static_cast<int>(str.size());
-    if (wstr_size <= 0) return 0;
+    if (wstr_size <= 0) return std::string();
 
     int size_to_write = ::WideCharToMultiByte(CP_UTF8, 0, 
                                               wstr, wstr_size, NULL, 0, NULL, NULL);
-- 
2.43.0


From b38775855cc088972261bfe9e724517c3d693158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 31/38] fix: text that is not valid UTF-8 was lost without an
 error when converted to wide characters

---
 base/wchar_support.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/wchar_support.h b/base/wchar_support.h
index 56b61a8..98027e8 100755
--- a/base/wchar_support.h
+++ b/base/wchar_support.h
@@ -27,7 +27,7 @@ inline std::wstring string_to_wstring(const std::string& str) {
         delete[] wstr;
     }
     
-    if (size_to_write != static_cast<int>(ret.size())) {
+    if (size_to_write <= 0 || size_to_write != static_cast<int>(ret.size())) {
         source_loc loc{__FILE__, __LINE__, __func__};
         throw_learnlog_excpt("learnlog::wchar_support: string_to_wstring() failed", 
                              ::GetLastError(), loc);
@@ -68,12 +68,13 @@ inline std::string wstring_to_string(const std::wstring& str) {
     return ret;
 }
 
-// 由 char* 生成 wchar_t*，并写入 fmt_wmemory_buf，返回值是应该被写入的宽字符数
+// 由 char* 生成 wchar_t*，并写入 fmt_wmemory_buf，返回值是应该被写入的宽字符数，转换失败返回 -1
 inline int utf8_to_wcharbuf_(const char* ustr, int ustr_size, fmt_wmemory_buf& wbuf) {
     if (ustr_size <= 0) return 0;
 
     int size_to_write = ::MultiByteToWideChar(CP_UTF8, MB_ERR_INVALID_CHARS, 
                                               ustr, ustr_size, NULL, 0);
+    if (size_to_write <= 0) return -1;     // 转换失败（如不是合法的 UTF-8 字符串）
     if (size_to_write > 0) {
         wchar_t* wstr = new wchar_t[size_to_write];
         int size_written = ::MultiByteToWideChar(CP_UTF8, MB_ERR_INVALID_CHARS, 
-- 
2.43.0


From 3d37204ea4d286f524351ea913adf3b0eded0650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 32/38] fix: std_sink on Windows split its text at the colour
 range that another sink had left in the message

---
 sinks/std_sinks.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sinks/std_sinks.h b/sinks/std_sinks.h
index 2390802..b4fdcf2 100755
--- a/sinks/std_sinks.h
+++ b/sinks/std_sinks.h
@@ -61,7 +61,7 @@ public:
         formatter_->format(msg, buf);
         // 将 utf-8 转换为 wchar(utf-16)，避免乱码
         fmt_wmemory_buf wbuf;
-        base::utf8buf_to_wcharbuf(buf, msg.color_index_start, msg.color_index_end, wbuf);
+        base::utf8buf_to_wcharbuf(buf, wbuf);
 
         DWORD wbuf_size = static_cast<DWORD>(wbuf.size());
         DWORD bytes_written = 0;
-- 
2.43.0


From ed5f3fdcf1e311dd1834d261783a7d7e0ec76aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 33/38] fix: create_dir() on Windows did not make a directory
 with a one-letter name right below a drive

---
 base/os.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/base/os.h b/base/os.h
index 68e4c74..486a99b 100755
--- a/base/os.h
+++ b/base/os.h
@@ -204,7 +204,6 @@ inline bool create_dir(const filename_t& path) {
         // windows 目录可能出现如 "C:" 的情况，需要改为 "C:\"，dir_exist() 才能做出正确判断
         if (spr_pos == 2 && curr_dir[1] == ':') {
             curr_dir += '\\';
-            spr_pos++;
         }
 #endif
 
-- 
2.43.0


From 5877d246cc4d1d70a9c1e157c4594a567db5a6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 34/38] fix: exceptions on Windows garbled file names that are
 not ASCII

---
 base/file_base.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/base/file_base.h b/base/file_base.h
index 50aff4b..f4a1f8a 100644
--- a/base/file_base.h
+++ b/base/file_base.h
@@ -3,10 +3,23 @@
 #include "definitions.h"
 #include "base/exception.h"
 
+#ifdef _WIN32
+    #include "base/wchar_support.h"
+#endif
+
 namespace learnlog {
 namespace base {
 namespace file_base {
 
+// 将文件名转换为 UTF-8 字符串，用于异常信息
+inline std::string fname_to_string(const filename_t& fname) {
+#ifdef _WIN32
+    return wstring_to_string(fname);
+#else
+    return fname;
+#endif
+}
+
 // 关闭文件
 inline void close(FILE** fpp, const filename_t& fname) {
     if (*fpp != nullptr) {
@@ -15,7 +28,7 @@ inline void close(FILE** fpp, const filename_t& fname) {
         *fpp = nullptr;
         if (::fclose(fp) != 0) {
             source_loc loc{__FILE__, __LINE__, __func__};
-            std::string fname_str(fname.begin(), fname.end());
+            std::string fname_str = fname_to_string(fname);
             std::string err_str = fmt::format("learnlog::file_base::close() failed, filename: '{}'", fname_str);
             throw_learnlog_excpt(err_str, os::get_errno(), loc);
         }
@@ -58,7 +71,7 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
     }
 
     source_loc loc{__FILE__, __LINE__, __func__};
-    std::string fname_str(fname.begin(), fname.end());
+    std::string fname_str = fname_to_string(fname);
     std::string err_str = fmt::format("learnlog::file_base::open() failed, filename: '{}'", fname_str);
     throw_learnlog_excpt(err_str, os::get_errno(), loc);
 }
@@ -67,7 +80,7 @@ inline void open(FILE** fpp, const filename_t& fname, bool truncate = false,
 inline void flush(FILE* fp, const filename_t& fname) {
     if (::fflush(fp) != 0) {
         source_loc loc{__FILE__, __LINE__, __func__};
-        std::string fname_str(fname.begin(), fname.end());
+        std::string fname_str = fname_to_string(fname);
         std::string err_str = fmt::format("learnlog::file_base::flush() failed, filename: '{}'", fname_str);
         throw_learnlog_excpt(err_str, os::get_errno(), loc);
     }
@@ -77,7 +90,7 @@ inline void flush(FILE* fp, const filename_t& fname) {
 inline void sync(FILE* fp, const filename_t& fname) {
     if (!os::fsync(fp)) {
         source_loc loc{__FILE__, __LINE__, __func__};
-        std::string fname_str(fname.begin(), fname.end());
+        std::string fname_str = fname_to_string(fname);
         std::string err_str = fmt::format("learnlog::file_base::sync() failed, filename: '{}'", fname_str);
         throw_learnlog_excpt(err_str, os::get_errno(), loc);
     }
@@ -89,7 +102,7 @@ inline void write(FILE* fp, const filename_t& fname, const fmt_memory_buf& buf)
 
     if (::fwrite(buf.data(), sizeof(char), buf.size(), fp) != buf.size()) {
         source_loc loc{__FILE__, __LINE__, __func__};
-        std::string fname_str(fname.begin(), fname.end());
+        std::string fname_str = fname_to_string(fname);
         std::string err_str = fmt::format("learnlog::file_base::write() failed, filename: '{}'", fname_str);
         throw_learnlog_excpt(err_str, os::get_errno(), loc);
     }
@@ -98,7 +111,7 @@ inline void write(FILE* fp, const filename_t& fname, const fmt_memory_buf& buf)
 // 获取文件大小（字节），u_long_long 为 64 位无符号整型
 inline u_long_long size(FILE* fp, const filename_t& fname) {
     if (fp == nullptr) {
-        std::string fname_str(fname.begin(), fname.end());
+        std::string fname_str = fname_to_string(fname);
         std::string err_str = fmt::format(
             "learnlog::file_base::size() failed, fp == nullptr, filename: '{}'", fname_str);
         throw_learnlog_excpt(err_str);
@@ -108,7 +121,7 @@ inline u_long_long size(FILE* fp, const filename_t& fname) {
     
     if (ret == -1) {
         source_loc loc{__FILE__, __LINE__, __func__};
-        std::string fname_str(fname.begin(), fname.end());
+        std::string fname_str = fname_to_string(fname);
         std::string err_str = fmt::format("learnlog::file_base::size() failed, filename: '{}'", fname_str);
         throw_learnlog_excpt(err_str, os::get_errno(), loc);
     }
-- 
2.43.0


From f446210827177c791d19edfb71dea4252b86cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 35/38] fix: std_color_sinks.h did not compile unless
 base/exception.h had been included before it

---
 sinks/ansicolor_sink.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/ansicolor_sink.h b/sinks/ansicolor_sink.h
index 63047f9..a186c32 100755
--- a/sinks/ansicolor_sink.h
+++ b/sinks/ansicolor_sink.h
@@ -3,6 +3,7 @@
 #include "sinks/sink.h"
 #include "sinks/formatters/pattern_formatter.h"
 #include "base/static_mutex.h"
+#include "base/exception.h"
 
 #include <mutex>
 
-- 
2.43.0


From 340b878b38c9cd1ddc29af65706c64aca959a153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:06 +0000
Subject: [PATCH 36/38] fix: wincolor_sink.h did not include the pattern
 formatter that it uses

---
 sinks/wincolor_sink.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sinks/wincolor_sink.h b/sinks/wincolor_sink.h
index 107cd65..ae25abb 100755
--- a/sinks/wincolor_sink.h
+++ b/sinks/wincolor_sink.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "sinks/sink.h"
+#include "sinks/formatters/pattern_formatter.h"
 #include "win.h"
 #include "base/static_mutex.h"
 #include "base/wchar_support.h"
-- 
2.43.0


From a77d0e7609cfd39ff285e27791c533a10a50b723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:18 +0000
Subject: [PATCH 37/38] fix: a logger used before main() by another file wrote
 no level names

---
 include/definitions.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/definitions.h b/include/definitions.h
index 37b8df6..ca03c8c 100755
--- a/include/definitions.h
+++ b/include/definitions.h
@@ -184,8 +184,9 @@ enum level_enum : int {
     off = LEARNLOG_LEVEL_OFF,
 };
 
-const fmt_string_view level_name[7] = { {"trace"}, {"debug"}, {"info"}, {"warn"}, 
-                                        {"error"}, {"critical"}, {"off"} };
+// 给出长度以保证常量初始化，使其他文件的全局对象在 main() 之前记录日志时也能得到名称
+const fmt_string_view level_name[7] = { {"trace", 5}, {"debug", 5}, {"info", 4}, {"warn", 4}, 
+                                        {"error", 5}, {"critical", 8}, {"off", 3} };
 
 }   // namespace level
 
-- 
2.43.0


From 8902d86c3f946dab824e37601e45ee0c02df2bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:58 +0000
Subject: [PATCH 38/38] fix: clang was taken for an old GCC without
 thread_local, so its objects disagreed with those of GCC about the pools

---
 base/concurrentqueue/concurrentqueue.h | 2 +-
 include/definitions.h                  | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/base/concurrentqueue/concurrentqueue.h b/base/concurrentqueue/concurrentqueue.h
index 23e8a63..219b823 100644
--- a/base/concurrentqueue/concurrentqueue.h
+++ b/base/concurrentqueue/concurrentqueue.h
@@ -217,7 +217,7 @@ namespace moodycamel { namespace details {
 // VS2013 doesn't support `thread_local`, and MinGW-w64 w/ POSIX threading has a crippling bug: http://sourceforge.net/p/mingw-w64/bugs/445
 // g++ <=4.7 doesn't support thread_local either.
 // Finally, iOS/ARM doesn't have support for it either, and g++/ARM allows it to compile but it's unconfirmed to actually work
-#if (!defined(_MSC_VER) || _MSC_VER >= 1900) && (!defined(__MINGW32__) && !defined(__MINGW64__) || !defined(__WINPTHREADS_VERSION)) && (!defined(__GNUC__) || __GNUC__ > 4 || (__GNUC__ == 4 && __GNUC_MINOR__ >= 8)) && (!defined(__APPLE__) || !TARGET_OS_IPHONE) && !defined(__arm__) && !defined(_M_ARM) && !defined(__aarch64__) && !defined(__MVS__)
+#if (!defined(_MSC_VER) || _MSC_VER >= 1900) && (!defined(__MINGW32__) && !defined(__MINGW64__) || !defined(__WINPTHREADS_VERSION)) && (!defined(__GNUC__) || defined(__clang__) || __GNUC__ > 4 || (__GNUC__ == 4 && __GNUC_MINOR__ >= 8)) && (!defined(__APPLE__) || !TARGET_OS_IPHONE) && !defined(__arm__) && !defined(_M_ARM) && !defined(__aarch64__) && !defined(__MVS__)
 // Assume `thread_local` is fully supported in all other C++11 compilers/platforms
 #define MOODYCAMEL_CPP11_THREAD_LOCAL_SUPPORTED    // tentatively enabled for now; years ago several users report having problems with it on
 #endif
diff --git a/include/definitions.h b/include/definitions.h
index ca03c8c..092238c 100755
--- a/include/definitions.h
+++ b/include/definitions.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #ifdef LEARNLOG_USE_TLS
-    #if (defined(_MSC_VER) && _MSC_VER < 1900) || (defined(__GNUC__) && __GNUC__ <= 4)
+    #if (defined(_MSC_VER) && _MSC_VER < 1900) || (defined(__GNUC__) && !defined(__clang__) && __GNUC__ <= 4)
         #undef LEARNLOG_USE_TLS
     #endif
 #endif
@@ -56,7 +56,7 @@ using formatter_uni_ptr = std::unique_ptr<sinks::formatter>;
 
 // thread_pool
 #ifdef LEARNLOG_USE_TLS
-    #if (defined(_MSC_VER) && _MSC_VER < 1900) || ((defined(__MINGW32__) || defined(__MINGW64__)) && defined(__WINPTHREADS_VERSION)) || (defined(__GNUC__) && __GNUC__ <= 4)
+    #if (defined(_MSC_VER) && _MSC_VER < 1900) || ((defined(__MINGW32__) || defined(__MINGW64__)) && defined(__WINPTHREADS_VERSION)) || (defined(__GNUC__) && !defined(__clang__) && __GNUC__ <= 4)
         #undef LEARNLOG_USE_TLS
     #endif
 #endif
-- 
2.43.0

