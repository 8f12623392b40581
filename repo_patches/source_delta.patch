From bf0b59e2c81594307f1fbfa79e27b31789cadbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 01/17] fix: start the thread pool scheduler while holding the
 lock

Two threads scheduling at once could both see no scheduler and assign
over a running thread, and a scheduler that finished early could detach
before it was assigned. Either way std::terminate was called.
---
 include/pluto/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..ea7e772 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,7 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
+                // Assign while locked, other threads and the scheduler itself use this
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From f239cb1f52ea8026454f352a915c52eccda8b035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 02/17] fix: complete waiting tasks on stop after the pool was
 shrunk

Workers above the target size left without completing the waiting
tasks when the pool was destroyed before they noticed the resize.
---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index ea7e772..80ac22b 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -386,8 +386,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 93504ec55a8159c5b65c2a9a9db7d2ace23e99a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:56 +0000
Subject: [PATCH 03/17] fix: notify waiting threads when the last worker leaves
 the pool

wait_until_all_tasks_complete() never returned if the target size was
set to 0 while the last task was running.
---
 include/pluto/thread_pool.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 80ac22b..d6e5d7b 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -422,6 +422,12 @@ namespace pluto
 
             if (!m_isStopping)
             {
+                if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                {
+                    // This worker might be the last, nobody else would notify
+                    m_tasksCompleteCondition.notify_all();
+                }
+
                 auto it{ m_workers.find(std::this_thread::get_id()) };
                 if (it != m_workers.end())
                 {
-- 
2.43.0


From 32829701a0c316a6f5242670e94b3615a1d07284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 04/17] fix: stop the logging thread while holding the lock it
 waits with

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..8218f3c 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,11 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // Hold the mutex so the logging thread can't miss this between checking and waiting
+                std::lock_guard<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 0618fa15486dd8ff28f67bfa4fce38d902cd8052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 05/17] fix: change the buffer flush size while holding the
 lock the logging thread waits with

---
 include/pluto/logger.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 8218f3c..0e96857 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -558,7 +558,11 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // Hold the mutex so the logging thread can't miss this between checking and waiting
+                std::lock_guard<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From b51bc44d3d0fe666c4359dc028fa33635d3410b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:26 +0000
Subject: [PATCH 06/17] fix: log an empty message when a format string produces
 no characters

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 0e96857..9b7377b 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -646,7 +646,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From 54b9e44064cf45ab7982f97555d51e003378f1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:38 +0000
Subject: [PATCH 07/17] fix: make a copied lru_cache refer to its own list

---
 include/pluto/lru_cache.hpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..b14c814 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,31 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity{ other.m_capacity },
+            m_list{ other.m_list }
+        {
+            // Each item in the map has to refer to this list, not the list that was copied
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.emplace(*itList, std::make_pair(other.m_map.find(*itList)->second.first, itList));
+            }
+        }
+
+        lru_cache(lru_cache&&) = default;
+
+        lru_cache& operator=(const lru_cache& other)
+        {
+            if (this != &other)
+            {
+                *this = lru_cache{ other };
+            }
+
+            return *this;
+        }
+
+        lru_cache& operator=(lru_cache&&) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From 5782e2ebf01abe0c016fb3bfa98ec7cfc92b8350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 08/17] fix: let scope tasks add further tasks while they run

---
 include/pluto/scope.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..248187b 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,11 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                // Take the task out before running it, since it may add more tasks
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +82,11 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Take the task out before running it, since it may add more tasks
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +134,11 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    // Take the task out before running it, since it may add more tasks
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From 4fd636b085408b4309c4c0ff79b2ac01da4695ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:30 +0000
Subject: [PATCH 09/17] fix: tell a scope's own exception from one that was
 already propagating

---
 include/pluto/scope.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 248187b..7197f8f 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -65,6 +65,11 @@ namespace pluto
     class on_scope_success
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exceptions{ std::uncaught_exception() };
+#endif
 
     public:
         inline on_scope_success() = default;
@@ -77,9 +82,9 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_exceptions)
 #else
-            if (!std::uncaught_exception())
+            if (std::uncaught_exception() <= m_exceptions)
 #endif
             {
                 while (!m_tasks.empty())
@@ -117,6 +122,11 @@ namespace pluto
     class on_scope_fail
     {
         std::stack<std::function<void()>> m_tasks{};
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_exceptions{ std::uncaught_exceptions() };
+#else
+        const bool m_exceptions{ std::uncaught_exception() };
+#endif
 
     public:
         inline on_scope_fail() = default;
@@ -129,9 +139,9 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (m_exceptions < std::uncaught_exceptions())
 #else
-            if (std::uncaught_exception())
+            if (m_exceptions < std::uncaught_exception())
 #endif
             {
                 while (!m_tasks.empty())
-- 
2.43.0


From f8e1f37a3a301b21f3947ab89e4e73ab34baa045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:33 +0000
Subject: [PATCH 10/17] fix: let container.hpp compile as C++14, which has no
 std::size

---
 include/pluto/container.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..ad7e398 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -195,7 +195,7 @@ namespace pluto
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(std::distance(std::begin(container), std::end(container))) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -222,7 +222,11 @@ namespace pluto
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
     {
+#if PLUTO_UTILS_HAS_CXX_17
         return std::size(container);
+#else
+        return container.size();
+#endif
     }
 
     template<class Container, class Predicate = pluto::is_true>
-- 
2.43.0


From 29c2b728d58c64c849bfd469cc559994d0c99595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:27 +0000
Subject: [PATCH 11/17] fix: let rfind, rfind_if and rfind_if_not take pointers
 as iterators

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..5fda7f0 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -122,7 +122,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -158,7 +158,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -181,7 +181,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From d59cdf52335acb0ce66d119abd829f7be3e65d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 12/17] fix: give the zero value for text that holds no value,
 not an indeterminate one

---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From 3c44cb1c634599361507ba0dce53dddb63973e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 13/17] fix: keep the locale of a case-insensitive comparator
 alive with it

---
 include/pluto/compare.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..aba8bd5 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,11 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +62,11 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +77,11 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +92,11 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +107,11 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +122,11 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale{ locale }, facet{ pluto::use_facet<Elem>(locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From 125223a5669c23abba7141c0159abf027b362ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 14/17] fix: default log rows don't depend on the stream's
 locale and number format

---
 include/pluto/logger.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 9b7377b..380643c 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -431,15 +431,15 @@ namespace pluto
 
             stream << std::right << std::setfill('0')
                 << std::put_time(&localTime, "%Y-%m-%d %H:%M:%S.")
-                << std::setw(6) << microseconds << '|'
+                << std::setw(6) << std::to_string(microseconds) << '|'
                 << std::setfill(' ')
-                << std::setw(7) << log.thread_id << '|'
+                << std::setw(7) << std::to_string(log.thread_id) << '|'
                 << std::left
                 << std::setw(8) << pluto::log_level_to_title(log.level) << '|'
     #if !PLUTO_LOGGER_HIDE_SOURCE_INFO
                 << std::setw(20) << std::string(pluto::file_name(log.source.file), 0, 20) << '|'
                 << std::right
-                << std::setw(5) << log.source.line << '|'
+                << std::setw(5) << std::to_string(log.source.line) << '|'
                 << std::left
                 << std::setw(20) << std::string(log.source.function, 0, 20) << '|'
     #endif
-- 
2.43.0


From ca9ac99994d3e74e13eb6d4b1cd6f35cb2760a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:21 +0000
Subject: [PATCH 15/17] fix: default log rows of times before 1970

---
 include/pluto/logger.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 380643c..7dc5743 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -424,10 +424,19 @@ namespace pluto
 
         static void default_log_writer(std::ostream& stream, const log_entry& log)
         {
-            const auto localTime{ pluto::local_time(pluto::logger::clock_type::to_time_t(log.time)) };
+            auto fraction{ std::chrono::duration_cast<std::chrono::nanoseconds>(
+                        log.time.time_since_epoch()) % std::chrono::seconds(1) };
 
-            const auto microseconds{ std::chrono::duration_cast<std::chrono::microseconds>(
-                        log.time.time_since_epoch()).count() % 1'000'000 };
+            // The fraction of a time before the epoch also counts from the second before it
+            if (fraction.count() < 0)
+            {
+                fraction += std::chrono::seconds(1);
+            }
+
+            const auto localTime{ pluto::local_time(pluto::logger::clock_type::to_time_t(
+                        log.time - std::chrono::duration_cast<pluto::logger::clock_type::duration>(fraction))) };
+
+            const auto microseconds{ std::chrono::duration_cast<std::chrono::microseconds>(fraction).count() };
 
             stream << std::right << std::setfill('0')
                 << std::put_time(&localTime, "%Y-%m-%d %H:%M:%S.")
-- 
2.43.0


From c40b0bade6fb86cb34e9a73f4f8b3bfd250d61a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:37 +0000
Subject: [PATCH 16/17] fix: starts_with and ends_with give predicates the left
 element first for random access iterators too

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index 5fda7f0..853ab41 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From da84b443b2e4f19b9308385a9f6874b6389f4efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:01 +0000
Subject: [PATCH 17/17] fix: Default the rotation limit to the documented 1

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 7dc5743..1ab0d5c 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -78,7 +78,7 @@
 #endif
 
 #ifndef PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT
-#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 0
+#define PLUTO_LOGGER_INITIAL_FILE_ROTATION_LIMIT 1
 #endif
 
 #ifndef PLUTO_LOGGER_INITIAL_LOG_WRITER
-- 
2.43.0

