From ec50670ce132b21b935700a3af5c0a276e9175df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:08 +0000
Subject: [PATCH 1/4] fix: make atomic_thread_fence(memory_order_consume) a
 compiler fence in the gcc_x86 backend

thread_fence ignored memory_order_consume altogether, although a consume fence
is an acquire fence and signal_fence in the same backend already honours it.
---
 include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
index 5a39367..4c6a595 100644
--- a/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
+++ b/include/boost/atomic/detail/fence_arch_ops_gcc_x86.hpp
@@ -45,7 +45,7 @@ struct fence_arch_operations_gcc_x86
             unsigned char dummy = 0u;
             __asm__ __volatile__ ("lock; notb %0" : "+m" (dummy) : : "memory");
         }
-        else if ((static_cast< unsigned int >(order) & (static_cast< unsigned int >(memory_order_acquire) | static_cast< unsigned int >(memory_order_release))) != 0u)
+        else if (order != memory_order_relaxed)
         {
             __asm__ __volatile__ ("" ::: "memory");
         }
-- 
2.43.0


From 2d51490669d30be83bb91e5ae869f07e64d5cac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:39 +0000
Subject: [PATCH 2/4] fix: re-read the value under the lock before blocking in
 generic timed waits

wait_until_fallback and wait_until_abs_timeout tested the value before acquiring
the lock pool lock and blocked on the stale result, so a change followed by a
notification in between was lost.
---
 include/boost/atomic/detail/wait_ops_generic.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7503d5c..916373c 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -93,6 +93,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
                 const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
@@ -128,6 +129,7 @@ private:
         if (new_val == old_val)
         {
             scoped_wait_state wait_state(&storage);
+            new_val = base_type::load(storage, order);
             const timespec abs_timeout(posix_clock_traits< Clock >::to_timespec(timeout));
             if (BOOST_LIKELY(abs_timeout.tv_sec >= 0))
             {
-- 
2.43.0


From 330f66ff4037034fd4250228a73a7a6757a3d4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:00 +0000
Subject: [PATCH 3/4] fix: avoid overflows in time calculations of the timed
 waiting operations

Waiting for or until a very long time (e.g. wait_for(std::chrono::seconds::max()))
overflowed and reported a timeout immediately. Saturate the calculations.
---
 include/boost/atomic/detail/chrono.hpp        | 40 ++++++++++++++++++-
 .../boost/atomic/detail/wait_ops_emulated.hpp |  4 +-
 .../boost/atomic/detail/wait_ops_futex.hpp    |  9 +++--
 .../boost/atomic/detail/wait_ops_generic.hpp  | 10 ++---
 src/lock_pool.cpp                             | 24 +++++++----
 5 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index 154722f..eccb950 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -16,9 +16,9 @@
 
 #include <time.h>
 #include <chrono>
+#include <type_traits>
 #if !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
 #include <ratio>
-#include <type_traits>
 #endif // !defined(__cpp_lib_chrono) || (__cpp_lib_chrono < 201510l)
 #if defined(CLOCK_REALTIME)
 #include <boost/atomic/posix_clock_traits_fwd.hpp>
@@ -52,6 +52,44 @@ inline constexpr To ceil(std::chrono::duration< Rep, Period > from) noexcept
 
 #endif // defined(__cpp_lib_chrono) && (__cpp_lib_chrono >= 201510l)
 
+//! Converts a non-negative duration to nanoseconds, rounding up. Saturates if the result is not representable.
+template< typename Rep, typename Period >
+inline std::chrono::nanoseconds ceil_to_nanoseconds(std::chrono::duration< Rep, Period > from) noexcept
+{
+    using wide_duration = std::chrono::duration< typename std::common_type< Rep, std::chrono::nanoseconds::rep >::type, Period >;
+    if (wide_duration(from) >= std::chrono::duration_cast< wide_duration >((std::chrono::nanoseconds::max)()))
+        return (std::chrono::nanoseconds::max)();
+    return chrono::ceil< std::chrono::nanoseconds >(from);
+}
+
+//! Returns the time point that is \a timeout after \a now (or \a now, if \a timeout is negative). Saturates if the result is not representable.
+template< typename Clock, typename Duration, typename Rep, typename Period >
+inline std::chrono::time_point< Clock, Duration > add_timeout(std::chrono::time_point< Clock, Duration > now, std::chrono::duration< Rep, Period > timeout) noexcept
+{
+    if (timeout.count() <= 0)
+        return now;
+    if (chrono::ceil_to_nanoseconds(timeout) >= (std::chrono::time_point< Clock, Duration >::max)() - now)
+        return (std::chrono::time_point< Clock, Duration >::max)();
+    return now + timeout;
+}
+
+/*!
+ * \brief Returns the duration to block for until \a timeout is reached, rounded up to nanoseconds, or zero if it already is
+ *
+ * The returned duration is limited, so that \a timeout that is too far from \a now does not cause an overflow.
+ * The caller must check if \a timeout is reached after blocking.
+ */
+template< typename Clock, typename Duration >
+inline std::chrono::nanoseconds get_remaining_time(std::chrono::time_point< Clock, Duration > timeout, std::chrono::time_point< Clock, Duration > now)
+{
+    if (now >= timeout)
+        return std::chrono::nanoseconds(0);
+    constexpr std::chrono::hours max_remaining_time(24 * 30);
+    if (timeout.time_since_epoch() / 2 - now.time_since_epoch() / 2 >= max_remaining_time)
+        return max_remaining_time;
+    return chrono::ceil< std::chrono::nanoseconds >(timeout - now);
+}
+
 } // namespace chrono
 } // namespace detail
 
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index 6f12f3a..c34a514 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -85,7 +85,7 @@ private:
         storage_type new_val = s;
         while (new_val == old_val)
         {
-            const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
+            const std::chrono::nanoseconds nsec = atomics::detail::chrono::get_remaining_time(timeout, now);
             if (nsec.count() <= 0)
             {
                 timed_out = true;
@@ -208,7 +208,7 @@ public:
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, timed_out);
     }
 
     static void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 5db7e88..0885a82 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -140,7 +140,7 @@ private:
         storage_type new_val = base_type::load(storage, order);
         while (new_val == old_val)
         {
-            const std::int64_t nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now).count();
+            const std::int64_t nsec = atomics::detail::chrono::get_remaining_time(timeout, now).count();
             if (nsec <= 0)
             {
                 timed_out = true;
@@ -294,8 +294,9 @@ public:
             timespec now{};
             if (BOOST_LIKELY(clock_gettime(CLOCK_MONOTONIC, &now) == 0))
             {
-                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout).count();
-                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + nsec / 1000000000;
+                const std::int64_t timeout_nsec = atomics::detail::chrono::ceil_to_nanoseconds(timeout).count();
+                const std::int64_t nsec = static_cast< std::int64_t >(now.tv_nsec) + timeout_nsec % 1000000000;
+                const std::int64_t sec = static_cast< std::int64_t >(now.tv_sec) + timeout_nsec / 1000000000 + nsec / 1000000000;
                 if (BOOST_LIKELY(sec <= (std::numeric_limits< decltype(futex_timespec::tv_sec) >::max)()))
                 {
                     futex_timespec ts{};
@@ -331,7 +332,7 @@ public:
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET) && defined(_POSIX_MONOTONIC_CLOCK) && (_POSIX_MONOTONIC_CLOCK >= 0)
 
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 916373c..7661195 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -96,7 +96,7 @@ private:
             new_val = base_type::load(storage, order);
             while (new_val == old_val)
             {
-                const std::chrono::nanoseconds nsec = atomics::detail::chrono::ceil< std::chrono::nanoseconds >(timeout - now);
+                const std::chrono::nanoseconds nsec = atomics::detail::chrono::get_remaining_time(timeout, now);
                 if (nsec.count() <= 0)
                 {
                     timed_out = true;
@@ -224,7 +224,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_fallback< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile& storage) noexcept
@@ -300,7 +300,7 @@ private:
         {
             for (unsigned int i = 0u; i < fast_loop_count; ++i)
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
@@ -316,7 +316,7 @@ private:
 
             do
             {
-                if ((now - timeout).count() >= 0)
+                if (now >= timeout)
                 {
                     timed_out = true;
                     goto finish;
@@ -358,7 +358,7 @@ public:
     ) noexcept
     {
         const std::chrono::steady_clock::time_point now = std::chrono::steady_clock::now();
-        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, now + timeout, now, order, timed_out);
+        return wait_until_impl< std::chrono::steady_clock >(storage, old_val, atomics::detail::chrono::add_timeout(now, timeout), now, order, timed_out);
     }
 
     static BOOST_FORCEINLINE void notify_one(storage_type volatile&) noexcept
diff --git a/src/lock_pool.cpp b/src/lock_pool.cpp
index fe477e3..1605788 100644
--- a/src/lock_pool.cpp
+++ b/src/lock_pool.cpp
@@ -311,6 +311,21 @@ struct wait_state_list
 
 #define BOOST_ATOMIC_WAIT_STATE_LIST_INIT { nullptr, false }
 
+#if !defined(BOOST_ATOMIC_USE_WINAPI)
+
+//! Returns the time remaining until \a abs_timeout. Limits the result if \a abs_timeout is too far in the future to avoid an overflow.
+inline std::chrono::nanoseconds get_remaining_time(timespec const& abs_timeout, timespec const& now) noexcept
+{
+    constexpr std::chrono::seconds::rep max_sec = 30 * 24 * 3600;
+    std::chrono::seconds::rep sec = static_cast< std::chrono::seconds::rep >(abs_timeout.tv_sec) - static_cast< std::chrono::seconds::rep >(now.tv_sec);
+    if (BOOST_UNLIKELY(sec > max_sec))
+        sec = max_sec;
+    return std::chrono::seconds(sec) +
+        std::chrono::nanoseconds(static_cast< std::chrono::nanoseconds::rep >(abs_timeout.tv_nsec) - static_cast< std::chrono::nanoseconds::rep >(now.tv_nsec));
+}
+
+#endif // !defined(BOOST_ATOMIC_USE_WINAPI)
+
 // In the platform-specific definitions below, lock_state must be a POD structure and wait_state must derive from wait_state_base.
 
 #if defined(BOOST_ATOMIC_USE_PTHREAD)
@@ -473,9 +488,7 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
         if (ts.tv_sec > abs_timeout.tv_sec || (ts.tv_sec == abs_timeout.tv_sec && ts.tv_nsec >= abs_timeout.tv_nsec))
             return true;
 
-        std::chrono::nanoseconds rel_timeout =
-            std::chrono::seconds(static_cast< std::chrono::seconds::rep >(abs_timeout.tv_sec) - static_cast< std::chrono::seconds::rep >(ts.tv_sec)) +
-            std::chrono::nanoseconds(static_cast< std::chrono::nanoseconds::rep >(abs_timeout.tv_nsec) - static_cast< std::chrono::nanoseconds::rep >(ts.tv_nsec));
+        std::chrono::nanoseconds rel_timeout = get_remaining_time(abs_timeout, ts);
 
         if (!wait_for(state, rel_timeout)) // may return true before rel_timeout expires if we reach time_t capacity
             break;
@@ -725,10 +738,7 @@ inline bool wait_state::wait_until(lock_state& state, clockid_t clock_id, timesp
             futex_timespec ts{};
             do
             {
-                std::chrono::nanoseconds::rep nsec = std::chrono::nanoseconds(
-                    std::chrono::seconds(static_cast< std::chrono::seconds::rep >(abs_timeout.tv_sec) - static_cast< std::chrono::seconds::rep >(now.tv_sec)) +
-                    std::chrono::nanoseconds(static_cast< std::chrono::nanoseconds::rep >(abs_timeout.tv_nsec) - static_cast< std::chrono::nanoseconds::rep >(now.tv_nsec))
-                ).count();
+                std::chrono::nanoseconds::rep nsec = get_remaining_time(abs_timeout, now).count();
                 if (nsec <= 0)
                 {
                     timed_out = true;
-- 
2.43.0


From 3ef859d704095ef144fa1cd62f00c18db51b20b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:46 +0000
Subject: [PATCH 4/4] fix: saturate coarse time points in timed waiting
 operations instead of overflowing

---
 include/boost/atomic/detail/chrono.hpp        | 19 +++++++++++++++++++
 .../boost/atomic/detail/wait_ops_emulated.hpp |  4 ++--
 .../boost/atomic/detail/wait_ops_futex.hpp    |  4 ++--
 .../boost/atomic/detail/wait_ops_generic.hpp  |  6 +++---
 4 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/include/boost/atomic/detail/chrono.hpp b/include/boost/atomic/detail/chrono.hpp
index eccb950..f7bbdf8 100644
--- a/include/boost/atomic/detail/chrono.hpp
+++ b/include/boost/atomic/detail/chrono.hpp
@@ -73,6 +73,25 @@ inline std::chrono::time_point< Clock, Duration > add_timeout(std::chrono::time_
     return now + timeout;
 }
 
+//! Converts a time point to the clock's native time point type. Saturates if the result is not representable.
+template< typename Clock, typename Duration >
+inline typename Clock::time_point to_clock_time_point(std::chrono::time_point< Clock, Duration > timeout)
+{
+    using clock_duration = typename Clock::time_point::duration;
+    using wide_duration = std::chrono::duration< typename std::common_type< typename Duration::rep, typename clock_duration::rep >::type, typename Duration::period >;
+    const wide_duration timeout_since_epoch(timeout.time_since_epoch());
+    if (timeout_since_epoch < wide_duration::zero())
+    {
+        if (timeout_since_epoch < std::chrono::duration_cast< wide_duration >((clock_duration::min)()))
+            return (Clock::time_point::min)();
+    }
+    else if (timeout_since_epoch > std::chrono::duration_cast< wide_duration >((clock_duration::max)()))
+    {
+        return (Clock::time_point::max)();
+    }
+    return timeout;
+}
+
 /*!
  * \brief Returns the duration to block for until \a timeout is reached, rounded up to nanoseconds, or zero if it already is
  *
diff --git a/include/boost/atomic/detail/wait_ops_emulated.hpp b/include/boost/atomic/detail/wait_ops_emulated.hpp
index c34a514..bc76ef8 100644
--- a/include/boost/atomic/detail/wait_ops_emulated.hpp
+++ b/include/boost/atomic/detail/wait_ops_emulated.hpp
@@ -174,7 +174,7 @@ public:
     ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, timeout, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
     }
 
 #else // !defined(BOOST_WINDOWS)
@@ -191,7 +191,7 @@ public:
     ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), timed_out)))
     {
         static_assert(!base_type::is_interprocess, "Boost.Atomic: operation invoked on a non-lock-free inter-process atomic object");
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), timed_out);
     }
 
 #endif // !defined(BOOST_WINDOWS)
diff --git a/include/boost/atomic/detail/wait_ops_futex.hpp b/include/boost/atomic/detail/wait_ops_futex.hpp
index 0885a82..bc77a64 100644
--- a/include/boost/atomic/detail/wait_ops_futex.hpp
+++ b/include/boost/atomic/detail/wait_ops_futex.hpp
@@ -257,7 +257,7 @@ public:
         bool& timed_out
     ) noexcept(noexcept(wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, typename select_futex_wait< Clock >::type())))
     {
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, typename select_futex_wait< Clock >::type());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, typename select_futex_wait< Clock >::type());
     }
 
 #else // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET)
@@ -273,7 +273,7 @@ public:
         bool& timed_out
     ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
     {
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
 #endif // defined(BOOST_ATOMIC_DETAIL_FUTEX_WAIT_BITSET)
diff --git a/include/boost/atomic/detail/wait_ops_generic.hpp b/include/boost/atomic/detail/wait_ops_generic.hpp
index 7661195..7d56afb 100644
--- a/include/boost/atomic/detail/wait_ops_generic.hpp
+++ b/include/boost/atomic/detail/wait_ops_generic.hpp
@@ -192,7 +192,7 @@ public:
     ) noexcept(noexcept(wait_until_dispatch< Clock >(
         storage, old_val, timeout, order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >())))
     {
-        return wait_until_dispatch< Clock >(storage, old_val, timeout, order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
+        return wait_until_dispatch< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), order, timed_out, std::integral_constant< bool, has_posix_clock_traits< Clock >::value >());
     }
 
 #else // !defined(BOOST_WINDOWS)
@@ -208,7 +208,7 @@ public:
         bool& timed_out
     ) noexcept(noexcept(wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
     {
-        return wait_until_fallback< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_fallback< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
 #endif // !defined(BOOST_WINDOWS)
@@ -344,7 +344,7 @@ public:
         bool& timed_out
     ) noexcept(noexcept(wait_until_impl< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out)))
     {
-        return wait_until_impl< Clock >(storage, old_val, timeout, Clock::now(), order, timed_out);
+        return wait_until_impl< Clock >(storage, old_val, atomics::detail::chrono::to_clock_time_point(timeout), Clock::now(), order, timed_out);
     }
 
     template< typename Rep, typename Period >
-- 
2.43.0

