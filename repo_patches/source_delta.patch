From 44c4c233718cb6c3e49a1605ed64f64e0333313b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 01/13] fix: signal::disconnect marks the slots it erases as
 disconnected

erase() removed matching slots from the list but left them in the connected
state. While an emission (or another thread) still held such a slot, it was
still invoked, connection::connected() stayed true, and
connection::disconnect() reported success and removed whatever other slot had
taken over the stale index. Mark erased slots as disconnected and only remove
the slot that asked to be removed.
---
 signals.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index ada159b..fae7e1c 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1811,7 +1811,9 @@ namespace sig
             auto i = slot.index();
             auto& slots = m_Slots.write();
 
-            if (!slots.empty() && i < slots.size())
+            // The slot may have been erased already (see erase), in which case
+            // its index is stale and refers to some other slot.
+            if (i < slots.size() && slots[i].get() == &slot)
             {
                 std::swap(slots[i], slots.back());
                 slots[i]->index() = i;
@@ -1835,10 +1837,14 @@ namespace sig
                 auto& s = *slots[i];
                 if (s == slot)
                 {
+                    // Ongoing emissions and connections can still refer to
+                    // the slot, so it must be marked as disconnected.
+                    if (s.state().disconnect())
+                        ++count;
+
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
                     slots.pop_back();
-                    ++count;
                 }
                 else
                 {
-- 
2.43.0


From c95ebafddd7362fddb00e35e9f80915c2e87c7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 02/13] fix: do not destroy erased slots while the slot mutex
 is locked

signal::disconnect destroyed the matching function objects with the mutex
held: a function object whose destructor uses the signal (for example because
it owns a scoped_connection to it) deadlocked.
---
 signals.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index fae7e1c..43142d9 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1827,6 +1827,10 @@ namespace sig
         template<typename Func>
         size_t erase(const slot<Func>& slot)
         {
+            // Erased slots are released after the mutex is unlocked. Destroying
+            // a function object can run code that uses this signal.
+            list_type erased;
+
             lock_type lock(m_SlotMutex);
             auto& slots = m_Slots.write();
 
@@ -1844,6 +1848,7 @@ namespace sig
 
                     std::swap(slots[i], slots.back());
                     slots[i]->index() = i;
+                    erased.push_back(std::move(slots.back()));
                     slots.pop_back();
                 }
                 else
-- 
2.43.0


From 100202447d27d59a4cd91f71797959de8ae3dd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 03/13] fix: pass every slot its own copy of by-value arguments

The slot iterator forwarded by-value arguments as rvalues to every slot, so
the first slot that took the argument by value left a moved-from value for all
slots that follow.
---
 signals.hpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 43142d9..36acdba 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1077,6 +1077,28 @@ namespace sig
         template<typename... T>
         using index_sequence_for = make_index_sequence<sizeof...(T)>;
 
+        // Get a stored signal argument to pass to a slot.
+        // Arguments that are passed by value are copied for each slot, otherwise 
+        // a slot could move the value away from the slots that follow.
+        template<typename Arg, bool = !std::is_reference<Arg>::value && std::is_copy_constructible<Arg>::value>
+        struct slot_arg
+        {
+            static Arg get(const Arg& arg)
+            {
+                return arg;
+            }
+        };
+
+        // References (and types that cannot be copied) are forwarded.
+        template<typename Arg>
+        struct slot_arg<Arg, false>
+        {
+            static Arg&& get(traits::remove_reference_t<Arg>& arg)
+            {
+                return static_cast<Arg&&>(arg);
+            }
+        };
+
         // The slot_iterator is a wrapper for the actual container that 
         // contains a list of slots to be invoked. When the slot_iterator
         // is dereferenced, it must invoke the slot that is referenced by the 
@@ -1139,7 +1161,7 @@ namespace sig
             constexpr opt::optional<T> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                return (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                return (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
             }
 
             InputIterator m_Iter;
@@ -1203,7 +1225,7 @@ namespace sig
             constexpr opt::optional<void> do_invoke(index_sequence<Is...>)
             {
                 // Unpack tuple arguments and invoke slot.
-                (**m_Iter)(std::forward<Args>(std::get<Is>(m_Args))...);
+                (**m_Iter)(slot_arg<Args>::get(std::get<Is>(m_Args))...);
                 return {};
             }
 
-- 
2.43.0


From 2a781646006bd4a80042f484dfe2c0796adc9f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 04/13] fix: disconnect the slots of a signal that is destroyed

A slot that is kept alive by an ongoing emission still counted as connected
after the signal was destroyed (by a slot it invoked), and disconnecting it
called into the destroyed signal.
---
 signals.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 36acdba..72f713d 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1681,7 +1681,10 @@ namespace sig
             : m_Blocked(false)
             , m_Slots(new list_type())
         {}
-        ~signal() = default;
+        ~signal()
+        {
+            disconnect_all();
+        }
 
         // Not copyable.
         signal(const signal&) = delete;
@@ -1881,6 +1884,17 @@ namespace sig
             return count;
         }
 
+        // Mark all slots as disconnected.
+        // An ongoing emission keeps its slots alive. They must not refer to
+        // the signal anymore if it is destroyed.
+        void disconnect_all() noexcept
+        {
+            for (auto& s : m_Slots.read())
+            {
+                s->state().disconnect();
+            }
+        }
+
         void clear()
         {
             lock_type lock(m_SlotMutex);
-- 
2.43.0


From 45aa4424f35b7320990761487e02de4a4e5b6e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 05/13] fix: moving a signal moves its connections

After a signal was moved its slots still referred to the moved-from signal, so
disconnecting one of them dereferenced a null list (or a destroyed signal), as
did any other use of the moved-from signal. The move assignment operator
returned no value and deadlocked on self-assignment.
---
 signals.hpp | 37 ++++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 72f713d..19073d0 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1692,22 +1692,36 @@ namespace sig
         signal& operator=(const signal&) = delete;
 
         // Moveable.
+        // The slots are connected to this signal, other has no slots anymore.
         signal(signal&& other) noexcept
-            : m_Blocked(other.m_Blocked.load())
+            : m_Slots(new list_type())
+            , m_Blocked(other.m_Blocked.load())
         {
             lock_type lock(other.m_SlotMutex);
-            m_Slots = std::move(other.m_Slots);
+            std::swap(m_Slots, other.m_Slots);
+            adopt_slots();
         }
 
         // Move assignable.
         signal& operator=(signal&& other) noexcept
         {
-            lock_type lock1(m_SlotMutex, std::defer_lock);
-            lock_type lock2(other.m_SlotMutex, std::defer_lock);
-            std::lock(lock1, lock2);
+            if (this != &other)
+            {
+                // The previous slots are released after the mutexes are unlocked.
+                cow_type slots(new list_type());
+
+                lock_type lock1(m_SlotMutex, std::defer_lock);
+                lock_type lock2(other.m_SlotMutex, std::defer_lock);
+                std::lock(lock1, lock2);
+
+                disconnect_all();
+                std::swap(m_Slots, slots);
+                std::swap(m_Slots, other.m_Slots);
+                adopt_slots();
+                m_Blocked = other.m_Blocked.load();
+            }
 
-            m_Slots = std::move(other.m_Slots);
-            m_Blocked = other.m_Blocked.load();
+            return *this;
         }
 
         // Connect a previously created slot
@@ -1895,6 +1909,15 @@ namespace sig
             }
         }
 
+        // Make this the signal that the slots are connected to.
+        void adopt_slots() noexcept
+        {
+            for (auto& s : m_Slots.read())
+            {
+                s->m_pSignal = this;
+            }
+        }
+
         void clear()
         {
             lock_type lock(m_SlotMutex);
-- 
2.43.0


From b6127a931eb9a490c69302be7c6df73001439e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 06/13] fix: copying slots

Copying a non-const slot selected the constructor for function objects and
recursed until the stack overflowed, the copy assignment operator did not
compile, and copying or connecting an empty slot dereferenced a null pointer.
---
 signals.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 19073d0..97d3d27 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1281,7 +1281,8 @@ namespace sig
         {}
 
         // Slot that takes a function object.
-        template<typename Func>
+        template<typename Func,
+            typename = detail::traits::enable_if_t<!std::is_same<detail::traits::decay_t<Func>, slot>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
             : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
@@ -1304,7 +1305,7 @@ namespace sig
 
         // Copy constructor.
         slot(const slot& copy, detail::signal_base* signal = nullptr)
-            : m_pImpl{ copy.m_pImpl->clone() }
+            : m_pImpl{ copy.m_pImpl ? copy.m_pImpl->clone() : nullptr }
             , m_pSignal{ signal ? signal : copy.m_pSignal }
         {}
 
@@ -1327,8 +1328,7 @@ namespace sig
         {
             if (&other != this)
             {
-                m_pImpl.swap(other.m_pImpl->clone());
-                m_pSignal = other.m_pSignal;
+                *this = slot(other);
             }
             return *this;
         }
@@ -1727,6 +1727,9 @@ namespace sig
         // Connect a previously created slot
         connection connect(const slot_type& slot)
         {
+            // There is nothing to connect if the slot is empty.
+            if (!slot) return {};
+
             auto s = slot_ptr_type(new slot_type(slot, static_cast<detail::signal_base*>(this)));
             connection c(s);
             add_slot(std::move(s));
-- 
2.43.0


From 45a03379f1054cb12c2d6d339f23d3080ab68e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 07/13] fix: match equal callables regardless of their value
 category

Slots were specialized on the deduced (reference) type of the callable and of
the object pointer, so signal::disconnect did not find a slot that had been
connected with an equal lvalue instead of an rvalue (or the other way round),
for example a function by name and by address, or a pointer variable and the
address of the object.
---
 signals.hpp | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 97d3d27..df672cc 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -773,8 +773,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -810,8 +811,9 @@ namespace sig
 
             slot_func(const slot_func&) = default;  // Copy constructor.
 
-            slot_func(Func&& func)
-                : m_Func{ std::forward<Func>(func) }
+            template<typename F>
+            explicit slot_func(F&& func)
+                : m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -849,9 +851,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<R, Args...>* clone() const override
@@ -892,9 +895,10 @@ namespace sig
 
             slot_pmf(const slot_pmf&) = default;
 
-            slot_pmf(Func&& func, Ptr&& ptr)
-                : m_Ptr{ std::forward<Ptr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual slot_impl<void, Args...>* clone() const override
@@ -936,9 +940,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -997,9 +1002,10 @@ namespace sig
 
             slot_pmf_tracked(const slot_pmf_tracked&) = default;
 
-            slot_pmf_tracked(Func&& func, WeakPtr&& ptr)
-                : m_Ptr{ std::forward<WeakPtr>(ptr) }
-                , m_Func{ std::forward<Func>(func) }
+            template<typename F, typename P>
+            slot_pmf_tracked(F&& func, P&& ptr)
+                : m_Ptr{ std::forward<P>(ptr) }
+                , m_Func{ std::forward<F>(func) }
             {}
 
             virtual bool connected() const noexcept override
@@ -1281,10 +1287,12 @@ namespace sig
         {}
 
         // Slot that takes a function object.
+        // The slot implementations are specialized on the decayed types so that slots
+        // compare equal no matter if they were created from an lvalue or an rvalue.
         template<typename Func,
             typename = detail::traits::enable_if_t<!std::is_same<detail::traits::decay_t<Func>, slot>::value>>
         slot(Func&& func, detail::signal_base* signal = nullptr)
-            : m_pImpl{ new detail::slot_func<R, Func, Args...>(std::forward<Func>(func)) }
+            : m_pImpl{ new detail::slot_func<R, detail::traits::decay_t<Func>, Args...>(std::forward<Func>(func)) }
             , m_pSignal{ signal }
         {}
 
@@ -1292,14 +1300,14 @@ namespace sig
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<!detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf<R, Func, Ptr, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
+            : m_pImpl{ new detail::slot_pmf<R, detail::traits::decay_t<Func>, detail::traits::decay_t<Ptr>, Args...>(std::forward<Func>(func), std::forward<Ptr>(ptr)) }
             , m_pSignal{ signal }
         {}
 
         template<typename Func, typename Ptr>
         slot(Func&& func, Ptr&& ptr, detail::signal_base* signal = nullptr,
             detail::traits::enable_if_t<detail::traits::is_weak_ptr_convertable<Ptr>::value, void*> = nullptr)
-            : m_pImpl{ new detail::slot_pmf_tracked<R, Func, decltype(to_weak(std::forward<Ptr>(ptr))), Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
+            : m_pImpl{ new detail::slot_pmf_tracked<R, detail::traits::decay_t<Func>, detail::traits::decay_t<decltype(to_weak(std::forward<Ptr>(ptr)))>, Args...>(std::forward<Func>(func), to_weak(std::forward<Ptr>(ptr))) }
             , m_pSignal{ signal }
         {}
 
-- 
2.43.0


From ad9544ff1191cba71a1a25005c3ea1f5b86ec159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 08/13] fix: assigning a blocker of the same connection keeps
 it blocked

'b = c.blocker()' unblocked the slot if b was already blocking it, although
the blocker is still alive.
---
 signals.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index df672cc..8725855 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1466,7 +1466,10 @@ namespace sig
         connection_blocker& operator=(const connection_blocker&) = delete;
         connection_blocker& operator=(connection_blocker&& c) noexcept
         {
-            release();
+            // Keep the slot blocked if both refer to the same slot.
+            if (m_Slot.lock() != c.m_Slot.lock())
+                release();
+
             m_Slot = std::move(c.m_Slot);
             return *this;
         }
-- 
2.43.0


From 7cd8abc44198a3f14bf9f1ef940ca139dd872280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:55 +0000
Subject: [PATCH 09/13] fix: a scalar optional is disengaged if emplace throws

As documented (and as for all other types), the optional must be uninitialized
if constructing the new value throws.
---
 optional.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/optional.hpp b/optional.hpp
index 8a8a9f3..062bd44 100644
--- a/optional.hpp
+++ b/optional.hpp
@@ -642,6 +642,7 @@ namespace opt
             template<class... Args>
             void emplace_assign(Args&&... args)
             {
+                destroy();
                 construct(in_place, std::forward<Args>(args)...);
             }
 
-- 
2.43.0


From 54aad2ea73bd37d742052d5693efc0db1c05e761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:34 +0000
Subject: [PATCH 10/13] fix: testing a non-const cow_ptr for validity must not
 copy the object

if (p) on a non-const cow_ptr preferred operator T*() to the const
operator bool() and so made a deep copy of a shared object.
---
 signals.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 8725855..79676d6 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -643,6 +643,12 @@ namespace sig
                 return bool(m_Ptr);
             }
 
+            // Preferred to the (copying) conversion to T* for non-const objects.
+            explicit operator bool() noexcept
+            {
+                return bool(m_Ptr);
+            }
+
         private:
             void detach()
             {
-- 
2.43.0


From 64296c46c3274b9690b52b88e38f2d417b63b211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:16 +0000
Subject: [PATCH 11/13] fix: a cow_ptr that is made from a pointer can throw,
 it allocates

cow_ptr(T*) and operator=(T*) were noexcept, so that running out of
memory for the control block (for example in signal::connect during an
emission, where the slots are copied) ended the program instead of
throwing std::bad_alloc.
---
 signals.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/signals.hpp b/signals.hpp
index 79676d6..539bd58 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -518,7 +518,7 @@ namespace sig
             constexpr cow_ptr() noexcept = default;
             ~cow_ptr() = default;
 
-            constexpr explicit cow_ptr(T* other) noexcept
+            constexpr explicit cow_ptr(T* other)
                 : m_Ptr(other)
             {}
 
@@ -549,7 +549,7 @@ namespace sig
             }
 
             // Assign from other value.
-            cow_ptr& operator=(T* other) noexcept
+            cow_ptr& operator=(T* other)
             {
                 m_Ptr = pointer_type(other);
                 return *this;
-- 
2.43.0


From c8895deebd1ae78ee3636902b9fc633edaf1b47c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:51 +0000
Subject: [PATCH 12/13] fix: a signal whose result is a reference could not be
 emitted

---
 signals.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/signals.hpp b/signals.hpp
index 539bd58..56d3171 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -1123,7 +1123,7 @@ namespace sig
             using iterator_category = std::input_iterator_tag;
             using value_type = T;
             using difference_type = std::ptrdiff_t;
-            using pointer = T*;
+            using pointer = traits::remove_reference_t<T>*;
             using reference = T&;
 
             using args_type = std::tuple<Args...>;
-- 
2.43.0


From 39d4b46b6fd815600e0165de2beda09175e9ff40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:19 +0000
Subject: [PATCH 13/13] fix: writing to a cow_ptr in place raced with the
 thread that released the other reference

---
 signals.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/signals.hpp b/signals.hpp
index 56d3171..e518fa2 100644
--- a/signals.hpp
+++ b/signals.hpp
@@ -658,6 +658,12 @@ namespace sig
                     // creating a new instance of the stored object.
                     *this = cow_ptr(new T(*m_Ptr));
                 }
+                else
+                {
+                    // use_count() does not synchronize with the thread
+                    // that released the other reference.
+                    std::atomic_thread_fence(std::memory_order_acquire);
+                }
             }
 
             pointer_type m_Ptr;
-- 
2.43.0

