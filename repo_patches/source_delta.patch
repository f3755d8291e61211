From 29913548d1c310e6165f7eaa6862c518aab69b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 01/89] fix: MMQ: return the index and timestamp of the
 published message, not of whatever reused its slot

---
 blocks/mmq/mmq.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 0b33429..2cbc3da 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -103,8 +103,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = message;
+      // Once committed, the slot can be consumed and reused by another publisher at any moment.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
@@ -115,8 +117,10 @@ class MMQImpl {
     const std::pair<bool, size_t> index = CircularBufferAllocate(std::forward<TIMESTAMP>(timestamp));
     if (index.first) {
       circular_buffer_[index.second].message_body = std::move(message);
+      // Once committed, the slot can be consumed and reused by another publisher at any moment.
+      const idxts_t result = circular_buffer_[index.second].index_timestamp;
       CircularBufferCommit(index.second);
-      return circular_buffer_[index.second].index_timestamp;
+      return result;
     } else {
       return idxts_t();
     }
-- 
2.43.0


From 00677fbd9edfd3853a584787774ea845531c57b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 02/89] fix: MMQ: keep timestamps increasing when several
 publishers wait for a free slot

---
 blocks/mmq/mmq.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blocks/mmq/mmq.h b/blocks/mmq/mmq.h
index 2cbc3da..d75e45e 100644
--- a/blocks/mmq/mmq.h
+++ b/blocks/mmq/mmq.h
@@ -216,10 +216,6 @@ class MMQImpl {
     if (destructing_) {
       return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
     }
-    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
-    if (!(timestamp > last_idx_ts_.us)) {
-      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
-    }
     while (circular_buffer_[head_].status != Entry::FREE) {
       // Waiting for the next empty slot in the buffer.
       condition_variable_.wait(lock,
@@ -228,6 +224,12 @@ class MMQImpl {
         return std::make_pair(false, 0u);  // LCOV_EXCL_LINE
       }
     }
+    // The timestamp must be examined after the wait, as other publishers may have been served in the meantime.
+    const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
+    if (!(timestamp > last_idx_ts_.us)) {
+      condition_variable_.notify_all();  // The slot stays free, another publisher may be waiting for it.
+      CURRENT_THROW(ss::InconsistentTimestampException(last_idx_ts_.us + std::chrono::microseconds(1), timestamp));
+    }
     const size_t index = head_;
     ++last_idx_ts_.index;
     last_idx_ts_.us = timestamp.count() >= 0 ? timestamp : current::time::Now();
-- 
2.43.0


From 6063d6d70742ddcf68e5324308c9b793164af8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:06 +0000
Subject: [PATCH 03/89] fix: MMPQ: do not lose messages of equal timestamps

---
 blocks/mmq/mmpq.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/blocks/mmq/mmpq.h b/blocks/mmq/mmpq.h
index 879ff74..45a2b2d 100644
--- a/blocks/mmq/mmpq.h
+++ b/blocks/mmq/mmpq.h
@@ -135,7 +135,11 @@ class MMPQImpl {
     Entry(Entry&&) = default;
     Entry(message_t&& message_body, idxts_t index_timestamp)
         : index_timestamp(index_timestamp), message_body(std::move(message_body)) {}
-    bool operator<(const Entry& rhs) const { return index_timestamp.us < rhs.index_timestamp.us; }
+    // Entries of the same timestamp are told apart, and ordered, by their indexes.
+    bool operator<(const Entry& rhs) const {
+      return index_timestamp.us != rhs.index_timestamp.us ? index_timestamp.us < rhs.index_timestamp.us
+                                                          : index_timestamp.index < rhs.index_timestamp.index;
+    }
   };
 
   std::set<Entry> queue_;
-- 
2.43.0


From e227401dbb3f3b07090eee497605af14851bd4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 04/89] fix: WaitableAtomic: do not notify the destructor after
 it may have completed

---
 bricks/sync/waitable_atomic.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index 02bf49b..af4294b 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -340,8 +340,9 @@ class WaitableAtomicImpl {
       {
         std::lock_guard<std::mutex> guard(BasicImpl::data_mutex_);
         --ref_count_;
+        // Must notify from within the locked section: Once unlocked, this object may be destructed at any moment.
+        cv_.notify_one();
       }
-      cv_.notify_one();
     }
 
     virtual bool IsDestructing() const override {
-- 
2.43.0


From 9e89c31c7f4ad43564665e7bc8d5efcd8883355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:55 +0000
Subject: [PATCH 05/89] fix: WaitableAtomic: make UseAsLock() compile

---
 bricks/sync/waitable_atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/sync/waitable_atomic.h b/bricks/sync/waitable_atomic.h
index af4294b..632cd3c 100644
--- a/bricks/sync/waitable_atomic.h
+++ b/bricks/sync/waitable_atomic.h
@@ -187,7 +187,7 @@ class WaitableAtomicImpl {
     void Notify() { data_condition_variable_.notify_all(); }
 
     void UseAsLock(std::function<void()> f) const {
-      std::unique_lock<std::mutex> lock(data_t::data_mutex_);
+      std::unique_lock<std::mutex> lock(data_mutex_);
       f();
     }
 
-- 
2.43.0


From da247035e6f5cbc27856e69e4b09f6c4d655adf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 06/89] fix: Owned/Borrowed: do not notify the owner after its
 destructor may have completed

---
 bricks/sync/owned_borrowed.h | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 0c5efe0..c787778 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -127,15 +127,12 @@ struct UniqueInstance final {
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    bool notify = false;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      auto it = borrowers_.find(borrower_index);
-      CURRENT_ASSERT(it != borrowers_.end());
-      borrowers_.erase(it);
-      notify = borrowers_.empty();
-    }
-    if (notify) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    auto it = borrowers_.find(borrower_index);
+    CURRENT_ASSERT(it != borrowers_.end());
+    borrowers_.erase(it);
+    if (borrowers_.empty()) {
+      // Must notify from within the locked section: Once unlocked, this object may be destructed at any moment.
       condition_variable_.notify_one();
     }
   }
-- 
2.43.0


From 8303cf97b94b82079979b8633238147bde20fe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:59 +0000
Subject: [PATCH 07/89] fix: Borrowed: release what is being held when another
 borrower is move-assigned into it

---
 bricks/sync/owned_borrowed.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index c787778..3b016d7 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -401,7 +401,10 @@ class Borrowed final : public WeakBorrowed<T> {
   Borrowed(Borrowed&& rhs) : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   Borrowed& operator=(Borrowed&& rhs) {
-    base_t::MoveFrom(std::move(rhs), []() {});
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), []() {});
+    }
     return *this;
   }
 
@@ -449,7 +452,10 @@ class BorrowedOfGuaranteedLifetime final : public WeakBorrowed<T> {
       : base_t(impl::ConstructBorrowedObjectViaMoveConstructor(), std::move(rhs), []() {}) {}
 
   BorrowedOfGuaranteedLifetime& operator=(BorrowedOfGuaranteedLifetime&& rhs) {
-    base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    if (this != &rhs) {
+      base_t::InternalUnRegister();
+      base_t::MoveFrom(std::move(rhs), BorrowedOfGuaranteedLifetimeInvariantErrorCallback);
+    }
     return *this;
   }
 
-- 
2.43.0


From 55c4746a132f01858885d9debf5cc89d50adf15a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:20 +0000
Subject: [PATCH 08/89] fix: Owned/Borrowed: call each destruction callback
 exactly while its borrower is registered

---
 bricks/sync/owned_borrowed.h | 79 ++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 26 deletions(-)

diff --git a/bricks/sync/owned_borrowed.h b/bricks/sync/owned_borrowed.h
index 3b016d7..e0cd5ce 100644
--- a/bricks/sync/owned_borrowed.h
+++ b/bricks/sync/owned_borrowed.h
@@ -59,6 +59,7 @@ SOFTWARE.
 #include <map>
 #include <memory>
 #include <mutex>
+#include <thread>
 #include <vector>
 
 #include "../exception.h"
@@ -89,51 +90,71 @@ struct UniqueInstance final {
 
   // Destructor: Block until all the borrowers are done.
   ~UniqueInstance() {
+    std::unique_lock<std::mutex> lock(mutex_);
+
     // Mark the instance of the object as being destructed.
     destructing_ = true;
-
-    // Collect all the "destructing" callbacks to call.
-    std::vector<std::function<void()>> callbacks_to_call;
-    {
-      std::lock_guard<std::mutex> lock(mutex_);
-      for (const auto& cit : borrowers_) {
-        callbacks_to_call.push_back(cit.second);
+    destructing_thread_id_ = std::this_thread::get_id();
+
+    // Call all the "destructing" callbacks, each one from outside the locked section, and only while its borrower
+    // is registered, including the borrowers registered later on. Then wait until all the borrowers have terminated.
+    while (!borrowers_.empty()) {
+      auto it = borrowers_.begin();
+      while (it != borrowers_.end() && it->second.callback_called) {
+        ++it;
+      }
+      if (it != borrowers_.end()) {
+        it->second.callback_called = true;
+        callback_in_progress_ = it->first;
+        const std::function<void()> f = it->second.callback;
+        lock.unlock();
+        f();
+        lock.lock();
+        callback_in_progress_ = 0u;
+        condition_variable_.notify_all();
+      } else {
+        condition_variable_.wait(lock);
       }
-    }
-
-    // Call all the "destructing" callbacks.
-    for (auto& f : callbacks_to_call) {
-      f();
-    }
-
-    // Wait until all the borrowers have terminated.
-    {
-      std::unique_lock<std::mutex> lock(mutex_);
-      condition_variable_.wait(lock, [this]() { return borrowers_.empty(); });
     }
   }
 
   // Register ("increase the ref-count") a newly spawned borrower, along with its termination signal callback.
   // Must be called from within a mutex-locked section.
   size_t RegisterBorrowerFromLockedSection(std::function<void()> destruction_callback) {
-    borrowers_[++total_borrowers_spawned_throughout_lifetime_] = destruction_callback;
+    borrowers_[++total_borrowers_spawned_throughout_lifetime_].callback = destruction_callback;
+    condition_variable_.notify_all();
     return total_borrowers_spawned_throughout_lifetime_;
   }
 
-  void UpdateBorrowersCallbackFromLockedSection(size_t key, std::function<void()> destruction_callback) {
-    borrowers_[key] = destruction_callback;
+  void UpdateBorrowersCallbackFromLockedSection(std::unique_lock<std::mutex>& lock,
+                                                size_t key,
+                                                std::function<void()> destruction_callback) {
+    WaitForCallbackInProgress(lock, key);
+    Borrower& borrower = borrowers_[key];
+    borrower.callback = destruction_callback;
+    borrower.callback_called = false;
+    condition_variable_.notify_all();
   }
 
   // Unregister ("decrease the ref-count") a previously spawned borrower.
   // Locks its own mutex; must be called from outside a mutex-locked section.
   void UnRegisterBorrower(size_t borrower_index) {
-    std::lock_guard<std::mutex> lock(mutex_);
+    std::unique_lock<std::mutex> lock(mutex_);
+    WaitForCallbackInProgress(lock, borrower_index);
     auto it = borrowers_.find(borrower_index);
     CURRENT_ASSERT(it != borrowers_.end());
     borrowers_.erase(it);
     if (borrowers_.empty()) {
       // Must notify from within the locked section: Once unlocked, this object may be destructed at any moment.
-      condition_variable_.notify_one();
+      condition_variable_.notify_all();
+    }
+  }
+
+  // The callback of a borrower may refer to what is to be gone along with this borrower. If it is presently being called
+  // (and not from this very callback), let it complete.
+  void WaitForCallbackInProgress(std::unique_lock<std::mutex>& lock, size_t key) {
+    if (callback_in_progress_ == key && destructing_thread_id_ != std::this_thread::get_id()) {
+      condition_variable_.wait(lock, [this, key]() { return callback_in_progress_ != key; });
     }
   }
 
@@ -146,8 +167,14 @@ struct UniqueInstance final {
   T instance_;                                          // The actual instance.
   std::mutex mutex_;                                    // The mutex to guard per-borrower info.
   std::condition_variable condition_variable_;          // The variable to notify as all the borrowers are gone.
-  std::map<size_t, std::function<void()>> borrowers_;   // Map of live borrower -> termination signal callback.
+  struct Borrower {
+    std::function<void()> callback;  // The termination signal callback.
+    bool callback_called = false;    // Whether it has been called, or is being called.
+  };
+  std::map<size_t, Borrower> borrowers_;                // The live borrowers.
   size_t total_borrowers_spawned_throughout_lifetime_;  // A pre-increment of this value is the key in the above map.
+  std::thread::id destructing_thread_id_;               // The thread calling the callbacks, once `destructing_`.
+  size_t callback_in_progress_ = 0u;                    // The key of the borrower, the callback of which is being called.
 };
 
 }  // namespace impl
@@ -190,10 +217,10 @@ class WeakBorrowed {
   }
 
   void MoveFrom(WeakBorrowed&& rhs, std::function<void()> destruction_callback) {
-    std::lock_guard<std::mutex> lock(rhs.p_actual_instance_->mutex_);
+    std::unique_lock<std::mutex> lock(rhs.p_actual_instance_->mutex_);
     p_actual_instance_ = rhs.p_actual_instance_;
     key_ = rhs.key_;
-    p_actual_instance_->UpdateBorrowersCallbackFromLockedSection(key_, destruction_callback);
+    p_actual_instance_->UpdateBorrowersCallbackFromLockedSection(lock, key_, destruction_callback);
     rhs.key_ = 0u;  // Must mark the passed in xvalue of `WeakBorrowed<>` as abandoned.
     rhs.p_actual_instance_ = nullptr;
   }
-- 
2.43.0


From b3ad810db1cd05321d36b80497e463870cac39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 09/89] fix: a moved-from ScopeGuard no longer runs its action
 (again)

---
 bricks/util/make_scope_guard.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bricks/util/make_scope_guard.h b/bricks/util/make_scope_guard.h
index 8dad5f9..dd58ea4 100644
--- a/bricks/util/make_scope_guard.h
+++ b/bricks/util/make_scope_guard.h
@@ -38,13 +38,18 @@ std::unique_ptr<POINTER, DELETER> MakePointerScopeGuard(POINTER* x, DELETER t =
 template <typename F>
 class ScopeGuard final {
   F f_;
+  bool armed_ = true;
   ScopeGuard(const ScopeGuard&) = delete;
   void operator=(const ScopeGuard&) = delete;
 
  public:
   explicit ScopeGuard(F f) : f_(f) {}
-  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)) {}
-  ~ScopeGuard() { f_(); }
+  ScopeGuard(ScopeGuard&& other) : f_(std::forward<F>(other.f_)), armed_(other.armed_) { other.armed_ = false; }
+  ~ScopeGuard() {
+    if (armed_) {
+      f_();
+    }
+  }
 };
 
 template <typename F>
-- 
2.43.0


From 11489c8e6261525ee893e539a177b4cbb2051d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:00 +0000
Subject: [PATCH 10/89] fix: Future<void>::Go() rethrows the exception of the
 task, as Future<T>::Go() does

---
 bricks/util/future.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/util/future.h b/bricks/util/future.h
index 0132f1b..f0e80db 100644
--- a/bricks/util/future.h
+++ b/bricks/util/future.h
@@ -89,7 +89,7 @@ struct FutureImpl<void, STRICTNESS> {
 
   void Go() {
     used_ = true;
-    f_.wait();
+    f_.get();
   }
   void Wait() {
     used_ = true;
-- 
2.43.0


From dadbc199da9df34c94a316acaea95f286110c8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 11/89] fix: File persister: refuse raw records that span
 several lines

---
 blocks/persistence/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index f74387d..77a615f 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -475,7 +475,7 @@ class FilePersister {
 
     end_t iterator = file_persister_impl_->end_.load();
     const auto tab_pos = raw_log_line.find('\t');
-    if (tab_pos == std::string::npos) {
+    if (tab_pos == std::string::npos || raw_log_line.find('\n') != std::string::npos) {
       CURRENT_THROW(MalformedEntryException(raw_log_line));
     }
     const idxts_t idxts = ParseJSON<idxts_t>(raw_log_line.substr(0, tab_pos));
-- 
2.43.0


From 18d8b4e0084cb1eec608642629d2db966733aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:57 +0000
Subject: [PATCH 12/89] fix: File persister: refuse to start on a file that can
 not be opened for writing

---
 blocks/persistence/file.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 77a615f..76dfc0f 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -177,7 +177,7 @@ class FilePersister {
           publish_mutex_ref_(publish_mutex_ref),
           head_offset_(0) {
       ValidateFileAndInitializeHead(namespace_name);
-      if (file_appender_.bad() || head_rewriter_.bad()) {
+      if (!file_appender_.good() || !head_rewriter_.good()) {
         CURRENT_THROW(PersistenceFileNotWritable(filename));
       }
     }
-- 
2.43.0


From 305dda1130647defbe4ceab6b29f48e3372a02c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 13/89] fix: File persister: refuse a file whose last line is
 incomplete instead of appending to that line

---
 blocks/persistence/file.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 76dfc0f..4000c70 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -193,6 +193,7 @@ class FilePersister {
         const std::streampos offset_zero(0);
         auto current_offset = offset_zero;
         auto head = std::chrono::microseconds(-1);
+        bool last_line_is_complete = true;
         reflection::StructSchema struct_schema;
         struct_schema.AddType<ENTRY>();
         const auto signature = JSON(ss::StreamSignature(namespace_name, struct_schema.GetSchemaInfo()));
@@ -203,6 +204,7 @@ class FilePersister {
               if (!(current.us > head)) {
                 CURRENT_THROW(ss::InconsistentTimestampException(head + std::chrono::microseconds(1), current.us));
               }
+              last_line_is_complete = !fi.eof();
               record_offset_.push_back(current_offset);
               record_timestamp_.push_back(current.us);
               current_offset = fi.tellg();
@@ -212,6 +214,7 @@ class FilePersister {
             [&](const std::string& value) {
               static const auto head_key_length = strlen(constants::kHeadDirective);
               static const auto signature_key_length = strlen(constants::kSignatureDirective);
+              last_line_is_complete = !fi.eof();
               head_offset_ = 0;
               if (!value.compare(0, head_key_length, constants::kHeadDirective)) {
                 auto offset = head_key_length;
@@ -241,6 +244,11 @@ class FilePersister {
             })) {
           ;
         }
+        // Each line is written along with its newline. If the last one has none, it was not written in its entirety,
+        // so that it can neither be trusted, nor can anything be appended after it.
+        if (!last_line_is_complete) {
+          CURRENT_THROW(MalformedEntryException("Incomplete last line in `" + filename_ + "`."));
+        }
         const auto& next = cit.Next();
         // The `next.us` stores the closest possible next entry timestamp,
         // so the last processed entry timestamp is always 1us less.
-- 
2.43.0


From 7839e8a8621b0ae69527560999c72d71c57a8b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:02 +0000
Subject: [PATCH 14/89] fix: File persister: do not acknowledge what could not
 be written

---
 blocks/persistence/file.h | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 4000c70..b30d595 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -182,6 +182,21 @@ class FilePersister {
       }
     }
 
+    // Do not acknowledge an entry that could not be written. All further attempts to append will fail as well.
+    void ThrowIfLastRecordNotWritten() {
+      if (!file_appender_.good()) {
+        record_offset_.pop_back();
+        record_timestamp_.pop_back();
+        ThrowNotWritable();
+      }
+    }
+
+    // Close the file, so that what is left in its buffer is not appended to it at some later point.
+    void ThrowNotWritable() {
+      file_appender_.close();
+      CURRENT_THROW(PersistenceFileNotWritable(filename_));
+    }
+
     // Replay the file but ignore its contents. Used to initialize `end_` at startup.
     void ValidateFileAndInitializeHead(const ss::StreamNamespaceName& namespace_name) {
       std::ifstream fi(filename_);
@@ -470,6 +485,7 @@ class FilePersister {
                                          << JSON(MakeSureTheRightTypeIsSerialized<ENTRY, decay_t<E>>::DoIt(
                                                 std::forward<E>(entry)))
                                          << std::endl;
+    file_persister_impl_->ThrowIfLastRecordNotWritten();
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -501,6 +517,7 @@ class FilePersister {
     file_persister_impl_->record_timestamp_.push_back(idxts.us);
 
     file_persister_impl_->file_appender_ << raw_log_line << std::endl;
+    file_persister_impl_->ThrowIfLastRecordNotWritten();
     ++iterator.next_index;
     file_persister_impl_->head_offset_ = 0;
     file_persister_impl_->end_.store(iterator);
@@ -523,11 +540,18 @@ class FilePersister {
       auto& rewriter = file_persister_impl_->head_rewriter_;
       rewriter.seekp(file_persister_impl_->head_offset_, std::ios_base::beg);
       rewriter << head_str << std::endl;
+      if (!rewriter.good()) {
+        file_persister_impl_->ThrowNotWritable();
+      }
     } else {
       auto& file_appender_ = file_persister_impl_->file_appender_;
       file_appender_ << constants::kHeadDirective << ' ';
-      file_persister_impl_->head_offset_ = file_appender_.tellp();
+      const std::streampos head_offset = file_appender_.tellp();
       file_appender_ << head_str << std::endl;
+      if (!file_appender_.good()) {
+        file_persister_impl_->ThrowNotWritable();
+      }
+      file_persister_impl_->head_offset_ = head_offset;
     }
     file_persister_impl_->end_.store(iterator);
   }
-- 
2.43.0


From 6bf7d282237c78bcbbf84231d5e4802492933c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 15/89] fix: File persister: raw iterators do not access the
 offsets that publishers are appending to

---
 blocks/persistence/file.h | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index b30d595..215b33f 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -368,8 +368,8 @@ class FilePersister {
                    const std::string& filename,
                    uint64_t i,
                    std::streampos offset,
-                   uint64_t)
-        : file_persister_impl_(std::move(file_persister_impl)), i_(i), current_offset_(offset) {
+                   uint64_t index_at_offset)
+        : file_persister_impl_(std::move(file_persister_impl)), i_(i), next_index_(index_at_offset) {
       if (!filename.empty()) {
         fi_ = std::make_unique<std::ifstream>(filename);
         CURRENT_ASSERT(!fi_->bad());
@@ -383,17 +383,14 @@ class FilePersister {
     // The range-based for-loop works fine. -- D.K.
     std::string operator*() const {
       if (current_entry_.empty()) {
-        const auto offset = file_persister_impl_->record_offset_[static_cast<size_t>(i_)];
-        if (offset != current_offset_) {
-          fi_->seekg(offset, std::ios_base::beg);
-          current_offset_ = offset;
-        }
-        if (std::getline(*fi_, current_entry_)) {
-          CURRENT_ASSERT(current_entry_[0] != constants::kDirectiveMarker);
-        } else {
-          // End of file. Should never happen as long as the user only iterates over valid ranges.
-          CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
-        }
+        // Read on, from the line last read, up to and including the line of the entry `i_`.
+        // Can not use `record_offset_` here, as more entries may well be being published at the same time.
+        do {
+          if (!std::getline(*fi_, current_entry_)) {
+            // End of file. Should never happen as long as the user only iterates over valid ranges.
+            CURRENT_THROW(current::Exception());  // LCOV_EXCL_LINE
+          }
+        } while (current_entry_[0] == constants::kDirectiveMarker || next_index_++ != i_);
       }
       return current_entry_;
     }
@@ -413,7 +410,7 @@ class FilePersister {
     std::unique_ptr<std::ifstream> fi_;
     uint64_t i_;
     mutable std::string current_entry_;
-    mutable std::streampos current_offset_;
+    mutable uint64_t next_index_;  // The index of the first entry `fi_` has not been read through yet.
   };
 
   template <typename ITERATOR>
-- 
2.43.0


From ce602f0283b9f1be9badba048759e4bf7730f4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:04 +0000
Subject: [PATCH 16/89] fix: Persisters: time-bounded iteration never goes past
 its upper bound while more entries are being published

---
 blocks/persistence/file.h   | 8 ++++++--
 blocks/persistence/memory.h | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/blocks/persistence/file.h b/blocks/persistence/file.h
index 215b33f..12e3ba0 100644
--- a/blocks/persistence/file.h
+++ b/blocks/persistence/file.h
@@ -31,6 +31,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_FILE_H
 #define BLOCKS_PERSISTENCE_FILE_H
 
+#include <algorithm>
 #include <atomic>
 #include <fstream>
 #include <functional>
@@ -672,9 +673,12 @@ class FilePersister {
       CURRENT_THROW(InvalidIterableRangeException());
     }
 
+    // Only consider the entries published so far: what is being published during this call may well be past `till`.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    const uint64_t end_index = std::min(index_range.second, size);
+    if (index_range.first < end_index) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, end_index);
     } else {  // No entries found in the requested range.
       return ITERABLE(file_persister_impl_, 0, 0, 0);
     }
diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index a7c45fa..5d8093d 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -37,6 +37,7 @@ SOFTWARE.
 #ifndef BLOCKS_PERSISTENCE_MEMORY_H
 #define BLOCKS_PERSISTENCE_MEMORY_H
 
+#include <algorithm>
 #include <deque>
 #include <functional>
 #include <mutex>
@@ -322,9 +323,12 @@ class MemoryPersister {
     if (till.count() > 0 && till < from) {
       CURRENT_THROW(InvalidIterableRangeException());
     }
+    // Only consider the entries published so far: what is being published during this call may well be past `till`.
+    const uint64_t size = PersisterSizeImpl<MLS>();
     const auto index_range = PersisterIndexRangeByTimestampRangeImpl<MLS>(from, till);
-    if (index_range.first != static_cast<uint64_t>(-1)) {
-      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, index_range.second);
+    const uint64_t end_index = std::min(index_range.second, size);
+    if (index_range.first < end_index) {
+      return PersisterIterateImpl<MLS, ITERABLE>(index_range.first, end_index);
     } else {  // No entries found in the given range.
       return ITERABLE(container_, 0, 0);
     }
-- 
2.43.0


From 7d817dd2ddf967fd603c63136aa7a6de2c878327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:18 +0000
Subject: [PATCH 17/89] fix: Memory persister: always lock its own mutex, which
 is not the publishing mutex of the stream

---
 blocks/persistence/memory.h | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/blocks/persistence/memory.h b/blocks/persistence/memory.h
index 5d8093d..dfaf4b6 100644
--- a/blocks/persistence/memory.h
+++ b/blocks/persistence/memory.h
@@ -68,6 +68,8 @@ class MemoryPersister {
 
     explicit Container(std::mutex& unused_publish_mutex_ref) {
       static_cast<void>(unused_publish_mutex_ref);  // `MemoryPersister` is not mutex-efficient. -- D.K.
+      // The `MutexLockStatus` parameters below are about the publish mutex. As it's not the one guarding this container,
+      // the mutex of the container is to be locked regardless.
     }
   };
 
@@ -154,7 +156,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename E, typename TIMESTAMP>
   idxts_t PersisterPublishImpl(E&& entry, const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     if (!(timestamp > head)) {
@@ -169,7 +171,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterPublishUnsafeImpl(const std::string& raw_log_line) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     const auto head = container_->head_;
     const auto tab_pos = raw_log_line.find('\t');
     if (tab_pos == std::string::npos) {
@@ -191,7 +193,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS, typename TIMESTAMP>
   void PersisterUpdateHeadImpl(const TIMESTAMP user_timestamp) {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
 
     const auto timestamp = current::time::TimestampAsMicroseconds(user_timestamp);
     const auto head = container_->head_;
@@ -203,19 +205,19 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   bool PersisterEmptyImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->entries_.empty();
   }
 
   template <current::locks::MutexLockStatus MLS>
   uint64_t PersisterSizeImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return static_cast<uint64_t>(container_->entries_.size());
   }
 
   template <current::locks::MutexLockStatus MLS>
   idxts_t PersisterLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return idxts_t(container_->entries_.size() - 1, container_->entries_.back().first);
@@ -226,7 +228,7 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   head_optidxts_t PersisterHeadAndLastPublishedIndexAndTimestampImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     if (!container_->entries_.empty()) {
       CURRENT_ASSERT(container_->head_ >= container_->entries_.back().first);
       return head_optidxts_t(container_->head_, container_->entries_.size() - 1, container_->entries_.back().first);
@@ -237,14 +239,14 @@ class MemoryPersister {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds PersisterCurrentHeadImpl() const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     return container_->head_;
   }
 
   template <current::locks::MutexLockStatus MLS>
   std::pair<uint64_t, uint64_t> PersisterIndexRangeByTimestampRangeImpl(std::chrono::microseconds from,
                                                                         std::chrono::microseconds till) const {
-    current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+    std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
     std::pair<uint64_t, uint64_t> result{static_cast<uint64_t>(-1), static_cast<uint64_t>(-1)};
     const auto begin_it =
         std::lower_bound(container_->entries_.begin(),
@@ -294,7 +296,7 @@ class MemoryPersister {
   template <current::locks::MutexLockStatus MLS, typename ITERABLE>
   ITERABLE PersisterIterateImpl(uint64_t begin, uint64_t end) const {
     const uint64_t size = [this]() {
-      current::locks::SmartMutexLockGuard<MLS> lock(container_->memory_persister_container_mutex_);
+      std::lock_guard<std::mutex> lock(container_->memory_persister_container_mutex_);
       return static_cast<uint64_t>(container_->entries_.size());
     }();
 
-- 
2.43.0


From c638669c4187b600d4a9cf0c8c87219e7b8cb231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:32 +0000
Subject: [PATCH 18/89] fix: Stream: do not hold the publishing mutex while
 waiting for borrowed publishers to be released

---
 stream/stream.h | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/stream/stream.h b/stream/stream.h
index 28d241f..7834b76 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -146,6 +146,9 @@ class Stream final {
   // The unique instance of stream data and associated logic (mutexes, HTTP subscribers list, etc.)
   Owned<impl_t> impl_;
 
+  // The mutex to recreate the publisher at most once at a time. Is locked before `impl_->publishing_mutex`.
+  std::mutex recreate_publisher_mutex_;
+
   // The unique instance of the publisher. Can be recreated to notify all presently borrowed publishers
   // and wait until all of them are released.
   Optional<Owned<publisher_t>> owned_publisher_;
@@ -196,6 +199,20 @@ class Stream final {
         owned_publisher_(MakeOwned<publisher_t>(impl_)),
         borrowable_publisher_(Value(owned_publisher_)) {}
 
+  // `RetirePublisher` takes the publisher away, and waits for its borrowers to release it. It does so with the publishing
+  // mutex unlocked, as the borrowers may well be in the process of publishing, and thus need this mutex to proceed.
+  // No-op if the publishing mutex is locked by the caller.
+  template <current::locks::MutexLockStatus MLS>
+  void RetirePublisher() {
+    if (MLS == current::locks::MutexLockStatus::NeedToLock) {
+      Optional<Owned<publisher_t>> retired_publisher;
+      std::lock_guard<std::mutex> lock(impl_->publishing_mutex);
+      borrowable_publisher_ = nullptr;
+      retired_publisher = std::move(owned_publisher_);
+      owned_publisher_ = nullptr;
+    }
+  }
+
   // `RecreatePublisher` invalidates all external publishers to this stream and creates a fresh new publisher,
   // which then can be stored in the stream (Master mode) or given out of it (Following mode).
   // NOTE: The call to `RecreatePublisher` will wait indefinitely if external publishers are not giving up.
@@ -248,6 +265,8 @@ class Stream final {
   // NOTE: The call to `BecomeMasterStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   void BecomeMasterStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_lock(recreate_publisher_mutex_);
+    RetirePublisher<MLS>();
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
     borrowable_publisher_ = RecreatePublisher();
   }
@@ -259,6 +278,8 @@ class Stream final {
   // NOTE: The call to `BecomeFollowingStream` will wait indefinitely if external publishers are not giving up.
   template <current::locks::MutexLockStatus MLS = current::locks::MutexLockStatus::NeedToLock>
   Borrowed<publisher_t> BecomeFollowingStream() {
+    current::locks::SmartMutexLockGuard<MLS> recreate_lock(recreate_publisher_mutex_);
+    RetirePublisher<MLS>();
     current::locks::SmartMutexLockGuard<MLS> lock(impl_->publishing_mutex);
     return RecreatePublisher();
   }
-- 
2.43.0


From 29e8a6ff6f4b34af178e2eeb65a2f732d5327dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:02 +0000
Subject: [PATCH 19/89] fix: RipCurrent: order concurrent emits, so that their
 timestamps and head updates never go backwards

---
 ripcurrent/ripcurrent.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/ripcurrent/ripcurrent.h b/ripcurrent/ripcurrent.h
index ab60867..311ae1d 100644
--- a/ripcurrent/ripcurrent.h
+++ b/ripcurrent/ripcurrent.h
@@ -226,6 +226,7 @@ class SharedDefinition<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>> {
 class GenericBlockOutgoingInterface {
  public:
   virtual ~GenericBlockOutgoingInterface() = default;
+  virtual void OnThreadUnsafeEmitted(movable_message_t&&) = 0;  // With the timestamp of "now".
   virtual void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeScheduled(movable_message_t&&, std::chrono::microseconds) = 0;
   virtual void OnThreadUnsafeHeadUpdated(std::chrono::microseconds) = 0;
@@ -241,6 +242,10 @@ class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<TYPES...>> : public Gener
 template <>
 class BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<>> : public GenericBlockOutgoingInterface {
  public:
+  void OnThreadUnsafeEmitted(movable_message_t&&) override {
+    std::cerr << "Not expecting any entries from a non-emitting block.\n";
+    CURRENT_ASSERT(false);
+  }
   void OnThreadUnsafeEmitted(movable_message_t&&, std::chrono::microseconds) override {
     std::cerr << "Not expecting any entries from a non-emitting block.\n";
     CURRENT_ASSERT(false);
@@ -492,8 +497,7 @@ class CallsGeneratingBlock<EmittableTypes<EMITTED_TYPES...>> : public GenericCal
   template <typename T, typename... ARGS>
   std::enable_if_t<TypeListContains<TypeListImpl<EMITTED_TYPES...>, T>::value> emit(ARGS&&... args) const {
     // A seemingly unnecessary `release()` is due to `std::make_unique()` not supporting a custom deleter. -- D.K
-    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()),
-                                    time::Now());
+    handler_->OnThreadUnsafeEmitted(movable_message_t(std::make_unique<T>(std::forward<ARGS>(args)...).release()));
   }
 
   template <typename T, typename... ARGS>
@@ -712,6 +716,13 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         waitable_counters_.Wait([](const ThreadMessageCounters& counters) { return counters.ProcessedEverything(); });
       }
 
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override {
+        // Get the timestamp from within the locked section, for the timestamps of the messages
+        // emitted from different threads to be increasing.
+        std::lock_guard<std::mutex> lock(emit_mutex_);
+        OnThreadUnsafeEmitted(std::move(x), time::Now());
+      }
+
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         waitable_counters_.MutableUse([](ThreadMessageCounters& p) { p.ReportPublishCalled(); });
         try {
@@ -775,6 +786,7 @@ class SharedSequenceImpl<LHSTypes<LHS_TYPES...>, RHSTypes<RHS_TYPES...>, VIAType
         std::shared_ptr<BlockIncomingInterface<ThreadSafeIncomingTypes<VIA_X, VIA_XS...>>> next_;
       };
 
+      std::mutex emit_mutex_;
       WaitableAtomic<ThreadMessageCounters> waitable_counters_;
       current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t> single_threaded_processor_;
       mmq::MMPQ<movable_message_t, current::ss::EntrySubscriber<SingleThreadedProcessorImpl, movable_message_t>> mmpq_;
@@ -896,6 +908,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextA : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<A_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextA(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
@@ -907,6 +920,7 @@ class SharedParallelImpl<LHSTypes<AB_LHS...>,
     struct PassOnToNextB : BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<B_RHS...>> {
       std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next;
       PassOnToNextB(std::shared_ptr<BlockOutgoingInterface<ThreadUnsafeOutgoingTypes<AB_RHS...>>> next) : next(next) {}
+      void OnThreadUnsafeEmitted(movable_message_t&& x) override { next->OnThreadUnsafeEmitted(std::move(x)); }
       void OnThreadUnsafeEmitted(movable_message_t&& x, std::chrono::microseconds t) override {
         next->OnThreadUnsafeEmitted(std::move(x), t);
       }
-- 
2.43.0


From d5f976fceed530af69aefb2683f17563b31bd7f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 20/89] fix: Storage: read the last applied timestamp under the
 mutex it is updated under

---
 storage/persister/stream.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 595a50d..03e9ac6 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -113,7 +113,8 @@ class StreamStreamPersisterImpl final {
 
   template <current::locks::MutexLockStatus MLS>
   std::chrono::microseconds LastAppliedTimestampPersister() const {
-    locks::SmartMutexLockGuard<MLS> master_follower_change_lock(master_follower_change_mutex_);
+    // The mutex to lock is the one under which `last_applied_timestamp_` is updated.
+    locks::SmartMutexLockGuard<MLS> lock(stream_publishing_mutex_ref_);
     return last_applied_timestamp_;
   }
 
-- 
2.43.0


From a0af240c90b7393d0b5c071ef515b2482aa1f55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:09 +0000
Subject: [PATCH 21/89] fix: Storage: do not hold the publishing mutex while
 waiting for the publisher when becoming master

---
 storage/persister/stream.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/storage/persister/stream.h b/storage/persister/stream.h
index 03e9ac6..8ad3c5a 100644
--- a/storage/persister/stream.h
+++ b/storage/persister/stream.h
@@ -165,9 +165,11 @@ class StreamStreamPersisterImpl final {
       CURRENT_THROW(StorageIsAlreadyMasterException());
     } else {
       TerminateStreamSubscriptionFromLockedSection();
+      // The publisher should be acquired with the publishing mutex unlocked, as this waits for the present borrowers
+      // of the publisher, which may need this mutex to complete publishing.
+      auto publisher = stream_->BecomeFollowingStream();
       std::lock_guard<std::mutex> lock(stream_publishing_mutex_ref_);
-      publisher_used_ = nullptr;
-      publisher_used_ = stream_->template BecomeFollowingStream<current::locks::MutexLockStatus::AlreadyLocked>();
+      publisher_used_ = std::move(publisher);
       const uint64_t save_replay_index = subscriber_instance_->next_replay_index_;
       subscriber_instance_ = nullptr;
       SyncReplayStreamFromLockedSectionOrConstructor(save_replay_index);
-- 
2.43.0


From 7c80f547018b58909d2f7aee822030fc6ed6a8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 22/89] fix: JSON: parse floating point numbers in full
 precision, so that they round-trip

---
 typesystem/serialization/json/json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 1744108..62d6900 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -242,7 +242,8 @@ template <class JSON_FORMAT>
 class JSONParser final {
  public:
   explicit JSONParser(const char* json) {
-    if (document_.Parse(json).HasParseError()) {
+    // Without this flag floating point numbers may be off in their least significant bits.
+    if (document_.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
       CURRENT_THROW(InvalidJSONException(json));
     }
     current_ = &document_;
-- 
2.43.0


From 079e95a69ade8ecf6dc89f819949d256429c8c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 23/89] fix: JSON: respect the format in the two-argument
 ParseJSON of an std::string or Chunk

---
 typesystem/serialization/json/json.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 62d6900..c1fafaa 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -354,12 +354,12 @@ inline void ParseJSON(const char* source, T& destination) {
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const std::string& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const strings::Chunk& source, T& destination) {
-  ParseJSON(source.c_str(), destination);
+  ParseJSON<T, J>(source.c_str(), destination);
 }
 
 template <typename T, class J = JSONFormat::Current>
-- 
2.43.0


From 7c749615e88bdb46c31f50932a9fb328e30c2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:25 +0000
Subject: [PATCH 24/89] fix: JSON: PatchObjectWithJSON leaves the maps, sets,
 and variants that are not mentioned in the patch intact

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/set.h           | 2 +-
 typesystem/serialization/json/unordered_map.h | 4 ++--
 typesystem/serialization/json/unordered_set.h | 2 +-
 typesystem/serialization/json/variant.h       | 4 +++-
 5 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 3713bc6..0099522 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -82,7 +82,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -106,7 +106,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/set.h b/typesystem/serialization/json/set.h
index bf28d6e..a672306 100644
--- a/typesystem/serialization/json/set.h
+++ b/typesystem/serialization/json/set.h
@@ -50,8 +50,8 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, std::set<T, EQ, ALLOCAT
 template <class JSON_FORMAT, typename T, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::set<T, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::set<T, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index 1017f32..d89461a 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -84,7 +84,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsObject())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsObject())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as object", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -110,7 +110,7 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
         json_parser.Inner(&(*cit)[static_cast<rapidjson::SizeType>(1)], v);
         destination.emplace(std::move(k), std::move(v));
       }
-    } else if (!json::JSONPatchMode<J>::value || (json_parser && !json_parser.Current().IsArray())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsArray())) {
       CURRENT_THROW(JSONSchemaException("[unordered_]map as array", json_parser));  // LCOV_EXCL_LINE
     }
   }
diff --git a/typesystem/serialization/json/unordered_set.h b/typesystem/serialization/json/unordered_set.h
index 36d5798..4e469f4 100644
--- a/typesystem/serialization/json/unordered_set.h
+++ b/typesystem/serialization/json/unordered_set.h
@@ -51,8 +51,8 @@ template <class JSON_FORMAT, typename T, class HASH, class EQ, class ALLOCATOR>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_set<T, HASH, EQ, ALLOCATOR>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser,
                             std::unordered_set<T, HASH, EQ, ALLOCATOR>& destination) {
-    destination.clear();
     if (json_parser && json_parser.Current().IsArray()) {
+      destination.clear();
       const size_t size = json_parser.Current().Size();
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(size); ++i) {
         T element;
diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index 17eedcb..398a657 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -420,7 +420,9 @@ template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<IS_CURRENT_VARIANT(T)>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& value) {
     if (!json_parser || json_parser.Current().IsNull()) {
-      if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value) {
+      // A missing field is to be left intact in `PatchObjectWithJSON`.
+      if (json::JSONVariantStyleUseNulls<JSON_FORMAT::variant_style>::value &&
+          (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser)) {
         CURRENT_THROW(JSONUninitializedVariantObjectException());
       }
     } else {
-- 
2.43.0


From 937c092640ddf69d55efc40cf1eb487e2140ab50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 25/89] fix: JSON: reject the integers out of range of the type
 they are parsed into

---
 typesystem/serialization/json/enum.h       |  4 ++--
 typesystem/serialization/json/primitives.h | 21 +++++++++++++++++----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/typesystem/serialization/json/enum.h b/typesystem/serialization/json/enum.h
index c4cf16a..5e391d0 100644
--- a/typesystem/serialization/json/enum.h
+++ b/typesystem/serialization/json/enum.h
@@ -45,13 +45,13 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, T, std::enable_if_t<std::i
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
     if (json_parser && json_parser.Current().IsNumber()) {
       if (std::numeric_limits<typename std::underlying_type<T>::type>::is_signed) {
-        if (json_parser.Current().IsInt64()) {
+        if (json::IsIntegerWithinRange<typename std::underlying_type<T>::type>(json_parser.Current())) {
           destination = static_cast<T>(json_parser.Current().GetInt64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as unsigned integer", json_parser));  // LCOV_EXCL_LINE
         }
       } else {
-        if (json_parser.Current().IsUint64()) {
+        if (json::IsIntegerWithinRange<typename std::underlying_type<T>::type>(json_parser.Current())) {
           destination = static_cast<T>(json_parser.Current().GetUint64());
         } else {
           CURRENT_THROW(JSONSchemaException("enum as signed integer", json_parser));  // LCOV_EXCL_LINE
diff --git a/typesystem/serialization/json/primitives.h b/typesystem/serialization/json/primitives.h
index c333303..0b5d12d 100644
--- a/typesystem/serialization/json/primitives.h
+++ b/typesystem/serialization/json/primitives.h
@@ -74,6 +74,19 @@ struct JSONValueAssignerImpl<std::chrono::milliseconds> {
 #include "../../primitive_types.dsl.h"
 #undef CURRENT_DECLARE_PRIMITIVE_TYPE
 
+namespace json {
+// Whether the JSON value is an integer that can be represented by the type `T`.
+template <typename T>
+inline bool IsIntegerWithinRange(const rapidjson::Value& value) {
+  if (std::numeric_limits<T>::is_signed) {
+    return value.IsInt64() && value.GetInt64() >= static_cast<int64_t>(std::numeric_limits<T>::min()) &&
+           value.GetInt64() <= static_cast<int64_t>(std::numeric_limits<T>::max());
+  } else {
+    return value.IsUint64() && value.GetUint64() <= static_cast<uint64_t>(std::numeric_limits<T>::max());
+  }
+}
+}  // namespace json
+
 // Parse `uint*_t`.
 template <class JSON_FORMAT, typename T>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
@@ -81,9 +94,9 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && !std::numeric_limits<T>::is_signed &&
                                         !std::is_same_v<T, bool>>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsUint64()) {
+    if (json_parser && json::IsIntegerWithinRange<T>(json_parser.Current())) {
       destination = static_cast<T>(json_parser.Current().GetUint64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsUint64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("unsigned integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
@@ -95,9 +108,9 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
                        T,
                        std::enable_if_t<std::numeric_limits<T>::is_integer && std::numeric_limits<T>::is_signed>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, T& destination) {
-    if (json_parser && json_parser.Current().IsInt64()) {
+    if (json_parser && json::IsIntegerWithinRange<T>(json_parser.Current())) {
       destination = static_cast<T>(json_parser.Current().GetInt64());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !json_parser.Current().IsInt64())) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("integer", json_parser));  // LCOV_EXCL_LINE
     }
   }
-- 
2.43.0


From d338311b09e24d5f8bc2f9342e311788d860d445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 26/89] fix: JSON: reject the numbers out of range of `float`
 when parsing into it

---
 typesystem/serialization/json/primitives.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/typesystem/serialization/json/primitives.h b/typesystem/serialization/json/primitives.h
index 0b5d12d..bd77397 100644
--- a/typesystem/serialization/json/primitives.h
+++ b/typesystem/serialization/json/primitives.h
@@ -120,9 +120,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>,
 template <class JSON_FORMAT>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, float> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, float& destination) {
-    if (json_parser && json_parser.Current().IsNumber()) {
+    if (json_parser && json_parser.Current().IsNumber() &&
+        json_parser.Current().GetDouble() >= std::numeric_limits<float>::lowest() &&
+        json_parser.Current().GetDouble() <= std::numeric_limits<float>::max()) {
       destination = static_cast<float>(json_parser.Current().GetDouble());
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || (json_parser && !(json_parser.Current().IsNumber()))) {
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("float", json_parser));  // LCOV_EXCL_LINE
     }
   }
-- 
2.43.0


From fc23a22ec5581223bd4ad22a668a41c8f1a6b6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 27/89] fix: JSON: reject the arrays of a wrong size when
 parsing into `std::array`

---
 typesystem/serialization/json/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typesystem/serialization/json/array.h b/typesystem/serialization/json/array.h
index 57e54e3..be8d6e8 100644
--- a/typesystem/serialization/json/array.h
+++ b/typesystem/serialization/json/array.h
@@ -48,6 +48,9 @@ template <class JSON_FORMAT, typename T, size_t N>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::array<T, N>> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, std::array<T, N>& destination) {
     if (json_parser && json_parser.Current().IsArray()) {
+      if (json_parser.Current().Size() != static_cast<rapidjson::SizeType>(N)) {
+        CURRENT_THROW(JSONSchemaException("array of " + current::ToString(N) + " element(s)", json_parser));
+      }
       for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(N); ++i) {
         json_parser.Inner(&json_parser.Current()[i], destination[i], "[", static_cast<int>(i), "]");
       }
-- 
2.43.0


From 53f8189d4aab051121e00ad2023fd7e1c7890992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 28/89] fix: JSON: reject malformed type IDs

---
 typesystem/serialization/json/typeid.h | 30 +++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/typesystem/serialization/json/typeid.h b/typesystem/serialization/json/typeid.h
index 10f2aa4..24f6bfb 100644
--- a/typesystem/serialization/json/typeid.h
+++ b/typesystem/serialization/json/typeid.h
@@ -45,14 +45,34 @@ struct SerializeImpl<json::JSONStringifier<JSON_FORMAT>, reflection::TypeID> {
 template <class JSON_FORMAT>
 struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, reflection::TypeID> {
   static void DoDeserialize(json::JSONParser<JSON_FORMAT>& json_parser, reflection::TypeID& destination) {
-    if (json_parser && json_parser.Current().IsString() && *json_parser.Current().GetString() == 'T') {
-      destination =
-          static_cast<reflection::TypeID>(current::FromString<uint64_t>(json_parser.Current().GetString() + 1));
-    } else if (!json::JSONPatchMode<JSON_FORMAT>::value ||
-               (json_parser && !(json_parser.Current().IsString() && *json_parser.Current().GetString() == 'T'))) {
+    uint64_t type_id;
+    if (json_parser && ParseTypeID(json_parser.Current(), type_id)) {
+      destination = static_cast<reflection::TypeID>(type_id);
+    } else if (!json::JSONPatchMode<JSON_FORMAT>::value || json_parser) {
       CURRENT_THROW(JSONSchemaException("TypeID", json_parser));  // LCOV_EXCL_LINE
     }
   }
+
+ private:
+  // The valid type ID is `T` followed by the decimal digits of a 64-bit unsigned integer, and by nothing else.
+  static bool ParseTypeID(const rapidjson::Value& value, uint64_t& type_id) {
+    if (!value.IsString() || value.GetStringLength() < 2u || *value.GetString() != 'T') {
+      return false;
+    }
+    type_id = 0u;
+    for (rapidjson::SizeType i = 1u; i < value.GetStringLength(); ++i) {
+      const char c = value.GetString()[i];
+      if (!(c >= '0' && c <= '9')) {
+        return false;
+      }
+      const uint64_t digit = static_cast<uint64_t>(c - '0');
+      if (type_id > (std::numeric_limits<uint64_t>::max() - digit) / 10u) {
+        return false;
+      }
+      type_id = type_id * 10u + digit;
+    }
+    return true;
+  }
 };
 
 namespace json {
-- 
2.43.0


From 32e9ce6a735f12793737b8f11272602bcfb47d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 29/89] fix: JSON: do not ignore what follows a zero byte in
 the JSON, or in a variant case name

---
 typesystem/serialization/json/json.h    | 14 ++++++++++++++
 typesystem/serialization/json/variant.h |  2 +-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index c1fafaa..8320887 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -352,8 +352,17 @@ inline void ParseJSON(const char* source, T& destination) {
   }
 }
 
+// The parser takes its input as a zero-terminated string, while a zero byte can not be part of a valid JSON.
+// Without this check the text following the zero byte would be ignored.
+inline void ThrowIfContainsZeroBytes(const std::string& json) {
+  if (json.find('\0') != std::string::npos) {
+    CURRENT_THROW(InvalidJSONException(json));
+  }
+}
+
 template <typename T, class J = JSONFormat::Current>
 inline void ParseJSON(const std::string& source, T& destination) {
+  ThrowIfContainsZeroBytes(source);
   ParseJSON<T, J>(source.c_str(), destination);
 }
 
@@ -375,6 +384,7 @@ inline void PatchObjectWithJSON(T& object, const char* json) {
 
 template <typename T, class J = JSONFormat::Current>
 inline void PatchObjectWithJSON(T& object, const std::string& json) {
+  ThrowIfContainsZeroBytes(json);
   PatchObjectWithJSON<T, J>(object, json.c_str());
 }
 
@@ -392,6 +402,7 @@ inline T ParseJSON(const char* source) {
 
 template <typename T, class J = JSONFormat::Current>
 inline T ParseJSON(const std::string& source) {
+  ThrowIfContainsZeroBytes(source);
   return ParseJSON<T, J>(source.c_str());
 }
 
@@ -413,6 +424,9 @@ inline Optional<T> TryParseJSON(const char* source) {
 
 template <typename T, class J = JSONFormat::Current>
 inline Optional<T> TryParseJSON(const std::string& source) {
+  if (source.find('\0') != std::string::npos) {
+    return nullptr;
+  }
   return TryParseJSON<T, J>(source.c_str());
 }
 
diff --git a/typesystem/serialization/json/variant.h b/typesystem/serialization/json/variant.h
index 398a657..a2600db 100644
--- a/typesystem/serialization/json/variant.h
+++ b/typesystem/serialization/json/variant.h
@@ -312,7 +312,7 @@ class JSONVariantPerStyle<JSONVariantStyle::Simple, JSON_FORMAT, VARIANT> {
             // Should never happen, just a sanity check. -- D.K.
             CURRENT_THROW(JSONSchemaException("key name as string", json_parser));  // LCOV_EXCL_LINE
           }
-          const std::string key = cit->name.GetString();
+          const std::string key(cit->name.GetString(), cit->name.GetStringLength());
           // Skip keys "" and "$" for "backwards" compatibility with the "Current" format.
           if (!key.empty() && key != "$") {
             if (!value) {
-- 
2.43.0


From 7629c8b5b5c7a98013cb96baf373d6b5e2010d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:07 +0000
Subject: [PATCH 30/89] fix: JSON: limit the nesting depth of the JSON being
 parsed, for it not to overflow the stack

---
 typesystem/serialization/json/json.h | 29 ++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/typesystem/serialization/json/json.h b/typesystem/serialization/json/json.h
index 8320887..674a6e8 100644
--- a/typesystem/serialization/json/json.h
+++ b/typesystem/serialization/json/json.h
@@ -242,6 +242,9 @@ template <class JSON_FORMAT>
 class JSONParser final {
  public:
   explicit JSONParser(const char* json) {
+    if (IsNestedTooDeep(json)) {
+      CURRENT_THROW(InvalidJSONException("JSON nested too deep."));
+    }
     // Without this flag floating point numbers may be off in their least significant bits.
     if (document_.Parse<rapidjson::kParseFullPrecisionFlag>(json).HasParseError()) {
       CURRENT_THROW(InvalidJSONException(json));
@@ -308,6 +311,32 @@ class JSONParser final {
     }
   };
 
+  // Parsing is recursive, and the depth of the recursion should not be up to the input, as the stack is limited.
+  constexpr static int kMaxNestingDepth = 1000;
+  static bool IsNestedTooDeep(const char* json) {
+    int depth = 0;
+    bool in_string = false;
+    for (; *json; ++json) {
+      const char c = *json;
+      if (in_string) {
+        if (c == '\\' && json[1]) {
+          ++json;
+        } else if (c == '"') {
+          in_string = false;
+        }
+      } else if (c == '"') {
+        in_string = true;
+      } else if (c == '[' || c == '{') {
+        if (++depth > kMaxNestingDepth) {
+          return true;
+        }
+      } else if (c == ']' || c == '}') {
+        --depth;
+      }
+    }
+    return false;
+  }
+
   bool PathIsEmpty() const { return path_.empty(); }
 
   std::string Path() const {
-- 
2.43.0


From 9d0afce5e8a4ca3219f567576a965f6fb918e2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:24 +0000
Subject: [PATCH 31/89] fix: JSON: do not ignore what follows a zero byte in
 the case name of an F# option

---
 typesystem/serialization/json/immutable_optional.h | 6 +++---
 typesystem/serialization/json/optional.h           | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/typesystem/serialization/json/immutable_optional.h b/typesystem/serialization/json/immutable_optional.h
index b69399b..5e8069d 100644
--- a/typesystem/serialization/json/immutable_optional.h
+++ b/typesystem/serialization/json/immutable_optional.h
@@ -116,12 +116,12 @@ struct DeserializeImpl<json::JSONParser<JSONFormat::NewtonsoftFSharp>, Immutable
       if (json_parser.Current().IsObject() && json_parser.Current().HasMember("Case")) {
         const auto& case_field = json_parser.Current()["Case"];
         if (case_field.IsString()) {
-          const char* case_field_value = case_field.GetString();
-          if (!strcmp(case_field_value, "None")) {
+          const std::string case_field_value(case_field.GetString(), case_field.GetStringLength());
+          if (case_field_value == "None") {
             // Unnecessary, but to be safe. -- D.K.
             destination = nullptr;
             ok = true;
-          } else if (!strcmp(case_field_value, "Some") && json_parser.Current().HasMember("Fields")) {
+          } else if (case_field_value == "Some" && json_parser.Current().HasMember("Fields")) {
             auto& fields_field = json_parser.Current()["Fields"];
             if (fields_field.IsArray() && fields_field.Size() == 1u) {
               destination = T();
diff --git a/typesystem/serialization/json/optional.h b/typesystem/serialization/json/optional.h
index dff392c..798fb2b 100644
--- a/typesystem/serialization/json/optional.h
+++ b/typesystem/serialization/json/optional.h
@@ -113,12 +113,12 @@ struct DeserializeImpl<json::JSONParser<JSONFormat::NewtonsoftFSharp>, Optional<
       if (json_parser.Current().IsObject() && json_parser.Current().HasMember("Case")) {
         const auto& case_field = json_parser.Current()["Case"];
         if (case_field.IsString()) {
-          const char* case_field_value = case_field.GetString();
-          if (!strcmp(case_field_value, "None")) {
+          const std::string case_field_value(case_field.GetString(), case_field.GetStringLength());
+          if (case_field_value == "None") {
             // Unnecessary, but to be safe. -- D.K.
             destination = nullptr;
             ok = true;
-          } else if (!strcmp(case_field_value, "Some") && json_parser.Current().HasMember("Fields")) {
+          } else if (case_field_value == "Some" && json_parser.Current().HasMember("Fields")) {
             auto& fields_field = json_parser.Current()["Fields"];
             if (fields_field.IsArray() && fields_field.Size() == 1u) {
               destination = T();
-- 
2.43.0


From 5d526624bcd64e9444740df36c00a5392b4b40bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 32/89] fix: URL: encode the bytes beyond ASCII properly

---
 blocks/url/url.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index 4ca959d..a1b4033 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -260,7 +260,7 @@ struct URLParametersExtractor {
       } else if (c == ' ') {
         encoded << "%20";
       } else {
-        encoded << current::strings::Printf("%%%02X", static_cast<int>(c));
+        encoded << current::strings::Printf("%%%02X", static_cast<int>(static_cast<uint8_t>(c)));
       }
     }
     return encoded.str();
-- 
2.43.0


From 5e636dd5827864183f003748c0b364ac96f4b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 33/89] fix: URL: do not confuse `://` in the path with the end
 of the scheme

---
 blocks/url/url.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/blocks/url/url.h b/blocks/url/url.h
index a1b4033..b9659cb 100644
--- a/blocks/url/url.h
+++ b/blocks/url/url.h
@@ -101,9 +101,10 @@ struct URLWithoutParametersParser {
     scheme = "";
     size_t parsed_offset = 0;
 
-    // This piece parses scheme.
+    // This piece parses scheme. Note that the path may well contain `://` too, so only the first slash can be the one.
     const size_t double_slash = url.find("//");
-    if (double_slash != std::string::npos && (double_slash == 0 || url[double_slash - 1] == ':')) {
+    if (double_slash != std::string::npos && double_slash == url.find('/') &&
+        (double_slash == 0 || url[double_slash - 1] == ':')) {
       scheme = (double_slash == 0 ? "" : url.substr(0, double_slash - 1));
       parsed_offset = double_slash + 2;
     }
-- 
2.43.0


From 2016bac5668c54257588255e1e031ba9f92960b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 34/89] fix: Split: do not treat the zero byte as a separator
 when the separators are a string literal

---
 bricks/strings/split.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bricks/strings/split.h b/bricks/strings/split.h
index 67f6df1..3662f47 100644
--- a/bricks/strings/split.h
+++ b/bricks/strings/split.h
@@ -86,7 +86,7 @@ struct MatchImpl<std::string> {
 template <size_t N>
 struct MatchImpl<const char[N]> {
   enum { valid_separator = true };
-  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) { return std::find(s, s + N, c) != (s + N); }
+  static std::enable_if_t<(N > 0), bool> Match(char c, const char s[N]) { return std::find(s, s + N - 1, c) != (s + N - 1); }
 };
 
 template <typename T>
-- 
2.43.0


From 0e24674114f72bfffe1321691cba76a83a759c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 35/89] fix: GroupByLines: do not drop what follows a zero byte
 in the string being fed

---
 bricks/strings/group_by_lines.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bricks/strings/group_by_lines.h b/bricks/strings/group_by_lines.h
index ae25ff0..3f69756 100644
--- a/bricks/strings/group_by_lines.h
+++ b/bricks/strings/group_by_lines.h
@@ -33,6 +33,7 @@ SOFTWARE.
 #include "../template/weed.h"
 #endif  // CURRENT_FOR_CPP14
 
+#include <cstring>
 #include <deque>
 #include <functional>
 #include <string>
@@ -93,8 +94,11 @@ class GenericStatefulGroupByLines final {
 
  public:
   explicit GenericStatefulGroupByLines(F&& f) : f_(std::move(f)) {}
-  void Feed(const std::string& s) { Feed(s.c_str()); }
-  void Feed(const char* s) {
+  void Feed(const std::string& s) { DoFeed(s.data(), s.data() + s.length()); }
+  void Feed(const char* s) { DoFeed(s, s + ::strlen(s)); }
+
+ private:
+  void DoFeed(const char* s, const char* const end) {
     if (done_called_) {
       CURRENT_THROW(GroupByLinesFeedCaledAfterDone());
     }
@@ -108,10 +112,10 @@ class GenericStatefulGroupByLines final {
       // the `GenericStatefulGroupByLines` instance is destroyed (in the `E == GroupByLinesExceptions::Prohibit` mode),
       // or the `.Done()` method is called (in the `GroupByLinesExceptions::Allow` mode).
       while (true) {
-        while (*s && *s != '\n') {
+        while (s != end && *s != '\n') {
           residual_ += *s++;
         }
-        if (*s == '\n') {
+        if (s != end) {
           ++s;
           std::string extracted;
           residual_.swap(extracted);
@@ -126,6 +130,7 @@ class GenericStatefulGroupByLines final {
     }
   }
 
+ public:
   template <bool ENABLE = (E == GroupByLinesExceptions::Allow)>
   std::enable_if_t<ENABLE> Done() {
     if (done_called_) {
-- 
2.43.0


From 4cfa1038148d1134b29a30f967c30b47bbde9cb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 36/89] fix: FromString: an empty string is zero for 8-bit
 integers too, not an uninitialized value

---
 bricks/strings/util.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bricks/strings/util.h b/bricks/strings/util.h
index 38bd585..ddbea07 100644
--- a/bricks/strings/util.h
+++ b/bricks/strings/util.h
@@ -205,7 +205,7 @@ struct FromStringImpl<INPUT, int8_t, false, false> {
   // Must return a reference as the callers expects it so. -- D.K.
   static const int8_t& Go(const std::string& input, int8_t& output) {
     std::istringstream is(input);
-    int value;
+    int value = 0;
     is >> value;
     output = static_cast<int8_t>(value);
     return output;
@@ -216,7 +216,7 @@ struct FromStringImpl<INPUT, uint8_t, false, false> {
   // Must return a reference as the callers expects it so. -- D.K.
   static const uint8_t& Go(const std::string& input, uint8_t& output) {
     std::istringstream is(input);
-    int value;
+    int value = 0;
     is >> value;
     output = static_cast<uint8_t>(value);
     return output;
-- 
2.43.0


From 9ee30cc3c8abcb219f58368a234b51338a556819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:46 +0000
Subject: [PATCH 37/89] fix: FromString: enums with an 8-bit underlying type
 are numbers, not characters

---
 bricks/strings/util.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bricks/strings/util.h b/bricks/strings/util.h
index ddbea07..447a1fa 100644
--- a/bricks/strings/util.h
+++ b/bricks/strings/util.h
@@ -180,7 +180,8 @@ struct FromStringImpl<INPUT, OUTPUT, false, true> {
   static const OUTPUT& Go(INPUT&& input, OUTPUT& output) {
     std::istringstream is(input);
     using underlying_output_t = typename std::underlying_type<OUTPUT>::type;
-    underlying_output_t underlying_output;
+    // Unary plus, to read 8-bit underlying types as numbers, not as characters.
+    decltype(+underlying_output_t()) underlying_output;
     if (!(is >> underlying_output)) {
       // Default initializer, zero for primitive types.
       underlying_output = underlying_output_t();
-- 
2.43.0


From d4dd55164d1c36c5b6e1cdf74dd0a0534b7d6313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:49 +0000
Subject: [PATCH 38/89] fix: Optional: do not lose the object when moving from
 an Optional that does not own it

---
 typesystem/optional.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/typesystem/optional.h b/typesystem/optional.h
index aa6b0a6..6a035b3 100644
--- a/typesystem/optional.h
+++ b/typesystem/optional.h
@@ -332,13 +332,10 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
   }
 
   Optional(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
-      owned_optional_object_ = std::move(rhs.owned_optional_object_);
-      rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
-    }
-    optional_object_ = owned_optional_object_.get();
+    // NOTE: What `rhs` holds may be not owned by it, if it was constructed from a bare pointer.
+    owned_optional_object_ = std::move(rhs.owned_optional_object_);
+    optional_object_ = rhs.optional_object_;
+    rhs = nullptr;
   }
 
   Optional(const ImmutableOptional<T>& rhs) {
@@ -399,13 +396,10 @@ class Optional<T, std::enable_if_t<!std::is_pod<T>::value>> final {
   }
 
   Optional<T>& operator=(Optional<T>&& rhs) {
-    if (rhs.ExistsImpl()) {
-      owned_optional_object_ = std::move(rhs.owned_optional_object_);
-      rhs = nullptr;
-    } else {
-      owned_optional_object_ = nullptr;
-    }
-    optional_object_ = owned_optional_object_.get();
+    // NOTE: What `rhs` holds may be not owned by it, if it was constructed from a bare pointer.
+    owned_optional_object_ = std::move(rhs.owned_optional_object_);
+    optional_object_ = rhs.optional_object_;
+    rhs = nullptr;
     return *this;
   }
 
-- 
2.43.0


From b8c884fe1acaead71c1d71ec937f9211cc6a13f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:14 +0000
Subject: [PATCH 39/89] fix: Type evolution: do not keep the elements the map
 had by default

---
 typesystem/evolution/type_evolution.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/typesystem/evolution/type_evolution.h b/typesystem/evolution/type_evolution.h
index a7e944e..a4201e1 100644
--- a/typesystem/evolution/type_evolution.h
+++ b/typesystem/evolution/type_evolution.h
@@ -99,6 +99,7 @@ template <typename FROM_NAMESPACE, typename EVOLVER, typename MAP_KEY, typename
 struct Evolve<FROM_NAMESPACE, std::map<MAP_KEY, MAP_VALUE>, EVOLVER> {
   template <typename INTO, typename OUTPUT>
   static void Go(const std::map<MAP_KEY, MAP_VALUE>& from, OUTPUT& into) {
+    into.clear();
     for (const auto& e : from) {
       typename OUTPUT::key_type key;
       Evolve<FROM_NAMESPACE, MAP_KEY, EVOLVER>::template Go<INTO>(e.first, key);
-- 
2.43.0


From 1c213e1a98b99d4e67668eab17036ef92e17758d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 40/89] fix: Reflection: an array has the type ID of its own,
 not of the vector

---
 typesystem/reflection/reflection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typesystem/reflection/reflection.h b/typesystem/reflection/reflection.h
index fbef558..199fb68 100644
--- a/typesystem/reflection/reflection.h
+++ b/typesystem/reflection/reflection.h
@@ -388,7 +388,7 @@ struct ReflectorImpl {
   ReflectedType operator()(TypeSelector<std::array<T, N>>) {
     ReflectType<T>();
     ReflectedType_Array result(CurrentTypeID<T>());
-    result.type_id = CurrentTypeID<std::vector<T>>();
+    result.type_id = CurrentTypeID<std::array<T, N>>();
     result.size = static_cast<uint64_t>(N);
     return ReflectedType(std::move(result));
   }
-- 
2.43.0


From 072adc6d679c4c6ad007810e77c6a8692a229abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:35 +0000
Subject: [PATCH 41/89] fix: Schema: do not need the types to be known to the
 reflector to describe a variant as JSON

---
 typesystem/schema/schema.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/typesystem/schema/schema.h b/typesystem/schema/schema.h
index e0402d3..7939775 100644
--- a/typesystem/schema/schema.h
+++ b/typesystem/schema/schema.h
@@ -1142,7 +1142,8 @@ struct LanguageSyntaxImpl<Language::JSON> final {
 
     void operator()(const ReflectedType_Variant& v) const {
       for (auto& c : v.cases) {
-        Reflector().ReflectedTypeByTypeID(c).Call(*this);
+        // TODO(dkorolev): Check that `at()` succeeded.
+        types_.at(c).Call(*this);
       }
     }
 
-- 
2.43.0


From 4192c971fa9b9c7043a8b9c012da1ad03da3c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 42/89] fix: CSV::ReadFile() should not skip empty fields

---
 utils/csv/csv.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/utils/csv/csv.h b/utils/csv/csv.h
index c84b5f7..2b16ff1 100644
--- a/utils/csv/csv.h
+++ b/utils/csv/csv.h
@@ -63,8 +63,8 @@ CURRENT_STRUCT_T(CSV) {
     if (!line.empty() && line.back() == '\r') {
       line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
     }
-    csv.header = current::strings::Split(line, ',');
-    if (csv.header.empty()) {
+    csv.header = current::strings::Split(line, ',', current::strings::EmptyFields::Keep);
+    if (line.empty()) {
       CURRENT_THROW(CSVFileFormatException("The CSV file `" + filename + "` does not even contain the header."));
     }
     while (std::getline(fi, line)) {
@@ -72,7 +72,10 @@ CURRENT_STRUCT_T(CSV) {
         line.resize(line.size() - 1u);  // NOTE(dkorolev): This may look like a hack, but I'd rather stay safe.
       }
       std::vector<T> row;
-      for (const auto& field : current::strings::Split(line, ',')) {
+      for (const auto& field : current::strings::Split(line, ',', current::strings::EmptyFields::Keep)) {
+        if (field.empty() && !std::is_same<T, std::string>::value) {
+          CURRENT_THROW(CSVFileFormatException("Empty field in CSV file `" + filename + "`."));
+        }
         row.push_back(current::FromString<T>(field));
       }
       if (row.size() != csv.header.size()) {
-- 
2.43.0


From a40ff31ac04369b7bcae2102b64866a706176c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:51 +0000
Subject: [PATCH 43/89] fix: OT() should reject the edits that go past the end
 of the document and non-integer elements

---
 utils/operational_transformation/ot.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/utils/operational_transformation/ot.h b/utils/operational_transformation/ot.h
index b254118..758f7c3 100644
--- a/utils/operational_transformation/ot.h
+++ b/utils/operational_transformation/ot.h
@@ -57,7 +57,7 @@ template <typename PROCESSOR>
 typename PROCESSOR::generate_output_result_t OT(const std::string& json, PROCESSOR&& processor) {
 #endif  // CURRENT_FOR_CPP14
   rapidjson::Document document;
-  if (document.Parse<0>(&json[0]).HasParseError()) {
+  if (document.Parse<rapidjson::kParseValidateEncodingFlag>(&json[0]).HasParseError()) {
     CURRENT_THROW(OTParseException("Not a valid JSON."));
   }
   if (!document.IsObject()) {
@@ -90,23 +90,31 @@ typename PROCESSOR::generate_output_result_t OT(const std::string& json, PROCESS
     }
 
     const uint64_t timestamp = timestamp_value.GetUint64();
-    int caret = 0;
+    // Invariant: `caret <= rope.size()`.
+    size_t caret = 0u;
     for (rapidjson::SizeType i = 0; i < static_cast<rapidjson::SizeType>(array_value.Size()); ++i) {
       const auto& element = array_value[i];
       if (element.IsString()) {
         const auto s = std::wstring_convert<std::codecvt_utf8<wchar_t>>().from_bytes(
             element.GetString(), element.GetString() + element.GetStringLength());
         rope.insert(rope.begin() + caret, s.begin(), s.end());
-        caret += static_cast<int>(s.length());
+        caret += s.length();
       } else {
         if (!element.IsNumber()) {
           CURRENT_THROW(OTParseException("OT element is not a string or number."));
         }
-        const int v = element.GetInt();
+        if (!element.IsInt()) {
+          CURRENT_THROW(OTParseException("OT number element is not an integer."));
+        }
+        const int64_t v = element.GetInt();
+        const size_t n = static_cast<size_t>(v > 0 ? v : -v);
+        if (n > rope.size() - caret) {
+          CURRENT_THROW(OTParseException("OT element goes past the end of the document."));
+        }
         if (v > 0) {
-          caret += v;
+          caret += n;
         } else {
-          rope.erase(rope.begin() + caret, rope.begin() + caret + (-v));
+          rope.erase(rope.begin() + caret, rope.begin() + caret + n);
         }
       }
     }
-- 
2.43.0


From 70e3eeb35b9eb9e815e49fa112b56e9800d7e151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:39 +0000
Subject: [PATCH 44/89] fix: Do not infer the schema with empty type names from
 the arrays of nulls

---
 utils/json_schema/infer.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 4ddfe29..1cbf5e6 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -668,6 +668,9 @@ class SchemaToCurrentStructPrinter {
 
     void operator()(const Array& x) {
       x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      if (output_type.empty()) {
+        return;  // Nothing but `null`-s and/or empty arrays, ignored in the schema.
+      }
       output_type = "std::vector<" + output_type + ">";
 
       // For both arrays and objects.
@@ -720,6 +723,10 @@ class SchemaToCurrentStructPrinter {
     std::string comment;
     schema.Call(Printer(os, top_level_struct_name, type, comment));
 
+    if (type.empty()) {
+      CURRENT_THROW(InferSchemaArrayOfNullsOrEmptyArraysIsNotAllowed());
+    }
+
     os << '\n';
     if (!comment.empty()) {
       os << "// " << comment << '\n';
-- 
2.43.0


From ab4a41f05e7fe068a290e784310c4726b590e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:04 +0000
Subject: [PATCH 45/89] fix: Do not give the same name to different structs of
 the inferred schema

---
 utils/json_schema/infer.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/utils/json_schema/infer.h b/utils/json_schema/infer.h
index 1cbf5e6..05d068d 100644
--- a/utils/json_schema/infer.h
+++ b/utils/json_schema/infer.h
@@ -636,12 +636,21 @@ class SchemaToCurrentStructPrinter {
  public:
   struct Printer {
     std::ostream& os;
+    std::unordered_set<std::string>& struct_names;
     const std::string prefix;
     std::string& output_type;
     std::string& output_comment;
 
-    Printer(std::ostream& os, const std::string& prefix, std::string& output_type, std::string& output_comment)
-        : os(os), prefix(prefix), output_type(output_type), output_comment(output_comment) {}
+    Printer(std::ostream& os,
+            std::unordered_set<std::string>& struct_names,
+            const std::string& prefix,
+            std::string& output_type,
+            std::string& output_comment)
+        : os(os),
+          struct_names(struct_names),
+          prefix(prefix),
+          output_type(output_type),
+          output_comment(output_comment) {}
 
     void operator()(const Uninitialized&) {
       output_type = "";
@@ -667,7 +676,7 @@ class SchemaToCurrentStructPrinter {
     void operator()(const Bool& x) { output_type = x.nulls ? "Optional<bool>" : "bool"; }
 
     void operator()(const Array& x) {
-      x.element.Call(Printer(os, prefix + "_Element", output_type, output_comment));
+      x.element.Call(Printer(os, struct_names, prefix + "_Element", output_type, output_comment));
       if (output_type.empty()) {
         return;  // Nothing but `null`-s and/or empty arrays, ignored in the schema.
       }
@@ -680,7 +689,11 @@ class SchemaToCurrentStructPrinter {
     }
 
     void operator()(const Object& x) {
+      // Different paths may result in the same name, ex. `a_b` and `b` within `a`.
       output_type = prefix + "_Object";
+      while (!struct_names.insert(output_type).second) {
+        output_type += '_';
+      }
       // [ { name, { type, comment } ].
       std::vector<std::pair<std::string, std::pair<std::string, std::string>>> output_fields;
       output_fields.reserve(x.field_schema.size());
@@ -691,7 +704,7 @@ class SchemaToCurrentStructPrinter {
         std::string& type = output_field.second.first;
         std::string& comment = output_field.second.second;
         field_name = input_field.first;
-        input_field.second.Call(Printer(os, prefix + '_' + field_name, type, comment));
+        input_field.second.Call(Printer(os, struct_names, prefix + '_' + field_name, type, comment));
       }
       os << '\n';
       os << "CURRENT_STRUCT(" << output_type << ") {\n";
@@ -721,7 +734,8 @@ class SchemaToCurrentStructPrinter {
 
     std::string type;
     std::string comment;
-    schema.Call(Printer(os, top_level_struct_name, type, comment));
+    std::unordered_set<std::string> struct_names;
+    schema.Call(Printer(os, struct_names, top_level_struct_name, type, comment));
 
     if (type.empty()) {
       CURRENT_THROW(InferSchemaArrayOfNullsOrEmptyArraysIsNotAllowed());
-- 
2.43.0


From 845b8c61030045af5e9e0a1f790f70c121ddb3f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 46/89] fix: dflags should reject malformed numbers and parse
 single-byte integers as numbers

---
 bricks/dflags/dflags.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/bricks/dflags/dflags.h b/bricks/dflags/dflags.h
index d92eada..ef22fd4 100644
--- a/bricks/dflags/dflags.h
+++ b/bricks/dflags/dflags.h
@@ -116,8 +116,19 @@ class FlagsRegistererSingleton {
 
 template <typename T>
 inline bool FromStringSupportingStringAndBool(const std::string& from, T& to) {
+  if (std::is_unsigned<T>::value && from.find('-') != std::string::npos) {
+    return false;  // Reading `-1` into an unsigned integer would silently wrap around.
+  }
   std::istringstream is(from);
-  return static_cast<bool>(is >> to);
+  // Single-byte integers are numbers, not characters.
+  using parsed_t = std::conditional_t<sizeof(T) == 1u, int32_t, T>;
+  parsed_t parsed;
+  char extra;
+  if (!(is >> parsed) || is >> extra || static_cast<parsed_t>(static_cast<T>(parsed)) != parsed) {
+    return false;
+  }
+  to = static_cast<T>(parsed);
+  return true;
 }
 
 template <>
-- 
2.43.0


From ae93420e32f926caf27375a01f36fcfe03cf9edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 47/89] fix: FileSystem::WriteStringToFile() should report the
 failure to write buffered data

---
 bricks/file/file.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index d93f7c8..9af3fb7 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -120,6 +120,7 @@ struct FileSystem {
       fo.exceptions(std::ofstream::failbit | std::ofstream::badbit);
       fo.open(file_name, (append ? std::ofstream::app : std::ofstream::trunc) | std::ofstream::binary);
       fo << contents;
+      fo.close();  // To have the failure to write the data that is still buffered reported.
     } catch (const std::ofstream::failure&) {
       CURRENT_THROW(FileException(file_name));
     }
-- 
2.43.0


From 4d91ea75c4b07d71b123a77268c3215a50e75aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:52 +0000
Subject: [PATCH 48/89] fix: SelfModifyingConfig should replace the config file
 atomically

---
 blocks/self_modifying_config/config.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/blocks/self_modifying_config/config.h b/blocks/self_modifying_config/config.h
index 6c7080d..c6c86b3 100644
--- a/blocks/self_modifying_config/config.h
+++ b/blocks/self_modifying_config/config.h
@@ -102,14 +102,16 @@ class SelfModifyingConfig final : public SelfModifyingConfigHelper {
     } catch (const current::FileException&) {
       CURRENT_THROW(SelfModifyingConfigWriteFileException(new_filename));
     }
-    // Then, update the config.
-    config_ = new_config;
-    // Finally, save the current config under the original config file name.
+    // Then, save the new config under a temporary name, and atomically rename it into the original config file name.
+    const std::string tmp_filename = filename_ + ".tmp";
     try {
-      current::FileSystem::WriteStringToFile(JSON(config_), filename_.c_str());
+      current::FileSystem::WriteStringToFile(JSON(new_config), tmp_filename.c_str());
+      current::FileSystem::RenameFile(tmp_filename, filename_);
     } catch (const current::FileException&) {
       CURRENT_THROW(SelfModifyingConfigWriteFileException(filename_));
     }
+    // Finally, update the config.
+    config_ = new_config;
   }
 
   // Not thread-safe.
-- 
2.43.0


From 8ff9d6e1d1d8bb7ab87666bc583cf7bf315084ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 49/89] fix: BlockingRead() should keep reading after a short
 read or EAGAIN

---
 bricks/net/tcp/impl/posix.h | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/bricks/net/tcp/impl/posix.h b/bricks/net/tcp/impl/posix.h
index 1c1a6bf..5836a40 100644
--- a/bricks/net/tcp/impl/posix.h
+++ b/bricks/net/tcp/impl/posix.h
@@ -415,7 +415,7 @@ class Connection : public SocketHandle {
 #endif
 
       CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() ...\n", static_cast<SOCKET>(socket));
-      do {
+      while (true) {
         const size_t remaining_bytes_to_read = (max_length - (ptr - buffer));
         CURRENT_BRICKS_NET_LOG("S%05d BlockingRead() ... attempting to read %d bytes.\n",
                                static_cast<SOCKET>(socket),
@@ -440,11 +440,14 @@ class Connection : public SocketHandle {
         }
 
 #ifndef CURRENT_WINDOWS
-        if (errno == EAGAIN) {  // LCOV_EXCL_LINE
-          continue;             // LCOV_EXCL_LINE
+        if (retval == 0) {
+          // The connection has been closed by the peer, and `errno` has not been set.
+          errno = 0;
+        } else if (errno == EAGAIN) {  // LCOV_EXCL_LINE
+          continue;                    // LCOV_EXCL_LINE
         }
 #else
-        wsa_last_error = ::WSAGetLastError();
+        wsa_last_error = (retval == 0) ? 0 : ::WSAGetLastError();
         if (wsa_last_error == WSAEWOULDBLOCK || wsa_last_error == WSAEINPROGRESS || wsa_last_error == WSAENETDOWN) {
           // Effectively, `errno == EAGAIN`.
           continue;
@@ -456,7 +459,8 @@ class Connection : public SocketHandle {
         // 1) `EAGAIN` or a Windows equivalent has been returned.
         // 2) `retval > 0`, not all the data has been read, and mode is `BlockingReadPolicy::FillFullBuffer`.
         //    (Really, just a safety check).
-      } while (false);
+        break;
+      }
 
 // LCOV_EXCL_START
 #ifndef CURRENT_WINDOWS
-- 
2.43.0


From 7b020037a0910adb15b78298dd8bcef344d9d782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 50/89] fix: The HTTP parser should reject malformed and out of
 range chunk sizes

---
 bricks/net/http/impl/server.h | 50 ++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 13 deletions(-)

diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index 142fb77..acdd161 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -26,6 +26,8 @@ SOFTWARE.
 #define BRICKS_NET_HTTP_IMPL_SERVER_H
 
 #include <map>
+#include <cctype>
+#include <limits>
 #include <memory>
 #include <sstream>
 #include <string>
@@ -483,19 +485,16 @@ class GenericHTTPRequestData : public HELPER {
         } else if (receiving_body_in_chunks) {
           // Ignore blank lines.
           if (!line_is_blank) {
-            const size_t chunk_length = static_cast<size_t>([&]() {
-              try {
-                return std::stoi(&buffer_[current_line_offset], nullptr, 16);
-              } catch (const std::invalid_argument&) {
-                // Not a valid hexadecimal chunk size. HTTP bad request is it.
-                HTTPResponder::SendHTTPResponse(c,
-                                                net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
-                                                HTTPResponseCode.BadRequest,
-                                                net::http::Headers(),
-                                                net::constants::kDefaultHTMLContentType);
-                CURRENT_THROW(ChunkSizeNotAValidHEXValue());
-              }
-            }());
+            size_t chunk_length;
+            if (!ParseChunkSize(&buffer_[current_line_offset], chunk_length)) {
+              // Not a valid hexadecimal chunk size. HTTP bad request is it.
+              HTTPResponder::SendHTTPResponse(c,
+                                              net::DefaultInvalidHEXChunkSizeBadRequestMessage(),
+                                              HTTPResponseCode.BadRequest,
+                                              net::http::Headers(),
+                                              net::constants::kDefaultHTMLContentType);
+              CURRENT_THROW(ChunkSizeNotAValidHEXValue());
+            }
             if (chunk_length == 0) {
               // Done with the body.
               HELPER::OnChunkedBodyDone(body_buffer_begin_, body_buffer_end_);
@@ -679,6 +678,31 @@ class GenericHTTPRequestData : public HELPER {
     return !*lhs && !*rhs;
   }
 
+  // The size of the chunk is a hexadecimal number, optionally followed by the extensions after a semicolon.
+  // It should fit into a signed 32-bit integer.
+  static bool ParseChunkSize(const char* s, size_t& output) {
+    const auto IsSpaceOrTab = [](const char c) { return c == ' ' || c == '\t'; };
+    while (IsSpaceOrTab(*s)) {
+      ++s;
+    }
+    if (!std::isxdigit(static_cast<unsigned char>(*s))) {
+      return false;
+    }
+    uint64_t result = 0;
+    for (; std::isxdigit(static_cast<unsigned char>(*s)); ++s) {
+      const char c = static_cast<char>(std::tolower(*s));
+      result = result * 16 + (c <= '9' ? c - '0' : c - 'a' + 10);
+      if (result > static_cast<uint64_t>(std::numeric_limits<int32_t>::max())) {
+        return false;
+      }
+    }
+    while (IsSpaceOrTab(*s)) {
+      ++s;
+    }
+    output = static_cast<size_t>(result);
+    return !*s || *s == ';';
+  }
+
   // Fields available to the user via getters.
   std::string method_;
   current::url::URL url_;
-- 
2.43.0


From 60e3fa45b81d41cee7eb6a1e5167582fa15fad40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 51/89] fix: The HTTP parser should reject malformed
 Content-Length

---
 blocks/http/impl/posix_server.h    |  2 ++
 bricks/net/exceptions.h            |  1 +
 bricks/net/http/default_messages.h |  1 +
 bricks/net/http/impl/server.h      | 27 ++++++++++++++++++++++++++-
 4 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 9c087f6..8644601 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -461,6 +461,8 @@ class HTTPServerPOSIX final {
         }
       } catch (const current::net::ChunkSizeNotAValidHEXValue&) {
         // The `ChunkSizeNotAValidHEXValue` situation, if emerged, is already handled with a "400 BAD REQUEST" response.
+      } catch (const current::net::HTTPContentLengthNotAValidNumber&) {
+        // The `HTTPContentLengthNotAValidNumber` situation is already handled with a "400 BAD REQUEST" response.
       } catch (const current::net::HTTPPayloadTooLarge&) {
         // The `HTTPPayloadTooLarge` situation, if emerged, is already handled with a "413 ENTITY TOO LARGE" response.
       } catch (const current::net::HTTPRequestBodyLengthNotProvided&) {
diff --git a/bricks/net/exceptions.h b/bricks/net/exceptions.h
index f4caf15..bdd0cb9 100644
--- a/bricks/net/exceptions.h
+++ b/bricks/net/exceptions.h
@@ -102,6 +102,7 @@ struct HTTPRedirectLoopException : HTTPException {
 struct HTTPPayloadTooLarge : HTTPException {};
 struct HTTPRequestBodyLengthNotProvided : HTTPException {};
 struct ChunkSizeNotAValidHEXValue : HTTPException {};
+struct HTTPContentLengthNotAValidNumber : HTTPException {};
 
 // AttemptedToSendHTTPResponseMoreThanOnce is a user code exception; not really an HTTP one.
 struct AttemptedToSendHTTPResponseMoreThanOnce : Exception {};
diff --git a/bricks/net/http/default_messages.h b/bricks/net/http/default_messages.h
index 13dc053..67a1b92 100644
--- a/bricks/net/http/default_messages.h
+++ b/bricks/net/http/default_messages.h
@@ -42,6 +42,7 @@ inline std::string DefaultMethodNotAllowedMessage() { return "<h1>METHOD NOT ALL
 inline std::string DefaultRequestEntityTooLargeMessage() { return "<h1>ENTITY TOO LARGE</h1>\n"; }
 inline std::string DefaultLengthRequiredMessage() { return "<h1>LENGTH REQUIRED</h1>\n"; }
 inline std::string DefaultInvalidHEXChunkSizeBadRequestMessage() { return "<h1>BAD CHUNK SIZE</h1>\n"; }
+inline std::string DefaultInvalidContentLengthBadRequestMessage() { return "<h1>BAD CONTENT LENGTH</h1>\n"; }
 
 }  // namespace net
 }  // namespace current
diff --git a/bricks/net/http/impl/server.h b/bricks/net/http/impl/server.h
index acdd161..2873b4f 100644
--- a/bricks/net/http/impl/server.h
+++ b/bricks/net/http/impl/server.h
@@ -561,7 +561,14 @@ class GenericHTTPRequestData : public HELPER {
 
             HELPER::OnHeader(key, value);
             if (HeaderNameEquals(key, constants::kContentLengthHeaderKey)) {
-              body_length = static_cast<size_t>(atoi(value));
+              if (!ParseContentLength(value, body_length)) {
+                HTTPResponder::SendHTTPResponse(c,
+                                                net::DefaultInvalidContentLengthBadRequestMessage(),
+                                                HTTPResponseCode.BadRequest,
+                                                http::Headers(),
+                                                net::constants::kDefaultHTMLContentType);
+                CURRENT_THROW(HTTPContentLengthNotAValidNumber());
+              }
               if (body_length > constants::kMaxHTTPPayloadSizeInBytes) {
                 HTTPResponder::SendHTTPResponse(c,
                                                 net::DefaultRequestEntityTooLargeMessage(),
@@ -703,6 +710,24 @@ class GenericHTTPRequestData : public HELPER {
     return !*s || *s == ';';
   }
 
+  // The content length is a non-negative decimal number. The ones too large are above the payload size limit anyway.
+  static bool ParseContentLength(const char* s, size_t& output) {
+    if (!*s) {
+      return false;
+    }
+    size_t result = 0;
+    for (; *s; ++s) {
+      if (*s < '0' || *s > '9') {
+        return false;
+      }
+      if (result <= constants::kMaxHTTPPayloadSizeInBytes) {
+        result = result * 10 + static_cast<size_t>(*s - '0');
+      }
+    }
+    output = result;
+    return true;
+  }
+
   // Fields available to the user via getters.
   std::string method_;
   current::url::URL url_;
-- 
2.43.0


From 47e1867554dfde615d41c14453fa4f8f5396e5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 52/89] fix: Parse the cookies with '=' in them, the empty
 ones, and the parameters of the cookies being set

---
 bricks/net/http/headers/headers.h | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index dff875a..281776d 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -137,11 +137,15 @@ struct Header final {
   // Make sure `Cookies` are never accessed as regular headers.
   static bool IsCookieHeader(const std::string& header) {
     const char* kClientCookieHeaderName = "Cookie";
-    const char* kServerCookieHeaderName = "Set-Cookie";
     const auto cmp = Header::KeyComparator();
     // Use equivalency to emulate equality. -- D.K.
     return (!cmp(header, kClientCookieHeaderName) && !cmp(kClientCookieHeaderName, header)) ||
-           (!cmp(header, kServerCookieHeaderName) && !cmp(kServerCookieHeaderName, header));
+           IsSetCookieHeader(header);
+  }
+  static bool IsSetCookieHeader(const std::string& header) {
+    const char* kServerCookieHeaderName = "Set-Cookie";
+    const auto cmp = Header::KeyComparator();
+    return !cmp(header, kServerCookieHeaderName) && !cmp(kServerCookieHeaderName, header);
   }
 
   static void ThrowIfHeaderIsCookie(const std::string& header) {
@@ -322,14 +326,31 @@ struct Headers final {
   void emplace_back(const std::string& header, const std::string& value) { Set(header, value); }
 
   // An interface for the HTTP library to populate headers or cookies.
-  void ApplyCookieHeader(const std::string& value) {
-    for (const auto& kv : strings::SplitIntoKeyValuePairs(value, '=', ';')) {
-      cookies.emplace(strings::Trim(kv.first), strings::Trim(kv.second));
+  // The value of the cookie is everything past the first '=', and it can be empty.
+  // Each `Set-Cookie` header sets one cookie, what follows its name and value are the extra parameters for it.
+  void ApplyCookieHeader(const std::string& value, bool is_set_cookie = false) {
+    Cookie* cookie = nullptr;
+    bool first = true;
+    for (const std::string& field : strings::Split(value, ';', strings::EmptyFields::Keep)) {
+      const size_t separator = field.find('=');
+      const std::string k = strings::Trim(field.substr(0, separator));
+      const std::string v = separator != std::string::npos ? strings::Trim(field.substr(separator + 1)) : "";
+      if (!k.empty()) {
+        if (first || !is_set_cookie) {
+          if (separator != std::string::npos) {
+            const auto inserted = cookies.emplace(k, v);
+            cookie = inserted.second ? &inserted.first->second : nullptr;
+          }
+        } else if (cookie) {
+          cookie->params.emplace(k, v);
+        }
+      }
+      first = false;
     }
   }
   void SetHeaderOrCookie(const std::string& header, const std::string& value) {
     if (Header::IsCookieHeader(header)) {
-      ApplyCookieHeader(value);
+      ApplyCookieHeader(value, Header::IsSetCookieHeader(header));
     } else {
       Set(header, value);
     }
-- 
2.43.0


From be888c7231d75c830046071f4dff6002b44c3eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:02 +0000
Subject: [PATCH 53/89] fix: The HTTP client should follow the redirects
 regardless of the case of the header name

---
 blocks/http/impl/posix_client.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_client.h b/blocks/http/impl/posix_client.h
index 9cf8c85..45586e2 100644
--- a/blocks/http/impl/posix_client.h
+++ b/blocks/http/impl/posix_client.h
@@ -51,7 +51,8 @@ struct HTTPRedirectHelper : current::net::HTTPDefaultHelper {
   std::string location = "";
 
   inline void OnHeader(const char* key, const char* value) {
-    if (std::string("Location") == key) {
+    // The names of the headers are case-insensitive.
+    if (current::strings::ToLower(key) == "location") {
       location = value;
     }
     current::net::HTTPDefaultHelper::OnHeader(key, value);
-- 
2.43.0


From 429c91f455e1c4542569a2bf8250fadc70dbc7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:18 +0000
Subject: [PATCH 54/89] fix: Assigning Headers should replace them, and
 Remove() should not leave dangling pointers

---
 bricks/net/http/headers/headers.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index 281776d..f4bb5f4 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -191,8 +191,8 @@ struct Headers final {
   Headers(const Headers& rhs) { DeepCopyFrom(rhs); }
 
   Headers& operator=(const Headers& rhs) {
-    DeepCopyFrom(rhs);
-    return *this;
+    // Copy first, as what has been stored here should be discarded, and as `rhs` may well be `*this`.
+    return *this = Headers(rhs);
   }
 
   Headers(const std::string& header, const std::string& value) { Set(header, value); }
@@ -229,14 +229,16 @@ struct Headers final {
     Header::ThrowIfHeaderIsCookie(header);
     const auto cit = map.find(header);
     if (cit != map.end()) {
-      map.erase(cit);
+      // Compare the pointers, not the names, as the name to remove may be spelled differently.
+      const Header* const removed = cit->second.get();
       headers_list_t updated_list;
       for (const auto& e : list) {
-        if (e.first != header) {
-          updated_list.emplace_back(std::move(e));
+        if (e.second != removed) {
+          updated_list.emplace_back(e);
         }
       }
       list = std::move(updated_list);
+      map.erase(cit);
     }
     return *this;
   }
-- 
2.43.0


From 0e51c2cb4cb16c488abbad40eb782f7ec3fd8983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:50 +0000
Subject: [PATCH 55/89] fix: Setting the CORS header twice should not result in
 an invalid value of it

---
 bricks/net/http/headers/headers.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bricks/net/http/headers/headers.h b/bricks/net/http/headers/headers.h
index f4bb5f4..21f700f 100644
--- a/bricks/net/http/headers/headers.h
+++ b/bricks/net/http/headers/headers.h
@@ -359,7 +359,8 @@ struct Headers final {
   }
 
   Headers& SetCORSHeader() {
-    Set(constants::kCORSHeaderName, constants::kCORSHeaderValue);
+    // Replace the value, as `Set()` would turn it into "*, *" if the header has been set already.
+    (*this)[constants::kCORSHeaderName] = constants::kCORSHeaderValue;
     return *this;
   }
 
-- 
2.43.0


From 93ca2f51fc59dc1122ae1de4a70e23e1ab8d092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:16 +0000
Subject: [PATCH 56/89] fix: HTTPServer::UnRegister() should change nothing if
 some of the handlers do not exist

---
 blocks/http/impl/posix_server.h | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index 8644601..e0e7601 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -257,24 +257,27 @@ class HTTPServerPOSIX final {
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
     std::lock_guard<std::mutex> lock(mutex_);
+    // Confirm the request is valid first, for it to either be carried out in full or to change nothing.
+    const auto it1 = handlers_.find(path);
     URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
     for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
       if ((path_args_count_mask & mask) == mask) {
-        auto it1 = handlers_.find(path);
-        if (it1 == handlers_.end()) {
+        if (it1 == handlers_.end() || !it1->second.count(i)) {
           CURRENT_THROW(HandlerDoesNotExistException(path));
         }
-        auto& map = it1->second;
-        auto it2 = map.find(i);
-        if (it2 == map.end()) {
-          CURRENT_THROW(HandlerDoesNotExistException(path));
-        }
-        map.erase(it2);
-        if (map.empty()) {
-          // Maintain the value of `PathHandlersCount()` invariant.
-          handlers_.erase(it1);
+      }
+    }
+    if (it1 != handlers_.end()) {
+      mask = URLPathArgs::CountMask::None;
+      for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
+        if ((path_args_count_mask & mask) == mask) {
+          it1->second.erase(i);
         }
       }
+      if (it1->second.empty()) {
+        // Maintain the value of `PathHandlersCount()` invariant.
+        handlers_.erase(it1);
+      }
     }
   }
 
-- 
2.43.0


From 9c2df7f88547f61236b1d462010436f1ec7ab37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 57/89] fix: The thread of the HTTP server should start after
 its members are constructed

---
 blocks/http/impl/posix_server.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index e0e7601..c337cf2 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -547,13 +547,15 @@ class HTTPServerPOSIX final {
 
   std::atomic_bool terminating_;
   const uint16_t port_;
-  std::thread thread_;
 
   // TODO(dkorolev): Look into read-write mutexes here.
   mutable std::mutex mutex_;
 
   std::map<std::string, std::map<size_t, Owned<std::function<void(Request)>>>> handlers_;
   std::vector<std::unique_ptr<StaticFileServer>> static_file_servers_;
+
+  // Must be the last member, as the thread uses all of the above right from the start.
+  std::thread thread_;
 };
 
 }  // namespace http
-- 
2.43.0


From fe14026cbc219de635fcf33557c2d77d31c73852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 58/89] fix: HTTPServer should not hold its mutex while waiting
 for the calls to the handlers to complete

---
 blocks/http/impl/posix_server.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index c337cf2..f25694a 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -225,7 +225,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, path_args_count_mask, POLICY);
   }
@@ -235,7 +234,6 @@ class HTTPServerPOSIX final {
   HTTPRoutesScopeEntry Register(const std::string& path,
                                 const URLPathArgs::CountMask path_args_count_mask,
                                 std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, path_args_count_mask, POLICY);
   }
 
@@ -243,19 +241,19 @@ class HTTPServerPOSIX final {
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt, typename F>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, F& handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(
         path, [&handler](Request r) { handler(std::move(r)); }, URLPathArgs::CountMask::None, POLICY);
   }
   template <ReRegisterRoute POLICY = ReRegisterRoute::ThrowOnAttempt>
   [[nodiscard]]
   HTTPRoutesScopeEntry Register(const std::string& path, std::function<void(Request)> handler) {
-    std::lock_guard<std::mutex> lock(mutex_);
     return DoRegisterHandler(path, handler, URLPathArgs::CountMask::None, POLICY);
   }
 
   void UnRegister(const std::string& path,
                   const URLPathArgs::CountMask path_args_count_mask = URLPathArgs::CountMask::None) {
+    // The handlers are destroyed with no mutex locked, as this waits for the calls to them, which may use this server.
+    std::vector<Owned<std::function<void(Request)>>> removed_handlers;
     std::lock_guard<std::mutex> lock(mutex_);
     // Confirm the request is valid first, for it to either be carried out in full or to change nothing.
     const auto it1 = handlers_.find(path);
@@ -271,7 +269,9 @@ class HTTPServerPOSIX final {
       mask = URLPathArgs::CountMask::None;
       for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask <<= 1) {
         if ((path_args_count_mask & mask) == mask) {
-          it1->second.erase(i);
+          const auto it2 = it1->second.find(i);
+          removed_handlers.push_back(std::move(it2->second));
+          it1->second.erase(it2);
         }
       }
       if (it1->second.empty()) {
@@ -503,6 +503,10 @@ class HTTPServerPOSIX final {
 
     ValidateRoute(path);
 
+    // The handlers are destroyed with no mutex locked, as this waits for the calls to them, which may use this server.
+    std::vector<Owned<std::function<void(Request)>>> replaced_handlers;
+    std::lock_guard<std::mutex> lock(mutex_);
+
     {
       // Step 1: Confirm the request is valid.
       const auto handlers_per_path_iterator = handlers_.find(path);
@@ -531,7 +535,13 @@ class HTTPServerPOSIX final {
       URLPathArgs::CountMask mask = URLPathArgs::CountMask::None;  // `None` == 1 == (1 << 0).
       for (size_t i = 0; i <= URLPathArgs::MaxArgsCount; ++i, mask = mask << 1) {
         if ((path_args_count_mask & mask) == mask) {
-          handlers_per_path[i] = MakeOwned<std::function<void(Request)>>(handler);
+          auto new_handler = MakeOwned<std::function<void(Request)>>(handler);
+          const auto it = handlers_per_path.find(i);
+          if (it != handlers_per_path.end()) {
+            replaced_handlers.push_back(std::move(it->second));
+            handlers_per_path.erase(it);
+          }
+          handlers_per_path.emplace(i, std::move(new_handler));
         }
       }
     }
-- 
2.43.0


From 387e93747c68d4430602ae90b4cb4d7dbc3ef452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:51 +0000
Subject: [PATCH 59/89] fix: ServeStaticFilesFrom() should lock the mutex of
 the HTTP server

---
 blocks/http/impl/posix_server.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/blocks/http/impl/posix_server.h b/blocks/http/impl/posix_server.h
index f25694a..4cbde6f 100644
--- a/blocks/http/impl/posix_server.h
+++ b/blocks/http/impl/posix_server.h
@@ -327,7 +327,7 @@ class HTTPServerPOSIX final {
             // If it's an index file, serve it additionally at the route without the filename (i.e. the directory
             // route).
             if (is_index_file) {
-              if (handlers_.find(route_for_directory) != handlers_.end()) {
+              if (IsPathRegistered(route_for_directory)) {
                 CURRENT_THROW(ServeStaticFilesFromCannotServeMoreThanOneIndexFile(route_for_directory + ' ' +
                                                                                   item_info.basename));
               }
@@ -341,12 +341,12 @@ class HTTPServerPOSIX final {
               auto static_file_server =
                   std::make_unique<StaticFileServer>(content, content_type, true, trailing_slash_redirect_url);
               scope += Register(route_for_directory, *static_file_server);
-              static_file_servers_.push_back(std::move(static_file_server));
+              KeepStaticFileServer(std::move(static_file_server));
             }
 
             auto static_file_server = std::make_unique<StaticFileServer>(std::move(content), content_type, false);
             scope += Register(route_for_file, *static_file_server);
-            static_file_servers_.push_back(std::move(static_file_server));
+            KeepStaticFileServer(std::move(static_file_server));
           } else {
             CURRENT_THROW(ServeStaticFilesFromCanNotServeStaticFilesOfUnknownMIMEType(item_info.basename));
           }
@@ -364,6 +364,16 @@ class HTTPServerPOSIX final {
   }
 
  private:
+  bool IsPathRegistered(const std::string& path) const {
+    std::lock_guard<std::mutex> lock(mutex_);
+    return handlers_.find(path) != handlers_.end();
+  }
+
+  void KeepStaticFileServer(std::unique_ptr<StaticFileServer> static_file_server) {
+    std::lock_guard<std::mutex> lock(mutex_);
+    static_file_servers_.push_back(std::move(static_file_server));
+  }
+
   // Although this may look complicated, all it does is making sure the handler, if found,
   // is returned wrapped into a special object which prohibits its de-registration while in use.
   // Note: If the user code handles the request synchronously, the scoped HTTP registerers will do the job.
-- 
2.43.0


From 0497f5bb1cb90f0932eb615cb304d54597fd1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 60/89] fix: The HTTP subscriber of the stream should survive
 the client disconnecting

---
 stream/pubsub.h | 76 +++++++++++++++++++++++--------------------------
 1 file changed, 35 insertions(+), 41 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index 34e6045..b991750 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -300,18 +300,12 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
           }
         }();
         current_response_size_ += entry_json.length();
-        try {
-          if (params_.array) {
-            if (!output_started_) {
-              http_response_("[\n");
-              output_started_ = true;
-            } else {
-              http_response_(",\n");
-            }
-          }
-          http_response_(std::move(entry_json));
-        } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
-          return ss::EntryResponse::Done;                  // LCOV_EXCL_LINE
+        if (params_.array) {
+          Send(output_started_ ? ",\n" : "[\n");
+          output_started_ = true;
+        }
+        if (!Send(entry_json)) {
+          return ss::EntryResponse::Done;  // LCOV_EXCL_LINE
         }
         // Respect `stop_after_bytes`.
         if (params_.stop_after_bytes && current_response_size_ >= params_.stop_after_bytes) {
@@ -332,11 +326,7 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       return ss::EntryResponse::More;
     }();
     if (result == ss::EntryResponse::Done && params_.array) {
-      if (!output_started_) {
-        http_response_("[]\n");
-      } else {
-        http_response_("]\n");
-      }
+      Send(output_started_ ? "]\n" : "[]\n");
     }
     return result;
   }
@@ -383,20 +373,13 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
           }
         }() + '\n';
         current_response_size_ += response_data.length();
-        try {
-          if (params_.array) {
-            if (!output_started_) {
-              http_response_("[\n", current::net::ChunkFlush::NoFlush);
-              output_started_ = true;
-            } else {
-              http_response_(",\n", current::net::ChunkFlush::NoFlush);
-            }
-          }
-          http_response_(
-              response_data,
-              current_index == last.index ? current::net::ChunkFlush::Flush : current::net::ChunkFlush::NoFlush);
-        } catch (const current::net::NetworkException&) {  // LCOV_EXCL_LINE
-          return ss::EntryResponse::Done;                  // LCOV_EXCL_LINE
+        if (params_.array) {
+          Send(output_started_ ? ",\n" : "[\n", current::net::ChunkFlush::NoFlush);
+          output_started_ = true;
+        }
+        if (!Send(response_data,
+                  current_index == last.index ? current::net::ChunkFlush::Flush : current::net::ChunkFlush::NoFlush)) {
+          return ss::EntryResponse::Done;  // LCOV_EXCL_LINE
         }
         // Respect `stop_after_bytes`.
         if (params_.stop_after_bytes && current_response_size_ >= params_.stop_after_bytes) {
@@ -418,14 +401,10 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
     }();
     if (result == ss::EntryResponse::Done) {
       if (params_.array) {
-        if (!output_started_) {
-          http_response_("[]\n");
-        } else {
-          http_response_("]\n");
-        }
+        Send(output_started_ ? "]\n" : "[]\n");
       } else {
         // flush cached response data.
-        http_response_("", current::net::ChunkFlush::Flush);
+        Send("", current::net::ChunkFlush::Flush);
       }
     }
     return result;
@@ -448,8 +427,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       if (to_timestamp_.count() && us > to_timestamp_) {
         return ss::EntryResponse::Done;
       }
-      if (!params_.array && !params_.entries_only) {
-        http_response_(JSON<J>(ts_only_t(us)) + '\n');
+      if (!params_.array && !params_.entries_only && !Send(JSON<J>(ts_only_t(us)) + '\n')) {
+        return ss::EntryResponse::Done;  // LCOV_EXCL_LINE
       }
     }
     return ss::EntryResponse::More;
@@ -465,15 +444,28 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   ss::TerminationResponse Terminate() {
     static const std::string message = "{\"error\":\"The subscriber has terminated.\"}\n";
     if (params_.array && output_started_) {
-      http_response_(",\n" + message + "]\n");
+      Send(",\n" + message + "]\n");
     } else {
-      http_response_(message);
+      Send(message);
     }
     return ss::TerminationResponse::Terminate;
   }
   // LCOV_EXCL_STOP
 
  private:
+  // Sends another piece of the response. Returns `false`, and sends nothing more, if the client is no longer there.
+  // Must not throw, as it is called from the thread of the subscriber.
+  bool Send(const std::string& data, current::net::ChunkFlush flush = current::net::ChunkFlush::Flush) {
+    if (!connection_lost_) {
+      try {
+        http_response_(data, flush);
+      } catch (const current::net::NetworkException&) {
+        connection_lost_ = true;
+      }
+    }
+    return !connection_lost_;
+  }
+
   // The HTTP listener must register itself as a user of stream data to ensure the lifetime of stream data.
   const BorrowedWithCallback<impl_t> impl_;
   std::atomic_bool time_to_terminate_{false};
@@ -487,6 +479,8 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
   // `http_response_`: the instance of the chunked response object to use.
   current::net::HTTPServerConnection::ChunkedResponseSender<CURRENT_BRICKS_HTTP_DEFAULT_CHUNK_CACHE_SIZE>
       http_response_;
+  // `connection_lost_`: set once sending to the client has failed.
+  bool connection_lost_ = false;
   // Current response size in bytes.
   size_t current_response_size_ = 0u;
 
-- 
2.43.0


From a071881fe7efe86b8feb8e715813368d55ee56a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 61/89] fix: The HTTP subscription should close the array if it
 is the head update that ends it

---
 stream/pubsub.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index b991750..ef4fa48 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -425,6 +425,9 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
       }
       // Stop serving if the limit on timestamp is exceeded.
       if (to_timestamp_.count() && us > to_timestamp_) {
+        if (params_.array) {
+          Send(output_started_ ? "]\n" : "[]\n");
+        }
         return ss::EntryResponse::Done;
       }
       if (!params_.array && !params_.entries_only && !Send(JSON<J>(ts_only_t(us)) + '\n')) {
-- 
2.43.0


From 6b7176ec5de864d55303f41fc39158c7b1af7aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 62/89] fix: The HTTP subscription should respect all the
 constraints on its beginning

---
 stream/pubsub.h | 14 ++++++++------
 stream/stream.h | 15 +++++----------
 2 files changed, 13 insertions(+), 16 deletions(-)

diff --git a/stream/pubsub.h b/stream/pubsub.h
index ef4fa48..1607f97 100644
--- a/stream/pubsub.h
+++ b/stream/pubsub.h
@@ -161,6 +161,11 @@ struct ParsedHTTPRequestParams {
   // If set, parse and validate each entry before sending it.
   // If not, skip the validation (using the "unsafe" iteration) to speed up the communication.
   bool checked = false;
+
+  // The earliest timestamp of the records to return, to respect both `since` and `recent`. Zero if there is no such limit.
+  std::chrono::microseconds EarliestTimestamp(std::chrono::microseconds request_timestamp) const {
+    return recent.count() > 0 ? std::max(since, request_timestamp - recent) : since;
+  }
 };
 
 inline ParsedHTTPRequestParams ParsePubSubHTTPRequest(const Request& r) {
@@ -249,12 +254,9 @@ class PubSubHTTPEndpointImpl : public AbstractSubscriberObject {
                 {kStreamHeaderCurrentStreamSize, current::ToString(impl_->persister.Size())},
             }),
             current::net::constants::kDefaultJSONContentType)) {
-    if (params_.recent.count() > 0) {
-      serving_ = false;  // Start in 'non-serving' mode when `recent` is set.
-      from_timestamp_ = r.timestamp - params_.recent;
-    } else if (params_.since.count() > 0) {
-      serving_ = false;  // Start in 'non-serving' mode when `since` is set.
-      from_timestamp_ = params_.since;
+    from_timestamp_ = params_.EarliestTimestamp(http_request_.timestamp);
+    if (from_timestamp_.count() > 0) {
+      serving_ = false;  // Start in 'non-serving' mode when `recent` and/or `since` is set.
     }
     if (params_.n > 0u) {
       n_ = params_.n;
diff --git a/stream/stream.h b/stream/stream.h
index 7834b76..4199730 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -565,23 +565,18 @@ class Stream final {
         }
       }
     } else {
-      uint64_t begin_idx = 0u;
-      std::chrono::microseconds from_timestamp(0);
+      // All the constraints should pass, so begin from what satisfies each of them.
+      uint64_t begin_idx = request_params.i;
+      const std::chrono::microseconds from_timestamp = request_params.EarliestTimestamp(r.timestamp);
       if (request_params.tail) {
         if (request_params.tail == static_cast<uint64_t>(-1)) {
           // Special case for `&tail=0`: act as `tail -f` from the current end of the stream.
-          begin_idx = stream_size;
+          begin_idx = std::max(begin_idx, stream_size);
           request_params.tail = stream_size;
         } else {
           const uint64_t idx_by_tail = request_params.tail < stream_size ? (stream_size - request_params.tail) : 0u;
-          begin_idx = std::max(request_params.i, idx_by_tail);
+          begin_idx = std::max(begin_idx, idx_by_tail);
         }
-      } else if (request_params.recent.count() > 0) {
-        from_timestamp = r.timestamp - request_params.recent;
-      } else if (request_params.since.count() > 0) {
-        from_timestamp = request_params.since;
-      } else {
-        begin_idx = request_params.i;
       }
 
       if (from_timestamp.count() > 0) {
-- 
2.43.0


From be8dbb29ead38f948cd7c2ae67ba86d0ccdc3110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:05 +0000
Subject: [PATCH 63/89] fix: The HTTP subscription should respect the JSON
 format requested

---
 stream/stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index 4199730..52c4b6a 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -593,6 +593,9 @@ class Stream final {
 
       const std::string subscription_id = GenerateRandomHTTPSubscriptionID();
 
+      // The unchecked mode passes along the entries as they are stored, which is in the `Current` format.
+      const bool checked = request_params.checked || !std::is_same_v<J, JSONFormat::Current>;
+
       auto http_chunked_subscriber = std::make_unique<PubSubHTTPEndpoint<entry_t, PERSISTENCE_LAYER, J>>(
           subscription_id, borrowed_impl, std::move(r), std::move(request_params));
       const auto done_callback = [borrowed_impl, subscription_id]() {
@@ -600,7 +603,7 @@ class Stream final {
         borrowed_impl->http_subscriptions[subscription_id].second = nullptr;
       };
       current::stream::SubscriberScope http_chunked_subscriber_scope =
-          request_params.checked ? static_cast<current::stream::SubscriberScope>(
+          checked ? static_cast<current::stream::SubscriberScope>(
                                        Subscribe(*http_chunked_subscriber, begin_idx, from_timestamp, done_callback))
                                  : static_cast<current::stream::SubscriberScope>(SubscribeUnchecked(
                                        *http_chunked_subscriber, begin_idx, from_timestamp, done_callback));
-- 
2.43.0


From 21b66c1bdbfa396b4d214fd6f6184a53d34d0b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:53 +0000
Subject: [PATCH 64/89] fix: The subscription to the records from the future
 should not spin once an earlier one is published

---
 stream/stream.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/stream/stream.h b/stream/stream.h
index 52c4b6a..df94556 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -427,10 +427,11 @@ class Stream final {
           std::unique_lock<std::mutex> lock(impl_->publishing_mutex);
           current::WaitableTerminateSignalBulkNotifier::Scope scope(impl_->notifier, terminate_signal_);
           terminate_signal_.WaitUntil(lock, [this, &index, &begin_idx, &head]() {
+            // NOTE: `head` is in the future if so is the beginning of the subscription, the entries before it are no news.
             return terminate_signal_ ||
-                   impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index ||
-                   (index > begin_idx &&
-                    impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head);
+                   (impl_->persister.template CurrentHead<current::locks::MutexLockStatus::AlreadyLocked>() > head &&
+                    (index > begin_idx ||
+                     impl_->persister.template Size<current::locks::MutexLockStatus::AlreadyLocked>() > index));
           });
         }
       }
-- 
2.43.0


From ccd54c60c04250a82797bfca685dae26feebeac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:07 +0000
Subject: [PATCH 65/89] fix: The subscription past the last entry should not
 get the head that is the timestamp of this entry

---
 stream/stream.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stream/stream.h b/stream/stream.h
index df94556..a0a2852 100644
--- a/stream/stream.h
+++ b/stream/stream.h
@@ -417,7 +417,10 @@ class Stream final {
               return;
             }
             index = size;
-            head = Value(head_idx.idxts).us;
+          }
+          if (size) {
+            // The head that is but the timestamp of the last entry is no news to the one who subscribes past this entry.
+            head = std::max(head, Value(head_idx.idxts).us);
           }
           if (size >= begin_idx && head_idx.head > head && subscriber_(head_idx.head) == ss::EntryResponse::Done) {
             return;
-- 
2.43.0


From 72c3d315d4f2db098a91da4768946900e8c736bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:37:34 +0000
Subject: [PATCH 66/89] fix: The page size in the URL should not be an
 allocation size, nor overflow

---
 storage/rest/hypermedia.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/storage/rest/hypermedia.h b/storage/rest/hypermedia.h
index a0aa1bd..401a815 100644
--- a/storage/rest/hypermedia.h
+++ b/storage/rest/hypermedia.h
@@ -124,7 +124,12 @@ struct HypermediaResponseFormatter {
     bool has_previous_page = false;
     bool has_next_page = false;
     uint64_t current_index = 0;
-    response.data.reserve(static_cast<size_t>(context.query_n));
+    if (context.query_i > total) {
+      context.query_i = total;
+    }
+    // The number of records on this page, as the one from the request can be arbitrarily large.
+    const uint64_t page_n = std::min<uint64_t>(context.query_n, total - context.query_i);
+    response.data.reserve(static_cast<size_t>(page_n));
     for (auto iterator = span.begin(); iterator != span.end(); ++iterator) {
       using iterator_t = decltype(iterator);
       // NOTE(dkorolev): This `iterator` can be of more than three different kinds, among which are:
@@ -134,7 +139,7 @@ struct HypermediaResponseFormatter {
       //    where SE stands for SingleElement.
       // 4) GenericMapAccessor<>.
       // To keep the generic code generic, it's accesses as `iterator`, not via a range-based loop.
-      if (current_index >= context.query_i && current_index < context.query_i + context.query_n) {
+      if (current_index >= context.query_i && current_index < context.query_i + page_n) {
         response.data.resize(response.data.size() + 1);
         collection_element_t& record = response.data.back();
 
@@ -143,7 +148,7 @@ struct HypermediaResponseFormatter {
             record.DataOrBriefByRef(), iterator);
       } else if (current_index < context.query_i) {
         has_previous_page = true;
-      } else if (current_index >= context.query_i + context.query_n) {
+      } else if (current_index >= context.query_i + page_n) {
         has_next_page = true;
         break;
       }
@@ -154,12 +159,9 @@ struct HypermediaResponseFormatter {
       return pagination_url + "?i=" + current::ToString(url_i) + "&n=" + current::ToString(url_n);
     };
 
-    if (context.query_i > total) {
-      context.query_i = total;
-    }
     response.url = gen_page_url(context.query_i, context.query_n);
     response.i = context.query_i;
-    response.n = std::min(context.query_n, total - context.query_i);
+    response.n = page_n;
     response.total = total;
     if (has_previous_page) {
       response.url_previous_page =
-- 
2.43.0


From 78df2aa2e7438810efda45d63dc00ebaa42c8cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 67/89] fix: The default-constructed FnCAS term should be zero,
 not the first variable

---
 fncas/fncas/node.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fncas/fncas/node.h b/fncas/fncas/node.h
index 95a6f1a..fb1eb3f 100644
--- a/fncas/fncas/node.h
+++ b/fncas/fncas/node.h
@@ -284,7 +284,11 @@ struct GenericV : node_index_allocator {
   GenericV(const node_index_allocator& instance) : node_index_allocator(instance) {}
 
  public:
-  GenericV() : node_index_allocator(allocate_new()) {}
+  // The default value is zero, same as the one of the elements of `std::vector<double>`, not the first variable.
+  GenericV() : node_index_allocator(allocate_new()) {
+    type() = NodeType::value;
+    value() = 0.0;
+  }
   GenericV(double_t x) : node_index_allocator(allocate_for_double(), x) {
     type() = NodeType::value;
     value() = x;
-- 
2.43.0


From cdd891c824b1f7eeca22612fa1e630b3232cebb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 68/89] fix: Differentiating an FnCAS expression with shared
 nodes should not take exponential time

---
 fncas/fncas/differentiate.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fncas/fncas/differentiate.h b/fncas/fncas/differentiate.h
index a32bf28..0719ede 100644
--- a/fncas/fncas/differentiate.h
+++ b/fncas/fncas/differentiate.h
@@ -223,6 +223,10 @@ inline node_index_t differentiate_node(node_index_t index, size_t var_index, siz
       stack.pop();
       const node_index_t dependent_i = ~i;
       if (i > dependent_i) {
+        if (growing_vector_access(df, i, static_cast<node_index_t>(-1)) != -1) {
+          // Already differentiated. Without this check, shared nodes are walked once per path, exponentially many times.
+          continue;
+        }
         node_impl& f = node_vector_singleton()[static_cast<size_t>(i)];
         if (f.type() == NodeType::variable && static_cast<size_t>(f.variable()) == var_index) {
           growing_vector_access(df, i, static_cast<node_index_t>(-1)) = one_index;
-- 
2.43.0


From cb1652ae91786f89282f9e74a9356b5e1036ffd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 69/89] fix: Moving an FnCAS gradient should keep it usable

---
 fncas/fncas/differentiate.h | 2 +-
 fncas/fncas/jit.h           | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/fncas/fncas/differentiate.h b/fncas/fncas/differentiate.h
index 0719ede..c883cec 100644
--- a/fncas/fncas/differentiate.h
+++ b/fncas/fncas/differentiate.h
@@ -289,7 +289,7 @@ struct g_impl<JIT::NativeWrapper> : g_super {
   std::function<double_t(const std::vector<double_t>&)> f_;
   size_t dim_;
   g_impl(std::function<double_t(const std::vector<double_t>&)> f, size_t dim) : f_(f), dim_(dim) {}
-  g_impl(g_impl&& rhs) : f_(rhs.f_) {}
+  g_impl(g_impl&& rhs) : f_(rhs.f_), dim_(rhs.dim_) {}
   g_impl() = default;
   g_impl(const g_impl&) = delete;
   void operator=(const g_impl& rhs) {
diff --git a/fncas/fncas/jit.h b/fncas/fncas/jit.h
index e0009a2..d174796 100644
--- a/fncas/fncas/jit.h
+++ b/fncas/fncas/jit.h
@@ -118,7 +118,8 @@ struct compiled_expression final : noncopyable {
         heap_size_(std::move(rhs.heap_size_)),
         function_(std::move(rhs.function_)),
         gradient_(std::move(rhs.gradient_)),
-        lib_filename_(std::move(rhs.lib_filename_)) {
+        lib_filename_(std::move(rhs.lib_filename_)),
+        gradient_indexes_(std::move(rhs.gradient_indexes_)) {
     rhs.lib_ = nullptr;
   }
 
-- 
2.43.0


From 5ca9741242921d4054111cf79f3c403a2cf8307a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:10 +0000
Subject: [PATCH 70/89] fix: The optimizers should not return a point worse
 than the one they started from

---
 fncas/fncas/optimize.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/fncas/fncas/optimize.h b/fncas/fncas/optimize.h
index 6b4a609..19c4f5f 100644
--- a/fncas/fncas/optimize.h
+++ b/fncas/fncas/optimize.h
@@ -584,6 +584,9 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
       current.value *= -1;
     }
 
+    // Backtracking may run out of steps with no improvement, so the last point is not necessarily the best one.
+    ValueAndPoint best(current);
+
     {
       OptimizerStats stats("GradientDescentOptimizerBT");
       for (iteration = 0; iteration < max_steps; ++iteration) {
@@ -638,6 +641,9 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
           }
 
           current = next;
+          if (!(best.value <= current.value)) {
+            best = current;
+          }
         } catch (const exceptions::BacktrackingException&) {
           logger.Log("GradientDescentOptimizerBT: Terminating due to no backtracking step possible.");
           break;
@@ -645,6 +651,7 @@ struct OptimizeImpl<GradientDescentOptimizerBTSelector, DIRECTION> {
       }
     }
 
+    current = best;
     if (DIRECTION == OptimizationDirection::Maximize) {
       current.value *= -1;
     }
@@ -742,6 +749,9 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
     logger.Log("ConjugateGradientOptimizer: Begin at " + super.PointAsString(starting_point));
     size_t iteration;
     int no_improvement_steps = 0;
+    // Backtracking may run out of steps with no improvement, so the last point is not necessarily the best one.
+    ValueAndPoint best(current);
+
     {
       OptimizerStats stats("ConjugateGradientOptimizer");
       for (iteration = 0; iteration < max_steps; ++iteration) {
@@ -793,6 +803,9 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
           }
 
           current = next;
+          if (!(best.value <= current.value)) {
+            best = current;
+          }
           current_gradient = new_gradient;
 
           // Simple early stopping by the norm of the gradient.
@@ -806,6 +819,7 @@ struct OptimizeImpl<ConjugateGradientOptimizerSelector, DIRECTION> {
       }
     }
 
+    current = best;
     if (DIRECTION == OptimizationDirection::Maximize) {
       current.value *= -1;
     }
-- 
2.43.0


From a9fc42001687cff5771d00683563ff7f8df58392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:42 +0000
Subject: [PATCH 71/89] fix: Karl's snapshot endpoint returned the keepalive
 before the latest one, possibly of another service

---
 karl/karl.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/karl/karl.h b/karl/karl.h
index c48e313..2f720dd 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -552,7 +552,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
             {
               std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
               latest_keepalive_index_plus_one_[parsed_status.codename] =
-                  keepalives_stream_->Publisher()->Publish(std::move(record)).index;
+                  keepalives_stream_->Publisher()->Publish(std::move(record)).index + 1;
             }
           }
 
-- 
2.43.0


From 21bdde3aa630782776e99e7ccb4d2b6097d15ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 72/89] fix: After a restart of Karl the services that are gone
 were never timed out

---
 karl/karl.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/karl/karl.h b/karl/karl.h
index 2f720dd..6f4513c 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -330,11 +330,15 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           const auto now = current::time::Now();
           // Pre-populate services marked as `Active` due to abrupt shutdown into the cache.
           // This will help to eventually mark non-active services as `DisconnectedByTimeout`.
+          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
           for (const auto& claire : fields.claires) {
             if (claire.registered_state == ClaireRegisteredState::Active) {
               services_keepalive_time_cache_[claire.codename] = now;
             }
           }
+          // The state update thread, already running, may be waiting for the cache to become non-empty.
+          state_update_thread_force_wakeup_ = true;
+          update_thread_condition_variable_.notify_one();
         })
         .Wait();
   }
-- 
2.43.0


From cef4cc0bedc2338db5bd9add6875151af9e3c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:36 +0000
Subject: [PATCH 73/89] fix: Karl's snapshot endpoint read the index of the
 latest keepalive without the mutex it is updated under

---
 karl/karl.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index 6f4513c..810e931 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -737,14 +737,14 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
   void ServeSnapshot(Request r) {
     const auto codename = r.url_path_args[0];
 
-    uint64_t& index_placeholder = [&]() {
+    uint64_t index = [&]() -> uint64_t {
       std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
-      return std::ref(latest_keepalive_index_plus_one_[codename]);
+      const auto cit = latest_keepalive_index_plus_one_.find(codename);
+      return cit != latest_keepalive_index_plus_one_.end() ? cit->second : 0u;
     }();
 
     const auto& keepalives_data = keepalives_stream_->Data();
 
-    uint64_t index = index_placeholder;
     if (!index) {
       // If no latest keepalive index in cache, go through the whole log.
       for (const auto& e : keepalives_data->Iterate()) {
@@ -754,6 +754,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
       }
       if (index) {
         std::lock_guard<std::mutex> lock(latest_keepalive_index_mutex_);
+        uint64_t& index_placeholder = latest_keepalive_index_plus_one_[codename];
         index_placeholder = std::max(index_placeholder, index);
       }
     }
-- 
2.43.0


From 357e28113d2e915a44d101cca1c74f8050716e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:25:31 +0000
Subject: [PATCH 74/89] fix: Karl could time out a service right after its
 keepalive, or after it was deregistered

---
 karl/karl.h | 78 +++++++++++++++++++++++++++++++++--------------------
 1 file changed, 49 insertions(+), 29 deletions(-)

diff --git a/karl/karl.h b/karl/karl.h
index 810e931..f81581d 100644
--- a/karl/karl.h
+++ b/karl/karl.h
@@ -386,13 +386,11 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
       std::chrono::microseconds most_recent_keepalive_time(0);
       {
         std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
-        for (auto it = services_keepalive_time_cache_.cbegin(); it != services_keepalive_time_cache_.cend();) {
-          if ((now - it->second) > parameters_.service_timeout_interval) {
-            timeouted_codenames.insert(it->first);
-            services_keepalive_time_cache_.erase(it++);
+        for (const auto& service : services_keepalive_time_cache_) {
+          if ((now - service.second) > parameters_.service_timeout_interval) {
+            timeouted_codenames.insert(service.first);
           } else {
-            most_recent_keepalive_time = std::max(it->second, most_recent_keepalive_time);
-            ++it;
+            most_recent_keepalive_time = std::max(service.second, most_recent_keepalive_time);
           }
         }
       }
@@ -400,8 +398,22 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
         auto& notifiable_ref = notifiable_ref_;
         storage_
             ->ReadWriteTransaction(
-                [&timeouted_codenames, now, &notifiable_ref](MutableFields<storage_t> fields) -> void {
+                [this, &timeouted_codenames, &most_recent_keepalive_time, now, &notifiable_ref](
+                    MutableFields<storage_t> fields) -> void {
                   for (const auto& codename : timeouted_codenames) {
+                    {
+                      // By now, the service may have sent another keepalive, or have deregistered itself.
+                      std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                      const auto it = services_keepalive_time_cache_.find(codename);
+                      if (it == services_keepalive_time_cache_.end()) {
+                        continue;
+                      }
+                      if ((now - it->second) <= parameters_.service_timeout_interval) {
+                        most_recent_keepalive_time = std::max(it->second, most_recent_keepalive_time);
+                        continue;
+                      }
+                      services_keepalive_time_cache_.erase(it);
+                    }
                     const auto& current_claire_info = fields.claires[codename];
                     // OK to call from within a transaction.
                     // The call is fast, and `storage_`'s transaction guarantees thread
@@ -467,7 +479,7 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
         auto& notifiable_ref = notifiable_ref_;
         storage_
             ->ReadWriteTransaction(
-                [codename, now, &notifiable_ref](MutableFields<storage_t> fields) -> Response {
+                [this, codename, now, &notifiable_ref](MutableFields<storage_t> fields) -> Response {
                   const auto& current_claire_info = fields.claires[codename];
                   // OK to call from within a transaction.
                   // The call is fast, and `storage_`'s transaction guarantees thread safety. -- D.K.
@@ -480,17 +492,18 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
                   }
                   claire.registered_state = ClaireRegisteredState::Deregistered;
                   fields.claires.Add(claire);
+                  {
+                    // Delete this `codename` from cache. From within the transaction, for the service
+                    // not to be reported as timed out after it has been deregistered.
+                    std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                    services_keepalive_time_cache_.erase(codename);
+                    state_update_thread_force_wakeup_ = true;
+                    update_thread_condition_variable_.notify_one();
+                  }
                   return Response("OK\n");
                 },
                 std::move(r))
             .Wait();  // NOTE(dkorolev): Could be `.Detach()`, but staying "safe" within Karl for now.
-        {
-          // Delete this `codename` from cache.
-          std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
-          services_keepalive_time_cache_.erase(codename);
-          state_update_thread_force_wakeup_ = true;
-          update_thread_condition_variable_.notify_one();
-        }
       } else {
         // Respond with "200 OK" in any case.
         r("NOP\n");
@@ -569,8 +582,13 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
           auto& notifiable_ref = notifiable_ref_;
           storage_
               ->ReadWriteTransaction(
-                  [now, location, &parsed_status, &detailed_parsed_status, optional_behind_this_by, &notifiable_ref](
-                      MutableFields<storage_t> fields) -> Response {
+                  [this,
+                   now,
+                   location,
+                   &parsed_status,
+                   &detailed_parsed_status,
+                   optional_behind_this_by,
+                   &notifiable_ref](MutableFields<storage_t> fields) -> Response {
                     // OK to call from within a transaction.
                     // The call is fast, and `storage_`'s transaction guarantees thread safety. -- D.K.
                     notifiable_ref.OnKeepalive(now, location, parsed_status.codename, detailed_parsed_status);
@@ -657,22 +675,24 @@ class GenericKarl final : private KarlStorage<STORAGE_TYPE>,
 
                       fields.claires.Add(claire);
                     }
+                    {
+                      // From within the transaction, for the service not to be timed out
+                      // after this very keepalive has been accounted for.
+                      std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
+                      auto& placeholder = services_keepalive_time_cache_[codename];
+                      if (placeholder.count() == 0) {
+                        placeholder = now;
+                        // Wake up state update thread only if the new codename has appeared in the cache.
+                        state_update_thread_force_wakeup_ = true;
+                        update_thread_condition_variable_.notify_one();
+                      } else {
+                        placeholder = now;
+                      }
+                    }
                     return Response("OK\n");
                   },
                   std::move(r))
               .Wait();
-          {
-            std::lock_guard<std::mutex> lock(services_keepalive_cache_mutex_);
-            auto& placeholder = services_keepalive_time_cache_[parsed_status.codename];
-            if (placeholder.count() == 0) {
-              placeholder = now;
-              // Wake up state update thread only if the new codename has appeared in the cache.
-              state_update_thread_force_wakeup_ = true;
-              update_thread_condition_variable_.notify_one();
-            } else {
-              placeholder = now;
-            }
-          }
         } else {
           r("Inconsistent URL/body parameters.\n", HTTPResponseCode.BadRequest);
         }
-- 
2.43.0


From db9eab78b30d54c784751f1e3b2ca6a7b3189a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 75/89] fix: Claire recorded the failure to reach Karl without
 the mutex its status is read under

---
 karl/claire.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/karl/claire.h b/karl/claire.h
index 60e40a0..1ea3dee 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -389,7 +389,10 @@ class GenericClaire final : private DummyClaireNotifiable {
         }
       }
     } catch (const current::Exception& e) {
-      last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
+      {
+        std::lock_guard<std::mutex> lock(status_mutex_);
+        last_keepalive_attempt_result_.status = KeepaliveAttemptStatus::CouldNotConnect;
+      }
       error_message = e.DetailedDescription();
     }
     // OK to throw here. In the thread that sends repeated keepalives, this exception would be caught,
-- 
2.43.0


From 4fc422d9a3267916fa1534b6d8ffad7c88a796df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:26 +0000
Subject: [PATCH 76/89] fix: Registering Claire after it has been asked to send
 a keepalive should not terminate the process

---
 karl/claire.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 1ea3dee..62b9196 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -347,13 +347,8 @@ class GenericClaire final : private DummyClaireNotifiable {
         // A condition variable or a `WaitableAtomic` is a cleaner solution here; for now, just sleep.
         std::this_thread::sleep_for(std::chrono::milliseconds(1));
       }
-    } else {
-      // TODO(dkorolev), #FIXME_DIMA: This should not happen.
-      // LCOV_EXCL_START
-      std::cerr << "Already have `keepalive_thread_running_` in Claire::StartKeepaliveThread().\n";
-      std::exit(-1);
-      // LCOV_EXCL_STOP
     }
+    // Otherwise nothing to do: the thread has been started by `ForceSendKeepalive()` prior to `Register()`.
   }
 
   // Sends a keepalive message to Karl.
-- 
2.43.0


From 61ab9a5496bd7292af4069f02e3955fda979746a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:46:43 +0000
Subject: [PATCH 77/89] fix: Claire served its status page while its
 dependencies or the address of Karl were being changed

---
 karl/claire.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/karl/claire.h b/karl/claire.h
index 62b9196..b4972ae 100644
--- a/karl/claire.h
+++ b/karl/claire.h
@@ -149,26 +149,31 @@ class GenericClaire final : private DummyClaireNotifiable {
 
   void AddDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
     dependencies_.insert(service);
   }
 
   void AddDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
     dependencies_.insert(service);
   }
 
   void SetDependencies(const std::vector<std::string>& services) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
     dependencies_ = ParseDependencies(services);
   }
 
   void RemoveDependency(const std::string& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
     dependencies_.erase(service);
   }
 
   void RemoveDependency(const ClaireServiceKey& service) {
     std::unique_lock<std::mutex> lock(keepalive_mutex_);
+    std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
     dependencies_.erase(service);
   }
 
@@ -237,7 +242,10 @@ class GenericClaire final : private DummyClaireNotifiable {
                       ForceSendKeepaliveWaitRequest wait_for_keepalive = ForceSendKeepaliveWaitRequest::DoNotWait) {
     {
       std::lock_guard<std::mutex> lock(keepalive_mutex_);
-      karl_ = new_karl_locator;
+      {
+        std::lock_guard<std::mutex> inner_lock(karl_and_dependencies_mutex_);
+        karl_ = new_karl_locator;
+      }
       karl_keepalive_route_ = KarlKeepaliveRoute(karl_, codename_, port_);
       notifiable_ref_.OnKarlLocatorChanged(new_karl_locator);
     }
@@ -280,8 +288,11 @@ class GenericClaire final : private DummyClaireNotifiable {
     status.start_time_epoch_microseconds = us_start_;
 
     status.local_port = port_;
-    status.dependencies.assign(dependencies_.begin(), dependencies_.end());
-    status.reporting_to = karl_.address_port_route;
+    {
+      std::lock_guard<std::mutex> lock(karl_and_dependencies_mutex_);
+      status.dependencies.assign(dependencies_.begin(), dependencies_.end());
+      status.reporting_to = karl_.address_port_route;
+    }
 
     status.now = now;
 
@@ -529,6 +540,10 @@ class GenericClaire final : private DummyClaireNotifiable {
 
   const std::chrono::microseconds us_start_;
 
+  // Guards `karl_` and `dependencies_`, as the status page is served without `keepalive_mutex_`, which is being held
+  // for as long as the keepalive is in flight. Should be locked last.
+  mutable std::mutex karl_and_dependencies_mutex_;
+
   mutable std::mutex status_mutex_;
   status_generator_t status_generator_;
   ClaireStatus boilerplate_status_;
-- 
2.43.0


From 42ae4df640a7adb497361cf54eb6de230e9f2d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:33 +0000
Subject: [PATCH 78/89] fix: Reading by lines a file that does not exist or can
 not be read should throw, not see it as empty

---
 bricks/file/file.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 9af3fb7..98e3e59 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -99,13 +99,16 @@ struct FileSystem {
   static inline void ReadFileByLines(const std::string& file_name, F&& f) {
     try {
       std::ifstream fi(file_name);
-      if (fi.bad()) {
+      if (!fi) {
         CURRENT_THROW(CannotReadFileException(file_name));
       }
       std::string line;
       while (std::getline(fi, line)) {
         f(std::move(line));
       }
+      if (fi.bad()) {
+        CURRENT_THROW(CannotReadFileException(file_name));
+      }
     } catch (const std::ifstream::failure&) {
       CURRENT_THROW(CannotReadFileException(file_name));
     }
-- 
2.43.0


From c900fa3d36dec2d18b557be413f0afa67626bf59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:33 +0000
Subject: [PATCH 79/89] fix: A recursive ScanDirUntil() should stop when told
 to from within a subdirectory

---
 bricks/file/file.h | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index 98e3e59..cbea95a 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -256,8 +256,9 @@ struct FileSystem {
     return (*name && ::strcmp(name, ".") && ::strcmp(name, ".."));
   }
 
+  // Returns `false` if the scan was stopped by the handler.
   template <typename ITEM_HANDLER>
-  static inline void ScanDirUntil(const std::string& directory,
+  static inline bool ScanDirUntil(const std::string& directory,
                                   ITEM_HANDLER&& item_handler,
                                   ScanDirParameters parameters = ScanDirParameters::ListFilesOnly,
                                   ScanDirRecursive recursive = ScanDirRecursive::No,
@@ -284,7 +285,7 @@ struct FileSystem {
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
               if (!item_handler(ScanDirItemInfo(
                       directory, name, JoinPath(directory, name), is_directory, context.path_components))) {
-                return;
+                return false;
               }
             }
           }
@@ -311,7 +312,7 @@ struct FileSystem {
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
               if (!item_handler(
                       ScanDirItemInfo(directory, name, std::move(path), is_directory, context.path_components))) {
-                return;
+                return false;
               }
             }
           }
@@ -326,10 +327,11 @@ struct FileSystem {
         }
       }
 #endif
+      return true;
     } else {
       // Inner lambdas have distinct types thus creating template instantiation limit,
       // which is fixed by casting the lambda to its canonical type.
-      ScanDirUntil(directory,
+      return ScanDirUntil(directory,
                    static_cast<const std::function<bool(const ScanDirItemInfo&)>>(
                        [&item_handler, parameters, &context](const ScanDirItemInfo& item_info) {
                          const ScanDirParameters mask = item_info.is_directory ? ScanDirParameters::ListDirsOnly
@@ -343,11 +345,11 @@ struct FileSystem {
                            context.path_components.push_back(item_info.basename);
                            const auto guard =
                                current::MakeScopeGuard([&context]() { context.path_components.pop_back(); });
-                           ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
-                                                      std::forward<ITEM_HANDLER>(item_handler),
-                                                      parameters,
-                                                      ScanDirRecursive::Yes,
-                                                      context);
+                           return ScanDirUntil<ITEM_HANDLER>(item_info.pathname,
+                                                             std::forward<ITEM_HANDLER>(item_handler),
+                                                             parameters,
+                                                             ScanDirRecursive::Yes,
+                                                             context);
                          }
                          return true;
                        }),
-- 
2.43.0


From ce8701d9049d9ef7c15305a3a098b655d5146789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:11:42 +0000
Subject: [PATCH 80/89] fix: Removing a directory recursively should remove the
 symbolic links in it, not what they lead to

---
 bricks/file/file.h | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index cbea95a..e6e22ea 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -172,6 +172,16 @@ struct FileSystem {
     }
   }
 
+  static inline bool IsSymLink(const std::string& file_or_directory_name) {
+#ifndef CURRENT_WINDOWS
+    struct stat info;
+    return !::lstat(file_or_directory_name.c_str(), &info) && S_ISLNK(info.st_mode);
+#else
+    static_cast<void>(file_or_directory_name);
+    return false;
+#endif
+  }
+
   static inline uint64_t GetFileSize(const std::string& file_name) {
     struct stat info;
     if (::stat(file_name.c_str(), &info)) {
@@ -302,11 +312,13 @@ struct FileSystem {
         while (struct dirent* entry = ::readdir(dir)) {
           const char* const name = entry->d_name;
           if (ScanDirCanHandleName(name)) {
-            // `IsDir` is proved to be required on Ubuntu running in Parallels on a Mac,
+            // `::stat` is proved to be required on Ubuntu running in Parallels on a Mac,
             // with Bricks' directory mounted from Mac's filesystem.
             // `entry->d_type` is always zero there, see http://comments.gmane.org/gmane.comp.lib.libcg.devel/4236
             std::string path = JoinPath(directory, name);
-            const bool is_directory = IsDir(path);
+            // A symbolic link which leads nowhere is not a directory.
+            struct stat info;
+            const bool is_directory = !::stat(path.c_str(), &info) && S_ISDIR(info.st_mode);
             const ScanDirParameters mask =
                 is_directory ? ScanDirParameters::ListDirsOnly : ScanDirParameters::ListFilesOnly;
             if (static_cast<int>(parameters) & static_cast<int>(mask)) {
@@ -427,7 +439,7 @@ struct FileSystem {
         ScanDir(
             directory,
             [parameters](const ScanDirItemInfo& item_info) {
-              if (item_info.is_directory) {
+              if (item_info.is_directory && !IsSymLink(item_info.pathname)) {
                 RmDir(item_info.pathname, parameters, RmDirRecursive::Yes);
               } else {
                 RmFile(item_info.pathname,
-- 
2.43.0


From c6cb10bebbd113b680a581ac332fd3de7378b91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:24 +0000
Subject: [PATCH 81/89] fix: Reading a directory as a file should throw the
 exception for the file, not std::length_error

---
 bricks/file/file.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bricks/file/file.h b/bricks/file/file.h
index e6e22ea..9b9bb76 100644
--- a/bricks/file/file.h
+++ b/bricks/file/file.h
@@ -33,6 +33,7 @@ SOFTWARE.
 #include <fstream>
 #include <string>
 #include <cstring>
+#include <stdexcept>
 #include <vector>
 #include <memory>
 #include <functional>
@@ -92,6 +93,9 @@ struct FileSystem {
       }
     } catch (const std::ifstream::failure&) {
       CURRENT_THROW(CannotReadFileException(file_name));
+    } catch (const std::length_error&) {
+      // The "size" of a directory.
+      CURRENT_THROW(CannotReadFileException(file_name));
     }
   }
 
-- 
2.43.0


From 19a0e765843b61051d6e79d218348b3582aeb715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:57 +0000
Subject: [PATCH 82/89] fix: Universal JSON numbers which do not fit 64-bit
 integers were composed as other numbers

---
 blocks/json/json.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index 6ad0f55..bf85952 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -83,7 +83,8 @@ CURRENT_STRUCT(JSONNumber) {
   CURRENT_CONSTRUCTOR(JSONNumber)(double number = 0) : number(number) {}
   operator double() const { return number; }
   void DoAppendToJSON(std::ostream & os) const {
-    if (number == std::floor(number)) {
+    // Only if the value does fit the integer type: 2^63 and 2^64 respectively.
+    if (number == std::floor(number) && number >= -9223372036854775808.0 && number < 18446744073709551616.0) {
       if (number < 0) {
         os << JSON(static_cast<int64_t>(number));
       } else {
-- 
2.43.0


From 9f4be48316033902765b8ab103d9d52afa668a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:19:57 +0000
Subject: [PATCH 83/89] fix: A universal JSON object parsed with a repeated key
 should have this key once

---
 blocks/json/json.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/blocks/json/json.h b/blocks/json/json.h
index bf85952..2be1401 100644
--- a/blocks/json/json.h
+++ b/blocks/json/json.h
@@ -221,8 +221,7 @@ inline JSONValue ParseJSONUniversally(rapidjson::Value& value) {
     for (rapidjson::Value::MemberIterator cit = value.MemberBegin(); cit != value.MemberEnd(); ++cit) {
       std::string key;
       key.assign(cit->name.GetString(), cit->name.GetStringLength());
-      retval.keys.push_back(key);
-      retval.fields.emplace(std::move(key), ParseJSONUniversally(cit->value));
+      retval.push_back(key, ParseJSONUniversally(cit->value));
     }
     return retval;
   } else if (value.IsArray()) {
-- 
2.43.0


From 87ab286c1fa107df99ceacb4b07473511c8a799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:10 +0000
Subject: [PATCH 84/89] fix: Negative lookaheads and escaped backslashes in a
 named regex shifted the names of its groups

---
 bricks/strings/regex.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/bricks/strings/regex.h b/bricks/strings/regex.h
index aca81a9..0f9d1d7 100644
--- a/bricks/strings/regex.h
+++ b/bricks/strings/regex.h
@@ -65,11 +65,17 @@ class NamedRegexCapturer {
     Data(std::string re_body) {
       // This regex requires explanation.
       // 1) Must begin with a non-escaped "(".
-      // 2) Must not begin with "(?:" or "(?=".
+      // 2) Must not begin with "(?:", "(?=", or "(?!".
       // 3) May, but does not have to be "(?<...>").
-      const std::regex re_capture_groups("\\((?!\\?:)(?!\\?=)(\\?<(\\w+)>)?");
+      const std::regex re_capture_groups("\\((?!\\?:)(?!\\?=)(?!\\?!)(\\?<(\\w+)>)?");
       for (const auto& capture_group : current::strings::IterateByRegexMatches(re_capture_groups, re_body)) {
-        if (!capture_group.position() || re_body[capture_group.position() - 1u] != '\\') {
+        // The parenthesis is escaped if preceded by an odd number of backslashes, as the backslash can be escaped too.
+        size_t backslashes = 0u;
+        while (backslashes < static_cast<size_t>(capture_group.position()) &&
+               re_body[capture_group.position() - 1u - backslashes] == '\\') {
+          ++backslashes;
+        }
+        if (backslashes % 2u == 0u) {
           const std::string name = capture_group[2].str();
           if (!name.empty()) {
             group_indexes[name] = group_names.size() + 1u;
-- 
2.43.0


From e8f5a2271dcb5206b58c338faacfdf09d184ed62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 85/89] fix: Setting OnDone() of a chunked HTTP request after
 OnLine() dropped the latter

---
 blocks/http/types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/blocks/http/types.h b/blocks/http/types.h
index 6d311c3..45ffb01 100644
--- a/blocks/http/types.h
+++ b/blocks/http/types.h
@@ -129,7 +129,6 @@ struct ChunkedBase {
   }
   T& OnDone(std::function<void()> done_callback) {
     this->done_callback_impl = done_callback;
-    group_by_lines_.clear();
     return static_cast<T&>(*this);
   }
 
@@ -156,6 +155,8 @@ struct ChunkedBase {
   }
 
   void done_callback_wrapper() {
+    // To have the last line, if it does not end with a newline, passed on before it is announced there are no more.
+    group_by_lines_.clear();
     if (done_callback_impl) {
       done_callback_impl();
     }
-- 
2.43.0


From 6610f244bdd1e25cc1b237726b904cfb2ee99157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:30:20 +0000
Subject: [PATCH 86/89] fix: The HTTP client should not send the fragment of
 the URL to the server

---
 blocks/http/impl/posix_client.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/blocks/http/impl/posix_client.h b/blocks/http/impl/posix_client.h
index 45586e2..7817dd6 100644
--- a/blocks/http/impl/posix_client.h
+++ b/blocks/http/impl/posix_client.h
@@ -96,8 +96,11 @@ class GenericHTTPClientPOSIX final {
         }
       }
       current::net::Connection connection(current::net::Connection(current::net::ClientSocket(parsed_url.host, port)));
+      // The fragment of the URL is not for the server to see.
+      URL requested_url(parsed_url);
+      requested_url.fragment.clear();
       connection.BlockingWrite(
-          request_method_ + ' ' + parsed_url.path + parsed_url.ComposeParameters() + " HTTP/1.1\r\n", true);
+          request_method_ + ' ' + requested_url.path + requested_url.ComposeParameters() + " HTTP/1.1\r\n", true);
       connection.BlockingWrite("Host: " + parsed_url.host + "\r\n", true);
       if (!request_user_agent_.empty()) {
         connection.BlockingWrite("User-Agent: " + request_user_agent_ + "\r\n", true);
-- 
2.43.0


From 9a18491e88bb402537f56f0002d00fb0a05373e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:10 +0000
Subject: [PATCH 87/89] fix: NLP schema blocks of the same type should not
 share the function of the first one

---
 nlp/nlp.h | 72 +++++++++++++++++++++++++++----------------------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/nlp/nlp.h b/nlp/nlp.h
index 364d0a1..a32a082 100644
--- a/nlp/nlp.h
+++ b/nlp/nlp.h
@@ -112,7 +112,7 @@ template <typename ANNOTATED_QUERY_TERM, class IMPL>
 struct UnitImpl {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = Unit;
-  const IMPL& impl_;
+  const IMPL impl_;
   explicit UnitImpl(const IMPL& impl) : impl_(impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -139,8 +139,8 @@ template <typename ANNOTATED_QUERY_TERM,
 struct OrImplWithVariant {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = EMITTED_TYPE;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   OrImplWithVariant(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -156,8 +156,8 @@ struct OrImplSameType {
   static_assert(!std::is_same_v<TYPE, Unit>, "");
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = TYPE;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   OrImplSameType(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -172,8 +172,8 @@ template <typename ANNOTATED_QUERY_TERM, class LHS_IMPL, class RHS_IMPL>
 struct OrImplUnitUnit {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = Unit;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   OrImplUnitUnit(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -269,8 +269,8 @@ template <typename ANNOTATED_QUERY_TERM, class LHS_IMPL, class RHS_IMPL>
 struct AndImpl {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = current::metaprogramming::tuple_cat_t<typename LHS_IMPL::emitted_t, typename RHS_IMPL::emitted_t>;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   AndImpl(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -301,8 +301,8 @@ struct SeqImpl<L2R, ANNOTATED_QUERY_TERM, LHS_IMPL, RHS_IMPL, LHS_TYPE, RHS_TYPE
   static_assert(!std::is_same_v<RHS_TYPE, Unit>, "");
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = current::metaprogramming::tuple_cat_t<LHS_TYPE, RHS_TYPE>;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   SeqImpl(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -325,8 +325,8 @@ struct SeqImpl<R2L, ANNOTATED_QUERY_TERM, LHS_IMPL, RHS_IMPL, LHS_TYPE, RHS_TYPE
   static_assert(!std::is_same_v<RHS_TYPE, Unit>, "");
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = current::metaprogramming::tuple_cat_t<LHS_TYPE, RHS_TYPE>;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   SeqImpl(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -348,8 +348,8 @@ struct SeqImplUnitInRHS {
   static_assert(!std::is_same_v<LHS_TYPE, Unit>, "");
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = LHS_TYPE;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   SeqImplUnitInRHS(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -370,8 +370,8 @@ struct SeqImplUnitInLHS {
   static_assert(!std::is_same_v<RHS_TYPE, Unit>, "");
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = RHS_TYPE;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   SeqImplUnitInLHS(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -389,8 +389,8 @@ template <typename ANNOTATED_QUERY_TERM, class LHS_IMPL, class RHS_IMPL>
 struct SeqImplUnitUnit {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = Unit;
-  const LHS_IMPL& lhs_impl_;
-  const RHS_IMPL& rhs_impl_;
+  const LHS_IMPL lhs_impl_;
+  const RHS_IMPL rhs_impl_;
   SeqImplUnitUnit(const LHS_IMPL& impl, const RHS_IMPL& rhs_impl) : lhs_impl_(impl), rhs_impl_(rhs_impl) {}
   void EvalImpl(const ::current::nlp::AnnotatedQuery<annotated_query_term_t>& query,
                 size_t begin,
@@ -459,7 +459,7 @@ struct MapImpl {
   using input_t = typename IMPL::emitted_t;
   using emitted_t = OUTPUT_TYPE;
   using map_function_t = std::function<void(const input_t& input, emitted_t& output)>;
-  const IMPL& impl_;
+  const IMPL impl_;
   map_function_t map_function_;
   MapImpl(const IMPL& impl, map_function_t map_function) : impl_(impl), map_function_(map_function) {}
 
@@ -480,7 +480,7 @@ struct FilterImpl {
   using annotated_query_term_t = ANNOTATED_QUERY_TERM;
   using emitted_t = typename IMPL::emitted_t;
   using filter_function_t = std::function<bool(const emitted_t& input)>;
-  const IMPL& impl_;
+  const IMPL impl_;
   filter_function_t filter_function_;
   FilterImpl(const IMPL& impl, filter_function_t map_function) : impl_(impl), filter_function_(map_function) {}
 
@@ -505,7 +505,7 @@ struct SchemaBlock {
 
   mutable std::string name_;  // `mutable` for `InjectName` to remain `const`.
   const std::string type_;
-  const IMPL& impl_;  // Const reference as all `IMPL`-s are static.
+  const IMPL impl_;
 
   SchemaBlock(std::string name, const IMPL& impl)
       : name_(std::move(name)), type_(current::reflection::CurrentTypeName<emitted_t>()), impl_(impl) {}
@@ -526,55 +526,55 @@ struct SchemaBlock {
   template <class RHS_IMPL>
   SchemaBlock<annotated_query_term_t, impl::AndImpl<annotated_query_term_t, IMPL, RHS_IMPL>> operator&(
       const SchemaBlock<annotated_query_term_t, RHS_IMPL>& rhs) const {
-    static impl::AndImpl<annotated_query_term_t, IMPL, RHS_IMPL> static_and_impl(impl_, rhs.impl_);
+    const impl::AndImpl<annotated_query_term_t, IMPL, RHS_IMPL> composed_impl(impl_, rhs.impl_);
     return SchemaBlock<annotated_query_term_t, impl::AndImpl<annotated_query_term_t, IMPL, RHS_IMPL>>(
-        '(' + name_ + " & " + rhs.name_ + ')', static_and_impl);
+        '(' + name_ + " & " + rhs.name_ + ')', composed_impl);
   }
 
   template <class RHS_IMPL>
   SchemaBlock<annotated_query_term_t, impl::OrImpl<annotated_query_term_t, IMPL, RHS_IMPL>> operator|(
       const SchemaBlock<annotated_query_term_t, RHS_IMPL>& rhs) const {
-    static impl::OrImpl<annotated_query_term_t, IMPL, RHS_IMPL> static_or_impl(impl_, rhs.impl_);
+    const impl::OrImpl<annotated_query_term_t, IMPL, RHS_IMPL> composed_impl(impl_, rhs.impl_);
     return SchemaBlock<annotated_query_term_t, impl::OrImpl<annotated_query_term_t, IMPL, RHS_IMPL>>(
-        '(' + name_ + " | " + rhs.name_ + ')', static_or_impl);
+        '(' + name_ + " | " + rhs.name_ + ')', composed_impl);
   }
 
   template <class RHS_IMPL>
   SchemaBlock<annotated_query_term_t, impl::L2RSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL>> operator>>(
       const SchemaBlock<annotated_query_term_t, RHS_IMPL>& rhs) const {
-    static impl::L2RSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL> static_l2r_impl(impl_, rhs.impl_);
+    const impl::L2RSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL> composed_impl(impl_, rhs.impl_);
     return SchemaBlock<annotated_query_term_t, impl::L2RSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL>>(
-        '(' + name_ + " >> " + rhs.name_ + ')', static_l2r_impl);
+        '(' + name_ + " >> " + rhs.name_ + ')', composed_impl);
   }
 
   template <class RHS_IMPL>
   SchemaBlock<annotated_query_term_t, impl::R2LSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL>> operator<<(
       const SchemaBlock<annotated_query_term_t, RHS_IMPL>& rhs) const {
-    static impl::R2LSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL> static_r2l_impl(impl_, rhs.impl_);
+    const impl::R2LSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL> composed_impl(impl_, rhs.impl_);
     return SchemaBlock<annotated_query_term_t, impl::R2LSeqImpl<annotated_query_term_t, IMPL, RHS_IMPL>>(
-        '(' + name_ + " << " + rhs.name_ + ')', static_r2l_impl);
+        '(' + name_ + " << " + rhs.name_ + ')', composed_impl);
   }
 
   SchemaBlock<annotated_query_term_t, impl::UnitImpl<annotated_query_term_t, IMPL>> UnitHelper() const {
-    static impl::UnitImpl<annotated_query_term_t, IMPL> static_unit_impl(impl_);
+    const impl::UnitImpl<annotated_query_term_t, IMPL> composed_impl(impl_);
     return SchemaBlock<annotated_query_term_t, impl::UnitImpl<annotated_query_term_t, IMPL>>(
-        std::string("Void(") + name_ + ')', static_unit_impl);
+        std::string("Void(") + name_ + ')', composed_impl);
   }
 
   template <class OUTPUT_TYPE>
   SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>> MapHelper(
       typename impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>::map_function_t map_function) const {
-    static impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE> static_map_impl(impl_, map_function);
+    const impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE> composed_impl(impl_, map_function);
     return SchemaBlock<annotated_query_term_t, impl::MapImpl<annotated_query_term_t, IMPL, OUTPUT_TYPE>>(
         std::string("Map(") + name_ + ", " + current::reflection::CurrentTypeName<OUTPUT_TYPE>() + ')',
-        static_map_impl);
+        composed_impl);
   }
 
   SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL>> FilterHelper(
       typename impl::FilterImpl<annotated_query_term_t, IMPL>::filter_function_t filter_function) const {
-    static impl::FilterImpl<annotated_query_term_t, IMPL> static_filter_impl(impl_, filter_function);
+    const impl::FilterImpl<annotated_query_term_t, IMPL> composed_impl(impl_, filter_function);
     return SchemaBlock<annotated_query_term_t, impl::FilterImpl<annotated_query_term_t, IMPL>>(
-        std::string("Filter(") + name_ + ')', static_filter_impl);
+        std::string("Filter(") + name_ + ')', composed_impl);
   }
 };
 
-- 
2.43.0


From 0d2315464d70d1a9c3d14fabb76436e02583578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:43 +0000
Subject: [PATCH 88/89] fix: parsing a JSON map should not carry the values of
 one entry over into the next one

---
 typesystem/serialization/json/map.h           | 4 ++--
 typesystem/serialization/json/unordered_map.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/typesystem/serialization/json/map.h b/typesystem/serialization/json/map.h
index 0099522..a7ad58a 100644
--- a/typesystem/serialization/json/map.h
+++ b/typesystem/serialization/json/map.h
@@ -73,11 +73,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::map<TK, TV, TC, TA>,
                                                                         std::map<TK, TV, TC, TA>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
diff --git a/typesystem/serialization/json/unordered_map.h b/typesystem/serialization/json/unordered_map.h
index d89461a..f1895b3 100644
--- a/typesystem/serialization/json/unordered_map.h
+++ b/typesystem/serialization/json/unordered_map.h
@@ -75,11 +75,11 @@ struct DeserializeImpl<json::JSONParser<JSON_FORMAT>, std::unordered_map<TK, TV,
       json::JSONParser<JSON_FORMAT>& json_parser, std::unordered_map<TK, TV, HASH, EQ, ALLOCATOR>& destination) {
     if (json_parser && json_parser.Current().IsObject()) {
       destination.clear();
-      TK k;
-      TV v;
       for (rapidjson::Value::MemberIterator cit = json_parser.Current().MemberBegin();
            cit != json_parser.Current().MemberEnd();
            ++cit) {
+        TK k;
+        TV v;
         json_parser.Inner(&cit->name, k);
         json_parser.Inner(&cit->value, v);
         destination.emplace(std::move(k), std::move(v));
-- 
2.43.0


From 57db5fcd1b9bff8267282deb7a72b67374e7c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:17:38 +0000
Subject: [PATCH 89/89] fix: the event collection server should log the valid
 JSONs that are not events as unparsable

---
 midichlorians/server/server.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/midichlorians/server/server.h b/midichlorians/server/server.h
index 6b48e46..5a05457 100644
--- a/midichlorians/server/server.h
+++ b/midichlorians/server/server.h
@@ -100,7 +100,7 @@ class midichloriansHTTPServer {
     Variant<ios_events_t> ios_event;
     try {
       ios_event = ParseJSON<Variant<ios_events_t>>(line);
-    } catch (const InvalidJSONException&) {
+    } catch (const TypeSystemParseJSONException&) {
       return false;
     }
 
-- 
2.43.0

