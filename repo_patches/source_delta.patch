From c9ad2bf3eed4cf94c5a28780a0db0a26cc7584fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:54:07 +0000
Subject: [PATCH 01/16] fix: money addition of sub-unit amounts is not an
 overflow

Two amounts of the same sign whose units add up to zero (for example
0.1 + 0.2) were reported as OUT_OF_RANGE and saturated, because the
overflow test looked at the sign of the wrapped sum. Detect the 64-bit
overflow itself, which also avoids signed-overflow undefined behaviour.
---
 src/money_utils.cc | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/money_utils.cc b/src/money_utils.cc
index c271e4f..999b347 100644
--- a/src/money_utils.cc
+++ b/src/money_utils.cc
@@ -80,8 +80,10 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   }
 
   // Calculate the sum of units.
-  int64_t sum_units_no_carry = a.units() + b.units();
-  int64_t sum_units = sum_units_no_carry + carry;
+  int64_t sum_units_no_carry = 0, sum_units = 0;
+  bool overflow =
+      __builtin_add_overflow(a.units(), b.units(), &sum_units_no_carry);
+  overflow |= __builtin_add_overflow(sum_units_no_carry, carry, &sum_units);
   // It's possible the sum_units and sum_nanos now have different signs,
   // for example a.units=-2, a.nanos=-7, b.units=5, b.nanos=3. Adjust if
   // necessary.
@@ -98,18 +100,13 @@ Status TryAddMoney(const Money& a, const Money& b, Money* sum) {
   int sign_b = GetAmountSign(b);
 
   // Detect positive overflow.
-  if (sign_a > 0 && sign_b > 0 && sum_units <= 0) {
+  if (sign_a > 0 && sign_b > 0 && overflow) {
     sum->set_units(INT64_MAX);
     sum->set_nanos(kBillion - 1);
     return Status(StatusCode::kOutOfRange, "Money addition positive overflow");
   }
-  // Detect negative overflow. Note there is a tricky case that can only happen
-  // to negative overflow: sum_units_no_carry overflows to 0 but adding the
-  // carry makes sum_units a negative number again. So we must check both
-  // sum_units_no_carry and sum_units here. This doesn't happen in the
-  // positive overflow case because two MAX values 0x7FF...FF adds to
-  // 0xFF...FE and the carry won't affect the sign.
-  if (sign_a < 0 && sign_b < 0 && (sum_units_no_carry >= 0 || sum_units >= 0)) {
+  // Detect negative overflow.
+  if (sign_a < 0 && sign_b < 0 && overflow) {
     sum->set_units(INT64_MIN);
     sum->set_nanos(-kBillion + 1);
     return Status(StatusCode::kOutOfRange, "Money addition negative overflow");
-- 
2.43.0


From 9e281719f5f88300e41a2c444202240957b72f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:05 +0000
Subject: [PATCH 02/16] fix: keep quota cache entries across refreshes after a
 FlushAll

in_flush_all_ was never reset, so after one FlushAll() every entry that
reached the refresh interval was dropped together with the tokens it had
accumulated instead of being kept and refreshed.
---
 src/quota_aggregator_impl.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 82a89ae..7983f44 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -253,6 +253,8 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
     cache_->RemoveAll();
   }
 
+  in_flush_all_ = false;
+
   return OkStatus();
 }
 
-- 
2.43.0


From 7bd8c3a10fc09dab08996a8265a8d38c1a540519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:17 +0000
Subject: [PATCH 03/16] fix: quota cache over capacity recursed endlessly

When a new identity did not fit, the evicted entry was inserted back into
the cache, which evicted the next one, and so on until the stack
overflowed. Let capacity evictions go, sending the tokens the entry has
accumulated unless an allocation for it is still outstanding.
---
 src/quota_aggregator_impl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/quota_aggregator_impl.cc b/src/quota_aggregator_impl.cc
index 7983f44..3eaa864 100644
--- a/src/quota_aggregator_impl.cc
+++ b/src/quota_aggregator_impl.cc
@@ -262,6 +262,17 @@ bool QuotaAggregatorImpl::ShouldDrop(const CacheElem& elem) const {
 // no need to consider locking at this point
 void QuotaAggregatorImpl::OnCacheEntryDelete(CacheElem* elem) {
   if (in_flush_all_ == false && ShouldDrop(*elem) == false) {
+    if (cache_->Size() >= options_.num_entries) {
+      // The element was evicted to make room for another one. Inserting it back
+      // would evict the next one endlessly. Send its aggregated tokens instead.
+      if (elem->in_flight() == false && elem->is_aggregated()) {
+        AddRemovedItem(elem->ReturnAllocateQuotaRequestAndClear(
+          service_name_, service_config_id_));
+      }
+      delete elem;
+      return;
+    }
+
     // insert the element back to the cache
     cache_->Insert(elem->signature(), elem, 1);
 
-- 
2.43.0


From 3b6f851632475df251f0549dae27e7969482ff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:21:40 +0000
Subject: [PATCH 04/16] fix: LRU list corruption by overlapping lookups with
 different options

A lookup that does not update the eviction order leaves its entry on the
LRU list. When an ordinary lookup of the same entry overlapped with it,
the entry was linked twice (use of freed memory on the next eviction) or
never linked again (never evicted nor expired). An entry pinned by such a
lookup that expired tripped an assertion.
---
 utils/simple_lru_cache_inl.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/utils/simple_lru_cache_inl.h b/utils/simple_lru_cache_inl.h
index 23f6fdc..b45df7a 100644
--- a/utils/simple_lru_cache_inl.h
+++ b/utils/simple_lru_cache_inl.h
@@ -680,10 +680,11 @@ Value* SimpleLRUCacheBase<Key, Value, MapType, EQ>::LookupWithOptions(
     Elem* e = iter->second;
     if (e->pin == 0) {
       pinned_units_ += e->units;
-      // We are pinning this entry, take it off the LRU list if we are in LRU
-      // mode. In strict age-based mode entries stay on the list while pinned.
-      if (lru_ && options.update_eviction_order()) e->Unlink();
     }
+    // We are pinning this entry, take it off the LRU list if we are in LRU
+    // mode. In strict age-based mode entries stay on the list while pinned.
+    // It may still be on the list if all its pins do not update the order.
+    if (lru_ && options.update_eviction_order()) e->Unlink();
     e->pin++;
     return e->value;
   }
@@ -738,7 +739,10 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::ReleaseWithOptions(
     e->pin--;
 
     if (e->pin == 0) {
-      if (lru_ && options.update_eviction_order()) e->Link(&head_);
+      if (lru_ && !e->IsLinked()) {
+        e->last_use_ = SimpleCycleTimer::Now();
+        e->Link(&head_);
+      }
       pinned_units_ -= e->units;
       if (IsOverfullInternal()) {
         // This element is no longer needed, and we are full.  So kick it out.
@@ -920,9 +924,9 @@ void SimpleLRUCacheBase<Key, Value, MapType, EQ>::DiscardIdle(
 #endif
 
     Elem* prev = e->prev;
-    // There are no pinned elements on the list in the LRU mode, and in the
-    // age-based mode we push them out of the main table regardless of pinning.
-    assert(e->pin == 0 || !lru_);
+    // In the LRU mode, only elements pinned by lookups that do not update the
+    // eviction order are on the list. Like all elements in the age-based mode
+    // we push them out of the main table regardless of pinning.
     Remove(e->key);
     e = prev;
   }
-- 
2.43.0


From 773bac01759ec7b50e41efae5e22ceb04400fbf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 05/16] fix: exponential bucket index of huge samples and
 samples on a bound

The index was converted to int before it was limited: an infinite sample (or
ratio) gave a negative index, written outside of the bucket counts. Samples on
a bucket bound could fall into the bucket below, e.g. 1000 for growth factor 10
and scale 1.
---
 utils/distribution_helper.cc | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 193c530..4306ae7 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -135,11 +135,23 @@ void UpdateExponentialBucketCount(double value, Distribution* distribution) {
   const auto& exponential = distribution->exponential_buckets();
   int bucket_index = 0;
   if (value >= exponential.scale()) {
-    // Should be put into bucket bucket_index, starting from 0.
-    bucket_index = 1 + static_cast<int>(log2(value / exponential.scale()) /
-                                        log2(exponential.growth_factor()));
-    if (bucket_index > exponential.num_finite_buckets() + 1) {
-      bucket_index = exponential.num_finite_buckets() + 1;
+    // Should be put into bucket bucket_index, starting from 0. The index is
+    // limited before it is converted, it may be out of the range of int.
+    const int overflow_index = exponential.num_finite_buckets() + 1;
+    double index = 1 + (log2(value) - log2(exponential.scale())) /
+                           log2(exponential.growth_factor());
+    bucket_index =
+        index < overflow_index ? static_cast<int>(index) : overflow_index;
+    // The logarithms are rounded: values next to a bound may be one bucket off.
+    while (bucket_index > 1 &&
+           value < exponential.scale() *
+                       pow(exponential.growth_factor(), bucket_index - 1)) {
+      --bucket_index;
+    }
+    while (bucket_index < overflow_index &&
+           value >= exponential.scale() *
+                        pow(exponential.growth_factor(), bucket_index)) {
+      ++bucket_index;
     }
   }
   distribution->set_bucket_counts(
-- 
2.43.0


From 9044438f853b3e74f51257ec570555612847e485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 06/16] fix: linear bucket index of samples far from the offset

value - offset may overflow to infinity below the upper bound, the index was
then converted to int out of range and written outside of the bucket counts.
---
 utils/distribution_helper.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 4306ae7..7c85215 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -170,7 +170,11 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
   } else if (value >= upper_bound) {
     bucket_index = linear.num_finite_buckets() + 1;
   } else {
-    bucket_index = 1 + static_cast<int>((value - lower_bound) / linear.width());
+    // value - lower_bound may overflow to infinity.
+    double index = (value - lower_bound) / linear.width();
+    bucket_index = index < linear.num_finite_buckets()
+                       ? 1 + static_cast<int>(index)
+                       : linear.num_finite_buckets();
   }
 
   distribution->set_bucket_counts(
-- 
2.43.0


From 127440d6e655a6597413441db1327f6d98d56930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 07/16] fix: adding a sample to a distribution with a single
 explicit bucket

Without bounds there is one bucket, and no first bound to read.
---
 utils/distribution_helper.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 7c85215..d95ec6e 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -184,7 +184,7 @@ void UpdateLinearBucketCount(double value, Distribution* distribution) {
 void UpdateExplicitBucketCount(double value, Distribution* distribution) {
   const auto& bounds = distribution->explicit_buckets().bounds();
   int bucket_index = 0;
-  if (value >= bounds.Get(0)) {
+  if (!bounds.empty() && value >= bounds.Get(0)) {
     // -inf <  b0 <  b1 <  b2 <  b3 < +inf     (4 values in "bounds")
     //   |  0  |  1  |  2  |  3  |  4  |       (5 buckets)
     // std::upper_bound returns the first value that is greater than given one.
-- 
2.43.0


From 7a719ddeaef3e1d8886dc80e3b5a490332730785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 08/16] fix: refuse NaN as a distribution bucket parameter

NaN passed the range checks, and the samples added later were counted outside
of the bucket counts.
---
 utils/distribution_helper.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index d95ec6e..883ddf0 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -205,12 +205,12 @@ Status DistributionHelper::InitExponential(int num_finite_buckets,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (growth_factor <= 1.0) {
+  if (!(growth_factor > 1.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument growth_factor should be > 1.0. pass in: ",
                          growth_factor));
   }
-  if (scale <= 0) {
+  if (!(scale > 0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument scale should be > 0. pass in: ", scale));
   }
@@ -231,10 +231,14 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
                   StrCat("Argument num_finite_buckets should be > 0. pass in: ",
                          num_finite_buckets));
   }
-  if (width <= 0.0) {
+  if (!(width > 0.0)) {
     return Status(StatusCode::kInvalidArgument,
                   StrCat("Argument width should be > 0.0. pass in: ", width));
   }
+  if (std::isnan(offset)) {
+    return Status(StatusCode::kInvalidArgument,
+                  "Argument offset should be a number.");
+  }
 
   auto* linear = distribution->mutable_linear_buckets();
   linear->set_num_finite_buckets(num_finite_buckets);
@@ -246,6 +250,11 @@ Status DistributionHelper::InitLinear(int num_finite_buckets, double width,
 
 Status DistributionHelper::InitExplicit(const std::vector<double>& bounds,
                                         Distribution* distribution) {
+  if (std::any_of(bounds.begin(), bounds.end(),
+                  [](double bound) { return std::isnan(bound); })) {
+    return Status(StatusCode::kInvalidArgument,
+                  "Argument bounds should be numbers.");
+  }
   if (!std::is_sorted(bounds.begin(), bounds.end())) {
     return Status(StatusCode::kInvalidArgument, "Argument bounds should be sorted.");
   }
-- 
2.43.0


From 5a5a8f2fc7dbf5caa841192712f25ba71ddc279e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:00 +0000
Subject: [PATCH 09/16] fix: compare distributions with an infinite bucket
 bound

Two identical bucket definitions with an infinite bound were not equal, so the
samples of one of them were dropped, while an infinite and a finite bound were.
---
 utils/distribution_helper.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/utils/distribution_helper.cc b/utils/distribution_helper.cc
index 883ddf0..f43b38b 100644
--- a/utils/distribution_helper.cc
+++ b/utils/distribution_helper.cc
@@ -67,6 +67,7 @@ void UpdateGeneralStatictics(double value, Distribution* distribution) {
 
 inline bool IsCloseEnough(double x, double y) {
   const double epsilon = 1e-5;
+  if (std::isinf(x) || std::isinf(y)) return x == y;
   return std::abs(x - y) <= epsilon * std::abs(x);
 }
 
-- 
2.43.0


From b8e674decac9673e219c7ebe15293d4f402a15a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:06 +0000
Subject: [PATCH 10/16] fix: check identity covers all sets of a repeated
 metric name

Only the last metric value set of a name was hashed, so checks that differ in
an earlier one shared a cached answer.
---
 src/signature.cc | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/signature.cc b/src/signature.cc
index f883b50..6528655 100644
--- a/src/signature.cc
+++ b/src/signature.cc
@@ -18,6 +18,7 @@ limitations under the License.
 
 #include <set>
 #include <map>
+#include <vector>
 
 using std::string;
 using google::api::servicecontrol::v1::CheckRequest;
@@ -83,21 +84,24 @@ string GenerateCheckRequestSignature(const CheckRequest& request) {
   hasher.Update(kDelimiter, kDelimiterLength);
   UpdateHashLabels(operation.labels(), &hasher);
 
-  // keep sorted order of metric_name
-  std::map<std::string, const ::google::protobuf::RepeatedPtrField<
-                            ::google::api::servicecontrol::v1::MetricValue>*>
+  // keep sorted order of metric_name. A metric_name may have several sets.
+  std::map<std::string,
+           std::vector<const ::google::protobuf::RepeatedPtrField<
+               ::google::api::servicecontrol::v1::MetricValue>*>>
       metric_value_set_map;
   for (const auto& metric_value_set : operation.metric_value_sets()) {
-    metric_value_set_map[metric_value_set.metric_name()] =
-        &metric_value_set.metric_values();
+    metric_value_set_map[metric_value_set.metric_name()].push_back(
+        &metric_value_set.metric_values());
   }
 
   for(const auto& metric_value_set: metric_value_set_map) {
     hasher.Update(kDelimiter, kDelimiterLength);
     hasher.Update(metric_value_set.first);
 
-    for(const auto& metric_value: *metric_value_set.second) {
-      UpdateHashMetricValue(metric_value, &hasher);
+    for(const auto* metric_values: metric_value_set.second) {
+      for(const auto& metric_value: *metric_values) {
+        UpdateHashMetricValue(metric_value, &hasher);
+      }
     }
   }
 
-- 
2.43.0


From 9b9f8fb631f91e3c0b95c854e777248209ff46f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:05 +0000
Subject: [PATCH 11/16] fix: quota responses that arrive after the client is
 gone

The completion of an allocation sent by the quota cache used the client, which
may be destroyed before.
---
 src/service_control_client_impl.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 40aca93..a748713 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -138,17 +138,21 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
 
+  // Holds a ref_count to quota_aggregator: the client may be gone before the
+  // call is done.
+  std::shared_ptr<QuotaAggregator> quota_aggregator_copy = quota_aggregator_;
   quota_transport_(*quota_request_copy, quota_response,
-                   [this, quota_request_copy, quota_response](Status status) {
+                   [quota_aggregator_copy, quota_request_copy,
+                    quota_response](Status status) {
                      if (!status.ok()) {
                        GOOGLE_LOG(ERROR) << "Failed in AllocateQuota call: "
                                          << status.message();
                        // cache dummy response for fail open
                        AllocateQuotaResponse dummy_response;
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, dummy_response);
                      } else {
-                       (void)this->quota_aggregator_->CacheResponse(
+                       (void)quota_aggregator_copy->CacheResponse(
                            *quota_request_copy, *quota_response);
                      }
 
-- 
2.43.0


From 91c01ae609666d02b1fbaa45837b9c631b1a0daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:05 +0000
Subject: [PATCH 12/16] fix: deadlock when a transport completes a flushed
 request inline

The flush callback runs with callback_mutex_ held. A transport that completes
an allocation before it returns caches the response, which may flush out
another item in the same thread.
---
 src/cache_removed_items_handler.h | 10 ++++++----
 utils/thread.h                    |  2 ++
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index 536558e..b595d77 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -59,7 +59,7 @@ class CacheRemovedItemsHandler {
 
   // Sets the flush callback function.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    MutexLock lock(callback_mutex_);
+    RecursiveMutexLock lock(callback_mutex_);
     flush_callback_ = callback;
   }
 
@@ -119,8 +119,10 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_;
-  Mutex callback_mutex_;
+  // Mutex guarding the access of flush_callback_. It is held during the callback
+  // and has to be recursive: the callback may complete a request inline, which
+  // may flush out other items.
+  RecursiveMutex callback_mutex_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -130,7 +132,7 @@ class CacheRemovedItemsHandler {
   StackBuffer* stack_buffer_;
 
   void FlushOut(const RequestType& request) {
-    MutexLock lock(callback_mutex_);
+    RecursiveMutexLock lock(callback_mutex_);
     if (flush_callback_) {
       flush_callback_(request);
     }
diff --git a/utils/thread.h b/utils/thread.h
index 02ee807..05d6fe1 100644
--- a/utils/thread.h
+++ b/utils/thread.h
@@ -29,6 +29,8 @@ namespace service_control_client {
 // So they can be switched to use different packages.
 typedef std::mutex Mutex;
 typedef std::unique_lock<Mutex> MutexLock;
+typedef std::recursive_mutex RecursiveMutex;
+typedef std::unique_lock<RecursiveMutex> RecursiveMutexLock;
 
 typedef std::future<::google::protobuf::util::Status> StatusFuture;
 typedef std::promise<::google::protobuf::util::Status> StatusPromise;
-- 
2.43.0


From 5950dd61f4a8677cdcc08fb9bba07a744a6837a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:05 +0000
Subject: [PATCH 13/16] fix: flush without a client-wide transport

A client used with per_request transports only threw bad_function_call as soon
as a cache had something to send.
---
 src/service_control_client_impl.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index a748713..8bc6ad8 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -134,6 +134,9 @@ ServiceControlClientImpl::~ServiceControlClientImpl() {
 
 void ServiceControlClientImpl::AllocateQuotaFlushCallback(
     const AllocateQuotaRequest& quota_request) {
+  // Only per_request transports are used.
+  if (quota_transport_ == NULL) return;
+
   AllocateQuotaRequest* quota_request_copy =
       new AllocateQuotaRequest(quota_request);
   AllocateQuotaResponse* quota_response = new AllocateQuotaResponse;
@@ -165,6 +168,9 @@ void ServiceControlClientImpl::AllocateQuotaFlushCallback(
 
 void ServiceControlClientImpl::CheckFlushCallback(
     const CheckRequest& check_request) {
+  // Only per_request transports are used.
+  if (check_transport_ == NULL) return;
+
   CheckResponse* check_response = new CheckResponse;
   check_transport_(check_request, check_response,
                    [check_response](Status status) {
@@ -179,6 +185,9 @@ void ServiceControlClientImpl::CheckFlushCallback(
 
 void ServiceControlClientImpl::ReportFlushCallback(
     const ReportRequest& report_request) {
+  // Only per_request transports are used.
+  if (report_transport_ == NULL) return;
+
   ReportResponse* report_response = new ReportResponse;
   report_transport_(report_request, report_response,
                     [report_response](Status status) {
-- 
2.43.0


From 6f89dc2c4fb0599c8cf2dd18407a3e9131497636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:55:05 +0000
Subject: [PATCH 14/16] fix: no periodic timer when all caches are disabled

---
 src/service_control_client_impl.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 8bc6ad8..73d0155 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -80,7 +80,8 @@ ServiceControlClientImpl::ServiceControlClientImpl(
                 std::placeholders::_1));
 
   int flush_interval = GetNextFlushInterval();
-  if (options.periodic_timer && flush_interval > 0) {
+  if (options.periodic_timer && flush_interval > 0 &&
+      flush_interval != std::numeric_limits<int>::max()) {
     // Class members cannot be captured in lambda. We need to make a copy to
     // support C++11.
     std::shared_ptr<CheckAggregator> check_aggregator_copy = check_aggregator_;
-- 
2.43.0


From d063807b8b5fb0a4771002ec68f80a88c563841b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 15/16] fix: hold no lock during flush callbacks and let them
 finish at shutdown

The flush callbacks were called with callback_mutex_ held. Two threads whose
transports call into the other service of the same client deadlocked. And a
thread which had evicted items but not yet flushed them out lost them when the
client was destroyed meanwhile: SetFlushCallback(NULL) now waits for it.
---
 src/cache_removed_items_handler.h | 55 +++++++++++++++++++++++++------
 utils/thread.h                    |  6 ++--
 2 files changed, 49 insertions(+), 12 deletions(-)

diff --git a/src/cache_removed_items_handler.h b/src/cache_removed_items_handler.h
index b595d77..10ab529 100644
--- a/src/cache_removed_items_handler.h
+++ b/src/cache_removed_items_handler.h
@@ -21,6 +21,9 @@ limitations under the License.
 #include "utils/simple_lru_cache_inl.h"
 #include "utils/thread.h"
 
+#include <algorithm>
+#include <vector>
+
 namespace google {
 namespace service_control_client {
 // If flush callback is called inside OnCacheEntryDelete(), the callback
@@ -57,9 +60,15 @@ class CacheRemovedItemsHandler {
   // The callback function to flush out cache items.
   using InternalFlushCallback = std::function<void(const RequestType&)>;
 
-  // Sets the flush callback function.
+  // Sets the flush callback function. Waits for the other threads which may
+  // still have items to flush out with the current one.
   void InternalSetFlushCallback(InternalFlushCallback callback) {
-    RecursiveMutexLock lock(callback_mutex_);
+    MutexLock lock(callback_mutex_);
+    const ThreadId self = CurrentThreadId();
+    flushing_done_.wait(lock, [this, self]() {
+      return std::all_of(flushing_threads_.begin(), flushing_threads_.end(),
+                         [self](const ThreadId& id) { return id == self; });
+    });
     flush_callback_ = callback;
   }
 
@@ -82,12 +91,15 @@ class CacheRemovedItemsHandler {
   // instantiated at stack. It should be used outside of cache_mutex lock.
   class StackBuffer final {
    public:
-    StackBuffer(CacheRemovedItemsHandler* handler) : handler_(handler) {}
+    StackBuffer(CacheRemovedItemsHandler* handler) : handler_(handler) {
+      handler_->BeginFlush();
+    }
 
     virtual ~StackBuffer() {
       for (const auto& request : items_) {
         handler_->FlushOut(request);
       }
+      handler_->EndFlush();
     }
 
     void Add(const RequestType& item) {
@@ -119,10 +131,16 @@ class CacheRemovedItemsHandler {
   };
 
  private:
-  // Mutex guarding the access of flush_callback_. It is held during the callback
-  // and has to be recursive: the callback may complete a request inline, which
-  // may flush out other items.
-  RecursiveMutex callback_mutex_;
+  // Mutex guarding the access of flush_callback_ and flushing_threads_. It is
+  // not held during the callback: the callback may call other functions of the
+  // client, which may flush out other items.
+  Mutex callback_mutex_;
+
+  // The threads which have a StackBuffer, once for each of them.
+  std::vector<ThreadId> flushing_threads_;
+
+  // Notified when a thread is removed from flushing_threads_.
+  ConditionVariable flushing_done_;
 
   // The callback function to flush out cache items.
   InternalFlushCallback flush_callback_;
@@ -131,10 +149,27 @@ class CacheRemovedItemsHandler {
   // stored. It should only be set and reset by StackBuffer::Swapper.
   StackBuffer* stack_buffer_;
 
+  void BeginFlush() {
+    MutexLock lock(callback_mutex_);
+    flushing_threads_.push_back(CurrentThreadId());
+  }
+
+  void EndFlush() {
+    MutexLock lock(callback_mutex_);
+    flushing_threads_.erase(std::find(flushing_threads_.begin(),
+                                      flushing_threads_.end(),
+                                      CurrentThreadId()));
+    flushing_done_.notify_all();
+  }
+
   void FlushOut(const RequestType& request) {
-    RecursiveMutexLock lock(callback_mutex_);
-    if (flush_callback_) {
-      flush_callback_(request);
+    InternalFlushCallback callback;
+    {
+      MutexLock lock(callback_mutex_);
+      callback = flush_callback_;
+    }
+    if (callback) {
+      callback(request);
     }
   }
 };
diff --git a/utils/thread.h b/utils/thread.h
index 05d6fe1..0a833c2 100644
--- a/utils/thread.h
+++ b/utils/thread.h
@@ -18,6 +18,7 @@ limitations under the License.
 
 #include "google/protobuf/stubs/status.h"
 
+#include <condition_variable>
 #include <future>
 #include <mutex>
 #include <thread>
@@ -29,13 +30,14 @@ namespace service_control_client {
 // So they can be switched to use different packages.
 typedef std::mutex Mutex;
 typedef std::unique_lock<Mutex> MutexLock;
-typedef std::recursive_mutex RecursiveMutex;
-typedef std::unique_lock<RecursiveMutex> RecursiveMutexLock;
+typedef std::condition_variable ConditionVariable;
 
 typedef std::future<::google::protobuf::util::Status> StatusFuture;
 typedef std::promise<::google::protobuf::util::Status> StatusPromise;
 
 typedef std::thread Thread;
+typedef std::thread::id ThreadId;
+inline ThreadId CurrentThreadId() { return std::this_thread::get_id(); }
 
 }  // namespace service_control_client
 }  // namespace google
-- 
2.43.0


From 534885996afe50af3b1081ec304c3ac1bcf8022e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:03 +0000
Subject: [PATCH 16/16] fix: do not read a report after its completion has run

---
 src/service_control_client_impl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/service_control_client_impl.cc b/src/service_control_client_impl.cc
index 73d0155..aa4bb57 100644
--- a/src/service_control_client_impl.cc
+++ b/src/service_control_client_impl.cc
@@ -353,9 +353,11 @@ void ServiceControlClientImpl::Report(const ReportRequest& report_request,
 
   Status status = report_aggregator_->Report(report_request);
   if (status.code() == StatusCode::kNotFound) {
+    // The caller may free report_request in on_report_done.
+    const int operations_size = report_request.operations_size();
     report_transport(report_request, report_response, on_report_done);
     ++send_reports_in_flight_;
-    send_report_operations_ += report_request.operations_size();
+    send_report_operations_ += operations_size;
     return;
   }
   on_report_done(status);
-- 
2.43.0

