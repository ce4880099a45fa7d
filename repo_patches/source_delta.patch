From cf6340178c19510dd12bfa75d5cdc8587e576bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:54 +0000
Subject: [PATCH 001/135] fix: DataBufferFactory::Clear leaves freed large
 buffers on the free list

Clear() iterated over copies of the buckets, so buffers larger than the short
size were deleted but stayed on the free list: a later Allocate of that size
returned a deleted buffer, and a later Clear deleted it again.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From 83a79f74ba3ac638efcde32e3d1629fceb97f558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:25 +0000
Subject: [PATCH 002/135] fix: DataBuffer starts with indeterminate or
 inherited latency and destination

The constructor left latency, destination and delay line uninitialized, and a
recycled buffer kept those of its previous use, so Submit() and latency() on a
buffer straight from the factory depended on what the memory held before.
---
 mpact/sim/generic/data_buffer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..8d62142 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -270,9 +270,9 @@ class DataBuffer : public ReferenceCount {
  private:
   explicit DataBuffer(unsigned size);
   DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
@@ -307,6 +307,10 @@ class DataBufferDelayRecord {
 // This method is only call from DataBuffer instance, so no need to check for
 // db == nullptr.
 inline void DataBufferFactory::Recycle(DataBuffer* db) {
+  // Don't let the next user of the buffer inherit these.
+  db->delay_line_ = nullptr;
+  db->destination_ = nullptr;
+  db->latency_ = 0;
   int size = db->size<uint8_t>();
   if (size <= kShortSize) {
     short_free_list_[size].push_back(db);
-- 
2.43.0


From 37d074595814a2fee574aafd13ba52d38eb0db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:49 +0000
Subject: [PATCH 003/135] fix: DataBuffer::Get<N>() does not compile when it is
 used

The element type is a dependent name and needs typename.
---
 mpact/sim/generic/data_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index 8d62142..fa8baa0 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -196,7 +196,7 @@ class DataBuffer : public ReferenceCount {
   template <int N>
   inline absl::Span<typename internal::ElementTypeSelector<N>::type> Get()
       const {
-    return Get<internal::ElementTypeSelector<N>::type>();
+    return Get<typename internal::ElementTypeSelector<N>::type>();
   }
 
   // Return the data buffer as a span of elements of type ElementType.
-- 
2.43.0


From b0f6c8267987e50784c2c3211be2dbafaae75fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:39 +0000
Subject: [PATCH 004/135] fix: DelayLine mishandles a latency equal to its
 power of two depth

Add() with latency == depth called Resize(latency), which left the size
unchanged and moved wrapped entries past the end of the vector; otherwise the
entry landed in the current slot, which a later resize leaves behind.
---
 mpact/sim/generic/delay_line.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..db839fd 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -86,7 +86,8 @@ class DelayLine : public DelayLineInterface {
     // absl::MutexLock dl(&delay_line_lock_);
     // If the latency is longer than the delay line, resize the delay line.
     if (latency >= static_cast<int>(delay_line_.size())) {
-      Resize(latency);
+      // The current slot is in use, so cover latency + 1 slots.
+      Resize(latency + 1);
     }
     int pos = (latency + current_) & mask_;
     delay_line_[pos].emplace_back(args...);
-- 
2.43.0


From 693058385e56ad8538888b931088286779f821e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:06 +0000
Subject: [PATCH 005/135] fix: StatusRegister releases a reference it does not
 own when written

---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..bbba8d0 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so ignore the data buffer. The caller keeps (and
+    // releases) its own reference.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From 5e79b5cc43a4b40a7d8a9466e332ee27441bbcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:14 +0000
Subject: [PATCH 006/135] fix: FifoBase does not register its depth
 configuration entry

---
 mpact/sim/generic/fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/fifo.cc b/mpact/sim/generic/fifo.cc
index b0e5d39..a321928 100644
--- a/mpact/sim/generic/fifo.cc
+++ b/mpact/sim/generic/fifo.cc
@@ -39,7 +39,8 @@ FifoBase::FifoBase(class ArchState* arch_state, absl::string_view name,
       name_(name),
       capacity_(default_capacity),
       reserved_(0) {
-  // empty
+  // The name cannot clash, as this is the first entry to be added.
+  (void)AddConfig(&depth_);
 }
 
 FifoBase::~FifoBase() {
-- 
2.43.0


From 0e286455ef263f0a9f111a985da5f7dcac92909b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:14 +0000
Subject: [PATCH 007/135] fix: TokenFifo ignores its capacity, and loses or
 invents tokens

---
 mpact/sim/generic/token_fifo.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..a3fa276 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -52,12 +52,12 @@ TokenFifoBase::TokenFifoBase(ArchState* arch_state, absl::string_view name,
 
 // The fifo is full if it is at capacity or if there are no token available.
 bool TokenFifoBase::IsFull() const {
-  return (token_store_->available() == 0) ||
-         (Reserved() >= token_store_->available());
+  return FifoBase::IsFull() || (Reserved() >= token_store_->available());
 }
 
 bool TokenFifoBase::IsOverSubscribed() const {
-  return Reserved() > token_store_->available();
+  return FifoBase::IsOverSubscribed() ||
+         (Reserved() > token_store_->available());
 }
 
 bool TokenFifoBase::Push(DataBuffer* db) {
@@ -67,7 +67,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // If the push fails (the overflow has been raised) no token is used.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
@@ -81,7 +82,7 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From 637a612840116ab1142310306ce7862b85eebbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:14 +0000
Subject: [PATCH 008/135] fix: FifoWithNotify notifies when no transition took
 place

---
 mpact/sim/generic/fifo_with_notify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..9958092 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -29,15 +29,16 @@ bool FifoWithNotifyBase::Push(DataBuffer* db) {
   if (!IsEmpty()) return FifoBase::Push(db);
 
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = IsEmpty();
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && IsEmpty() && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From 41bf75744f56d945922a36f2b365a98e96326368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 009/135] fix: ResourceBitSet writes out of bounds, and
 corrupts its bits on shrinking

---
 mpact/sim/generic/resource_bitset.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..5772eb3 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
@@ -58,7 +59,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
@@ -126,11 +127,10 @@ void ResourceBitSet::Resize(int bit_size) {
   // If the size is the same, or smaller, zero out the high order bits.
   if (new_size <= size_) {
     int bit_offset = bit_size % kBitsInUint;
-    UInt mask = ~(std::numeric_limits<UInt>::max() << bit_offset);
-    for (int i = new_size; i < size_; ++i) {
-      bits_[i] = bits_[i] & ~mask;
-      mask = 0;
+    if (bit_offset != 0) {
+      bits_[new_size - 1] &= ~(std::numeric_limits<UInt>::max() << bit_offset);
     }
+    for (int i = new_size; i < size_; ++i) bits_[i] = 0;
     return;
   }
 
-- 
2.43.0


From 4734ce1219fd58301bdfa25d6ff5d64b21539940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:53 +0000
Subject: [PATCH 010/135] fix: ComplexResourceOperand::SetCycleMask overruns
 its array, and refuses or misreads valid spans

---
 mpact/sim/generic/complex_resource_operand.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..f0cbd65 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
@@ -73,10 +73,10 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
   // See if there are any bits set beyond the cycle depth of the resource.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && (span.size() == resource_->bit_array().size()) &&
+      (span[span.size() - 1] >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +92,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From 2dbeb175f41fc3a294645cbc152c6e87944df000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:38 +0000
Subject: [PATCH 011/135] fix: SimpleResourceOperand::Acquire holds on to its
 resources when the latency is 0

---
 mpact/sim/generic/simple_resource_operand.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..cba3f98 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -81,7 +81,7 @@ class SimpleResourceOperand : public ResourceOperandInterface {
   void Acquire() override {
     resource_set_->Acquire();
     // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    Release();
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From fcc525ea2e371aa7c1e24a2973a7289314ab2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:51 +0000
Subject: [PATCH 012/135] fix: DecodeCache crashes on a bad pc increment,
 overflows its mask, and misses or never finishes invalidating some ranges

---
 mpact/sim/generic/decode_cache.cc | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..7639ae4 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -27,16 +27,16 @@ namespace generic {
 DecodeCache::DecodeCache(const DecodeCacheProperties& props,
                          DecoderInterface* decoder)
     : decoder_(decoder), instruction_cache_(nullptr) {
-  num_entries_ = absl::bit_ceil(props.num_entries);
-  address_shift_ =
-      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
-  address_inc_ = 1 << address_shift_;
-  if (address_inc_ != props.minimum_pc_increment) {
+  if (!absl::has_single_bit(props.minimum_pc_increment)) {
     // minimum pc increment not a power of 2.
-    instruction_cache_ = nullptr;
+    num_entries_ = 0;
     return;
   }
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  num_entries_ = absl::bit_ceil(props.num_entries);
+  address_shift_ =
+      (absl::bit_width(static_cast<uint32_t>(props.minimum_pc_increment)) - 1);
+  address_inc_ = props.minimum_pc_increment;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
@@ -104,8 +104,19 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (start_address >= end_address) return;
+  // Visit the entries that instructions in the range may map to, each once.
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t max = num_entries_ - 1;
+  uint64_t count = (last - first < max) ? last - first : max;
+  for (uint64_t i = 0; i <= count; i++) {
+    Instruction*& inst = instruction_cache_[(first + i) & max];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      inst->DecRef();
+      inst = nullptr;
+    }
   }
 }
 
-- 
2.43.0


From 1ae9d3b91822d1f085e567784908db8dafa400a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 013/135] fix: Instruction leaves all but its first child with
 a dangling parent

---
 mpact/sim/generic/instruction.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..1288305 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -103,7 +103,10 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // None of the children may refer to this instruction once it is gone.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From bddb1dbfcb7e2ed0fa67dddd68eadecf56575354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:51 +0000
Subject: [PATCH 014/135] fix: Instruction::SetAttributes frees an array with
 scalar delete

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 1288305..23bc892 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -115,7 +115,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From 429dc57997f4d5970b816bc88c1372760d108351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:49 +0000
Subject: [PATCH 015/135] fix: ActionPointManagerBase::PerformActions
 dereferences end() when there is no action point

---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From dc952636e1ca0f26767017f81dfc649ee564e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:58:49 +0000
Subject: [PATCH 016/135] fix: ActionPointManagerBase is left inconsistent with
 memory when a write of an instruction fails

---
 .../sim/generic/action_point_manager_base.cc  | 29 ++++++++++---------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..be5c264 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,17 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +116,13 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If this will be the only active action, write a breakpoint instruction.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +142,14 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 330489e195c9f9931b457ae4503c4a50e7935615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:27 +0000
Subject: [PATCH 017/135] fix: FPTypeInfo of the 64 bit integer types describes
 single precision

---
 mpact/sim/generic/type_helpers.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index bd5ec36..ae269d6 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -367,14 +367,14 @@ struct FPTypeInfo<uint64_t> {
   using T = uint64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
@@ -396,14 +396,14 @@ struct FPTypeInfo<int64_t> {
   using T = int64_t;
   using UIntType = uint64_t;
   using IntType = std::make_signed<UIntType>::type;
-  static constexpr int kBitSize = sizeof(float) << 3;
-  static constexpr int kExpSize = 8;
-  static constexpr int kExpBias = 127;
+  static constexpr int kBitSize = sizeof(double) << 3;
+  static constexpr int kExpSize = 11;
+  static constexpr int kExpBias = 1023;
   static constexpr int kSigSize = kBitSize - kExpSize - /*sign*/ 1;
   static constexpr UIntType kInfMask = (1ULL << (kBitSize - 1)) - 1;
   static constexpr UIntType kExpMask = ((1ULL << kExpSize) - 1) << kSigSize;
   static constexpr UIntType kSigMask = (1ULL << kSigSize) - 1;
-  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'1ULL
+  static constexpr UIntType kCanonicalNaN = 0b0'1111'1111'111'1ULL
                                             << (kSigSize - 1);
   static constexpr UIntType kPosInf = kExpMask;
   static constexpr UIntType kNegInf = kExpMask | (1ULL << (kBitSize - 1));
-- 
2.43.0


From 39e5719f5c443b29cc3ceae8a4e951b9cccbdd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:01:27 +0000
Subject: [PATCH 018/135] fix: FPTypeInfo::SignBit is always false for the
 signed integer types

---
 mpact/sim/generic/type_helpers.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/type_helpers.h b/mpact/sim/generic/type_helpers.h
index ae269d6..7e13221 100644
--- a/mpact/sim/generic/type_helpers.h
+++ b/mpact/sim/generic/type_helpers.h
@@ -301,7 +301,9 @@ struct FPTypeInfo<int16_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1 << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -359,7 +361,9 @@ struct FPTypeInfo<int32_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 template <>
@@ -417,7 +421,9 @@ struct FPTypeInfo<int64_t> {
   static inline bool IsQNaN(T value) {
     return IsNaN(value) && (((1ULL << (kSigSize - 1)) & value) != 0);
   }
-  static inline bool SignBit(T value) { return 1 == (value >> (kBitSize - 1)); }
+  static inline bool SignBit(T value) {
+    return 1 == (static_cast<UIntType>(value) >> (kBitSize - 1));
+  }
 };
 
 inline float ConvertHalfToSingle(HalfFP half) {
-- 
2.43.0


From 9c7eb4f50d112211be30d06bb3b69569f594eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:19 +0000
Subject: [PATCH 019/135] fix: TemplateNegate::Evaluate returns an OK status as
 an error, and leaks, when its operand has no value

---
 mpact/sim/decoder/template_expression.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/template_expression.cc b/mpact/sim/decoder/template_expression.cc
index 8d88e7c..3e94409 100644
--- a/mpact/sim/decoder/template_expression.cc
+++ b/mpact/sim/decoder/template_expression.cc
@@ -176,11 +176,11 @@ absl::StatusOr<TemplateExpression*> TemplateNegate::Evaluate(
   // If expression is constant then can return a constant node.
   if (expr.value()->IsConstant()) {
     auto result = -expr.value()->GetValue();
+    delete expr.value();
     if (result.ok()) {
-      delete expr.value();
       return new TemplateConstant(result.value());
     } else {
-      return expr.status();
+      return result.status();
     }
   } else {
     return new TemplateNegate(expr.value());
-- 
2.43.0


From d0c6a7be0da4b77173c8a0e287c75957f76aeadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 020/135] fix: FlatMemory does not keep the instruction of a
 load alive until it is executed

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..cf08953 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction and, if it is non-null, the context,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction and, if it is non-null, the context,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From a7cbedafb0f7dc899517f6d0a199a3aa4ff1c6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 021/135] fix: FlatMemory spaces the elements of unit stride
 accesses in bytes, not addressable units

---
 mpact/sim/util/memory/flat_memory.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..67bff4c 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -109,10 +109,12 @@ class FlatMemory : public MemoryInterface {
     auto masks = mask_db->Get<bool>();
     auto addresses = address_db->Get<uint64_t>();
     bool gather = addresses.size() > 1;
+    // Addresses are in terms of addressable units.
+    uint64_t units = ((sizeof(T) - 1) >> shift_) + 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry] : addresses[0] + entry * units;
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -129,10 +131,12 @@ class FlatMemory : public MemoryInterface {
     auto masks = mask_db->Get<bool>();
     auto addresses = address_db->Get<uint64_t>();
     bool gather = addresses.size() > 1;
+    // Addresses are in terms of addressable units.
+    uint64_t units = ((sizeof(T) - 1) >> shift_) + 1;
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry] : addresses[0] + entry * units;
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From 95043def5b7593c8186345502da9c473db8d9013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 022/135] fix: FlatDemandMemory with a non-zero base and the
 default size serves no address

---
 mpact/sim/util/memory/flat_demand_memory.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..47b8563 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -17,6 +17,7 @@
 #include <algorithm>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 #include <utility>
 
 #include "absl/base/macros.h"
@@ -32,7 +33,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
                                    uint64_t base_address,
                                    unsigned addressable_unit_size, uint8_t fill)
     : base_address_(base_address),
-      max_address_(base_address + memory_size_in_units),
+      // The top of the memory is limited by the top of the address space.
+      max_address_(base_address +
+                   std::min(memory_size_in_units,
+                            std::numeric_limits<uint64_t>::max() - base_address)),
       fill_value_(fill),
       allocation_byte_size_(kAllocationSize * addressable_unit_size) {
   // Compute the addressable unit shift.
-- 
2.43.0


From 95a0093cf0f825b78c643990b54e4ae53c105e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:30 +0000
Subject: [PATCH 023/135] fix: FlatDemandMemory drops the bytes of accesses
 that are no multiple of the addressable unit, and spaces unit stride elements
 in bytes

---
 mpact/sim/util/memory/flat_demand_memory.cc | 48 +++++++++++----------
 mpact/sim/util/memory/flat_demand_memory.h  |  5 ++-
 2 files changed, 30 insertions(+), 23 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 47b8563..a5fa3d5 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -51,7 +51,8 @@ FlatDemandMemory::~FlatDemandMemory() { Clear(); }
 
 void FlatDemandMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
                             ReferenceCount* context) {
-  int size_in_units = db->size<uint8_t>() >> addressable_unit_shift_;
+  int size = db->size<uint8_t>();
+  int size_in_units = SizeInUnits(size);
   uint64_t high = address + size_in_units;
   if (address < base_address_ || high > max_address_) [[unlikely]] {
     LOG(WARNING) << absl::StrFormat(
@@ -65,7 +66,7 @@ void FlatDemandMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   }
   uint8_t* byte_ptr = static_cast<uint8_t*>(db->raw_ptr());
   // Load the data into the data buffer.
-  LoadStoreHelper(address, byte_ptr, size_in_units, true);
+  LoadStoreHelper(address, byte_ptr, size, true);
   // Execute the instruction to process and write back the load data.
   if (nullptr != inst) {
     if (db->latency() > 0) {
@@ -90,7 +91,7 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   auto mask_span = mask_db->Get<bool>();
   auto address_span = address_db->Get<uint64_t>();
   uint8_t* byte_ptr = static_cast<uint8_t*>(db->raw_ptr());
-  int size_in_units = el_size >> addressable_unit_shift_;
+  int size_in_units = SizeInUnits(el_size);
   if (size_in_units <= 0) {
     LOG(ERROR) << absl::StrFormat("Size in units %d is not positive\n",
                                   size_in_units);
@@ -101,7 +102,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -109,7 +111,7 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
           base_address_, max_address_);
       ABSL_HARDENING_ASSERT(false);
     }
-    LoadStoreHelper(address, &byte_ptr[el_size * i], size_in_units, true);
+    LoadStoreHelper(address, &byte_ptr[el_size * i], el_size, true);
   }
   // Execute the instruction to process and write back the load data.
   if (nullptr != inst) {
@@ -130,7 +132,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 }
 
 void FlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
-  int size_in_units = db->size<uint8_t>() >> addressable_unit_shift_;
+  int size = db->size<uint8_t>();
+  int size_in_units = SizeInUnits(size);
   uint64_t high = address + size_in_units;
   if (address < base_address_ || high > max_address_) [[unlikely]] {
     LOG(ERROR) << absl::StrFormat(
@@ -144,7 +147,7 @@ void FlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
     ABSL_HARDENING_ASSERT(false);
   }
   uint8_t* byte_ptr = static_cast<uint8_t*>(db->raw_ptr());
-  LoadStoreHelper(address, byte_ptr, size_in_units, /*is_load*/ false);
+  LoadStoreHelper(address, byte_ptr, size, /*is_load*/ false);
 }
 
 void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
@@ -152,7 +155,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   auto mask_span = mask_db->Get<bool>();
   auto address_span = address_db->Get<uint64_t>();
   uint8_t* byte_ptr = static_cast<uint8_t*>(db->raw_ptr());
-  int size_in_units = el_size >> addressable_unit_shift_;
+  int size_in_units = SizeInUnits(el_size);
   if (size_in_units <= 0) [[unlikely]] {
     LOG(ERROR) << absl::StrFormat("Size in units %d is not positive\n",
                                   size_in_units);
@@ -164,7 +167,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -172,13 +175,18 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
           base_address_, max_address_);
       ABSL_HARDENING_ASSERT(false);
     }
-    LoadStoreHelper(address, &byte_ptr[el_size * i], size_in_units,
+    LoadStoreHelper(address, &byte_ptr[el_size * i], el_size,
                     /*is_load*/ false);
   }
 }
 
+int FlatDemandMemory::SizeInUnits(int size_in_bytes) const {
+  int unit_size = 1 << addressable_unit_shift_;
+  return (size_in_bytes + unit_size - 1) >> addressable_unit_shift_;
+}
+
 void FlatDemandMemory::LoadStoreHelper(uint64_t address, uint8_t* data_ptr,
-                                       int size_in_units, bool is_load) {
+                                       int size_in_bytes, bool is_load) {
   // Repeat the following while there is data to copy. If it's a big chunk of
   // data it may span across more than one block.
   do {
@@ -196,16 +204,12 @@ void FlatDemandMemory::LoadStoreHelper(uint64_t address, uint8_t* data_ptr,
     }
 
     int block_unit_offset = (address & kAllocationMask);
-
-    // Compute how many addressable units to load/store from/to the current
-    // block.
-    int store_size_in_units =
-        std::min(size_in_units, kAllocationSize - block_unit_offset);
-
-    // Translate from unit size to byte size.
-    int store_size_in_bytes = store_size_in_units << addressable_unit_shift_;
     int block_byte_offset = block_unit_offset << addressable_unit_shift_;
 
+    // Compute how many bytes to load/store from/to the current block.
+    int store_size_in_bytes =
+        std::min(size_in_bytes, allocation_byte_size_ - block_byte_offset);
+
     if (is_load) {
       std::memcpy(data_ptr, &block[block_byte_offset], store_size_in_bytes);
     } else {
@@ -214,10 +218,10 @@ void FlatDemandMemory::LoadStoreHelper(uint64_t address, uint8_t* data_ptr,
 
     // Adjust address, data pointer and the remaining data left to be
     // loaded/stored.
-    size_in_units -= store_size_in_units;
+    size_in_bytes -= store_size_in_bytes;
     data_ptr += store_size_in_bytes;
-    address += store_size_in_units;
-  } while (size_in_units > 0);
+    address += store_size_in_bytes >> addressable_unit_shift_;
+  } while (size_in_bytes > 0);
 }
 
 void FlatDemandMemory::Clear() {
diff --git a/mpact/sim/util/memory/flat_demand_memory.h b/mpact/sim/util/memory/flat_demand_memory.h
index 002185b..577bfad 100644
--- a/mpact/sim/util/memory/flat_demand_memory.h
+++ b/mpact/sim/util/memory/flat_demand_memory.h
@@ -91,7 +91,10 @@ class FlatDemandMemory : public MemoryInterface {
   void Clear();
 
  private:
-  void LoadStoreHelper(uint64_t address, uint8_t* data_ptr, int size_in_units,
+  // Returns the number of addressable units that (partly) hold size_in_bytes
+  // bytes.
+  int SizeInUnits(int size_in_bytes) const;
+  void LoadStoreHelper(uint64_t address, uint8_t* data_ptr, int size_in_bytes,
                        bool is_load);
 
   static constexpr int kAllocationShift = 14;
-- 
2.43.0


From 6e9bb17d9ad70d48f4e2f454ccabfb50291e6a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:21 +0000
Subject: [PATCH 024/135] fix: TaggedFlatDemandMemory clears the wrong tags in
 unit stride vector stores

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..1603247 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // If there is a single address, this is a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From 9a1743eb47d98333fdd16260b7922a06793bba09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:21 +0000
Subject: [PATCH 025/135] fix: TaggedFlatDemandMemory has no tag for a partial
 granule at the end of the memory

---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 1603247..27d91f5 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -14,9 +14,11 @@
 
 #include "mpact/sim/util/memory/tagged_flat_demand_memory.h"
 
+#include <algorithm>
 #include <bit>
 #include <cstdint>
 #include <cstring>
+#include <limits>
 
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
@@ -46,8 +48,15 @@ TaggedFlatDemandMemory::TaggedFlatDemandMemory(uint64_t memory_size_in_units,
                                       addressable_unit_size, fill);
   // 8 tags per byte, so shift by log2(granule).
   tag_granule_shift_ = absl::bit_width(tag_granule_) - 1;
-  tag_memory_ = new FlatDemandMemory(memory_size_in_units >> tag_granule_shift_,
-                                     base_address >> tag_granule_shift_, 1, 0);
+  // There has to be a tag for every granule that overlaps the memory.
+  uint64_t last_address =
+      base_address +
+      std::min(memory_size_in_units,
+               std::numeric_limits<uint64_t>::max() - base_address);
+  if (memory_size_in_units > 0) last_address--;
+  uint64_t tag_base = base_address >> tag_granule_shift_;
+  uint64_t num_tags = (last_address >> tag_granule_shift_) - tag_base + 1;
+  tag_memory_ = new FlatDemandMemory(num_tags, tag_base, 1, 0);
   db_factory_ = new DataBufferFactory();
 }
 
-- 
2.43.0


From 0b051b08e36adaf42eaeb7400f47e33942839aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:21 +0000
Subject: [PATCH 026/135] fix: TaggedToUntaggedMemoryTransactor never executes
 the instruction of a load of just tags

---
 .../tagged_to_untagged_memory_transactor.cc   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..c0a0b8b 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,7 +61,25 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
+  if (db == nullptr) {
+    // This is a load of just the tags. There is nothing to forward, but the
+    // instruction still has to be executed.
+    if (inst == nullptr) return;
+    if (tags->latency() == 0) {
+      inst->Execute(context);
+      return;
+    }
+    inst->IncRef();
+    if (context != nullptr) context->IncRef();
+    inst->state()->function_delay_line()->Add(tags->latency(),
+                                              [inst, context]() {
+                                                inst->Execute(context);
+                                                if (context != nullptr)
+                                                  context->DecRef();
+                                                inst->DecRef();
+                                              });
+    return;
+  }
   target_mem_->Load(address, db, inst, context);
 }
 
-- 
2.43.0


From 77664d76e7efaf1b69e27af26275f98664c570e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:14 +0000
Subject: [PATCH 027/135] fix: the memory watchers read past the single address
 of unit stride vector accesses

---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..cd8f904 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -114,7 +114,9 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is a single address, this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -150,7 +152,9 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is a single address, this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..5ba2eec 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -115,7 +115,9 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is a single address, this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -166,7 +168,9 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // If there is a single address, this is a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From 163601b81d48b44675dafd105f435810d70b02d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:50 +0000
Subject: [PATCH 028/135] fix: AtomicMemory and AtomicTaggedMemory let a store
 conditional succeed after some intervening stores

---
 mpact/sim/util/memory/atomic_memory.cc        | 32 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 +
 mpact/sim/util/memory/atomic_tagged_memory.cc | 39 +++++++++++--------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 +
 4 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..5c6a500 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,27 +132,35 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If any part of the store matches a tag, remove the tag.
+  RemoveTags(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // If any part of a store that takes place matches a tag, remove the tag. If
+  // there is a single address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  for (int i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    RemoveTags(addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size,
+               el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
 
+// Remove the tags of all the granules that are at least partly written.
+void AtomicMemory::RemoveTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 // Perform the atomic memory operation.
 absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
                                            DataBuffer* db, Instruction* inst,
@@ -209,6 +217,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The operation writes to memory, so remove any matching tag.
+  RemoveTags(address, el_size);
   if (op == Operation::kAtomicSwap) {
     memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..ed9b607 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -74,6 +74,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags for the memory that is being written to.
+  void RemoveTags(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..02bad7c 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,37 +141,42 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If any part of the store matches a tag, remove the tag.
+  RemoveTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // If any part of the store matches a tag, remove the tag.
+  RemoveTags(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // If any part of a store that takes place matches a tag, remove the tag. If
+  // there is a single address, this is a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  for (int i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    RemoveTags(addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size,
+               el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
 
+// Remove the tags of all the granules that are at least partly written.
+void AtomicTaggedMemory::RemoveTags(uint64_t address, int size) {
+  if (ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; tag++) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 // Perform the atomic memory operation.
 absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
                                                  DataBuffer* db,
@@ -229,6 +234,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // The operation writes to memory, so remove any matching tag.
+  RemoveTags(address, el_size);
   if (op == Operation::kAtomicSwap) {
     tagged_memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..6497b62 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -80,6 +80,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags for the memory that is being written to.
+  void RemoveTags(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
-- 
2.43.0


From 9ef9e36e173988a3b3df35b1ca73221252ef2240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:50 +0000
Subject: [PATCH 029/135] fix: AtomicTaggedMemory drops the tags of tagged
 stores

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 02bad7c..dd81ca9 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -143,7 +143,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
   // If any part of the store matches a tag, remove the tag.
   RemoveTags(address, db->size<uint8_t>());
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From a8b418ab0cfe1d59a261c52a7bf4fdeb6587fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:50 +0000
Subject: [PATCH 030/135] fix: AtomicMemory and AtomicTaggedMemory perform a
 store conditional of an illegal size before refusing it

---
 mpact/sim/util/memory/atomic_memory.cc        | 7 +++----
 mpact/sim/util/memory/atomic_tagged_memory.cc | 7 +++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 5c6a500..7fbb1f1 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -166,6 +166,9 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
                                            DataBuffer* db, Instruction* inst,
                                            ReferenceCount* context) {
   int el_size = db->size<uint8_t>();
+  if (GetDb(el_size) == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
@@ -195,10 +198,6 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
 
   // Load the data from memory.
   auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index dd81ca9..f4ddfcb 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -183,6 +183,9 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
                                                  Instruction* inst,
                                                  ReferenceCount* context) {
   int el_size = db->size<uint8_t>();
+  if (GetDb(el_size) == nullptr)
+    return absl::InternalError(
+        absl::StrCat("Illegal element size (", el_size, ")"));
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
@@ -212,10 +215,6 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
 
   // Load the data from memory.
   auto* tmp_db = GetDb(el_size);
-  if (tmp_db == nullptr)
-    return absl::InternalError(
-        absl::StrCat("Illegal element size (", el_size, ")"));
-
   tagged_memory_->Load(address, tmp_db, nullptr, nullptr);
 
   // Swap with store data - this way the data from the memory is in the right
-- 
2.43.0


From c363749e51f4e0795e232359e2f5edec4fdafd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:06 +0000
Subject: [PATCH 031/135] fix: SingleInitiatorRouter misjudges the end of some
 accesses and fails to route them

---
 mpact/sim/util/memory/single_initiator_router.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..d8a6aeb 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -142,7 +142,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
   // Since the plain memory load can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -265,7 +265,7 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
+  auto it = memory_targets_.find({address, address + size - 1});
   if (it != memory_targets_.end()) {
     auto& range = it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -279,7 +279,7 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
   // Since the plain memory store can occur in both MemoryInterface and
   // TaggedMemoryInterface, we need to check the tagged memory interface map
   // too.
-  auto tagged_it = tagged_targets_.find({address, address});
+  auto tagged_it = tagged_targets_.find({address, address + size - 1});
   if (tagged_it != tagged_targets_.end()) {
     auto& range = tagged_it->first;
     if ((range.base <= address) && (range.top >= address + size - 1)) {
@@ -340,7 +340,7 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
       auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
+      auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
@@ -350,7 +350,8 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
+        if ((range.base > address) || (range.top < address + el_size - 1))
+          break;
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From b263bcc4216933541020d781f950f6354ac46055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:31:06 +0000
Subject: [PATCH 032/135] fix: SingleInitiatorRouter routes a vector access to
 a target that does not contain all of it, and ignores unit stride accesses

---
 .../util/memory/single_initiator_router.cc    | 60 ++++++++++++++-----
 1 file changed, 46 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d8a6aeb..912895d 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -164,24 +164,33 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  ReferenceCount* context) {
   // This is a vector load, so check each address that is not masked off.
   // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  int count = mask_db->size<uint8_t>();
+  // If there is a single address, this is a unit stride access.
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -203,19 +212,26 @@ void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
@@ -300,24 +316,33 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
   // This is a vector store, so check each address that is not masked off.
   // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
+  int count = mask_db->size<uint8_t>();
+  // If there is a single address, this is a unit stride access.
+  bool unit_stride = address_db->size<uint64_t>() == 1;
   MemoryInterface* memory = nullptr;
   for (int i = 0; i < count; i++) {
     // If the mask is true, check this address.
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = memory_targets_.find({address, address + el_size - 1});
       MemoryInterface* tmp_memory = nullptr;
       if (it == memory_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
+        if (default_memory_target_ == nullptr) {
+          memory = nullptr;
+          break;
+        }
         tmp_memory = default_memory_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (memory != nullptr) {
@@ -339,19 +364,26 @@ void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
   TaggedMemoryInterface* tagged_memory = nullptr;
   for (int i = 0; i < count; i++) {
     if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
+      auto address = unit_stride
+                         ? address_db->Get<uint64_t>(0) + i * el_size
+                         : address_db->Get<uint64_t>(i);
       auto it = tagged_targets_.find({address, address + el_size - 1});
       TaggedMemoryInterface* tmp_memory = nullptr;
       if (it == tagged_targets_.end()) {
         // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
+        if (default_tagged_target_ == nullptr) {
+          tagged_memory = nullptr;
+          break;
+        }
         tmp_memory = default_tagged_target_;
       } else {
         auto& range = it->first;
         // If there is no proper overlap, just break out of the loop. We are
         // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
+        if ((range.base > address) || (range.top < address + el_size - 1)) {
+          tagged_memory = nullptr;
           break;
+        }
         tmp_memory = it->second;
       }
       if (tagged_memory != nullptr) {
-- 
2.43.0


From aba79612140717820a8828b599c341cdcb6bf993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 033/135] fix: Cache constructed with a tagged memory aborts as
 two counters have no name

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From 421618296325f4f142782609d52a5982513be738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 034/135] fix: Cache does not mark a line dirty when it is
 allocated by a write

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From 8aa9ebc400e9a87573cd01ef877211671b4fa0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 035/135] fix: Cache only looks up the first element of unit
 stride vector accesses

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..d7c4063 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is a single address, this is a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -320,9 +324,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is a single address, this is a unit stride access.
+  bool unit_stride = address_span.size() == 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          unit_stride ? address_span[0] + i * el_size : address_span[i];
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From e77c5d0004db59116afd0450826e544c741259f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 036/135] fix: Cache loads without an instruction lose their
 context reference and the latency of the data buffer

---
 mpact/sim/util/memory/cache.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index d7c4063..b25c404 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -247,9 +247,14 @@ void Cache::Load(uint64_t address, DataBuffer* db, Instruction* inst,
 
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address, db, cache_inst_, cache_context);
@@ -271,9 +276,14 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address_db, mask_db, el_size, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address_db, mask_db, el_size, db, cache_inst_, cache_context);
-- 
2.43.0


From 4605bf273d6be30cc6c2aac55b3ef508515736fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 037/135] fix: Cache crashes on a load of just tags with a
 latency

---
 mpact/sim/util/memory/cache.cc | 18 +++++++++---------
 mpact/sim/util/memory/cache.h  |  2 +-
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index b25c404..f72e1bb 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -302,7 +302,8 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   } else {
     size = db->size<uint8_t>();
   }
-  int latency = (db != nullptr) ? db->latency() : tags->latency();
+  // The data buffer which has the latency of the load.
+  DataBuffer* latency_db = (db != nullptr) ? db : tags;
 
   (void)CacheLookup(address, size, /*is_read=*/true);
   if (tagged_memory_ == nullptr) return;
@@ -312,13 +313,12 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
     return;
   }
 
-  auto* cache_context = new CacheContext(context, db, inst, latency);
+  auto* cache_context =
+      new CacheContext(context, latency_db, inst, latency_db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
-  if (db) {
-    db->set_latency(0);
-    db->IncRef();
-  }
+  inst->IncRef();
+  latency_db->IncRef();
+  latency_db->set_latency(0);
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
   cache_context->DecRef();
 }
@@ -366,7 +366,7 @@ void Cache::LoadChild(const Instruction* inst) {
   // Reset the db latency to the original value.
   if (nullptr != og_inst) {
     if (cache_context->latency > 0) {
-      if (db != nullptr) db->set_latency(cache_context->latency);
+      db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
           db->latency(), [og_inst, og_context]() {
             og_inst->Execute(og_context);
@@ -379,7 +379,7 @@ void Cache::LoadChild(const Instruction* inst) {
       og_inst->DecRef();
     }
   }
-  if (db) db->DecRef();
+  db->DecRef();
 }
 
 // Cache lookup function.
diff --git a/mpact/sim/util/memory/cache.h b/mpact/sim/util/memory/cache.h
index 711a844..c1dfcd3 100644
--- a/mpact/sim/util/memory/cache.h
+++ b/mpact/sim/util/memory/cache.h
@@ -68,7 +68,7 @@ class Cache : public Component, public TaggedMemoryInterface {
   struct CacheContext : public ReferenceCount {
     // The context of the original memory reference.
     ReferenceCount* context;
-    // Original data buffer.
+    // Original data buffer (the tags, if just tags are loaded).
     DataBuffer* db;
     // Instruction to be executed upon memory access completion.
     Instruction* inst;
-- 
2.43.0


From eed409418e29b203fbd5485d0116ec4597590383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:09 +0000
Subject: [PATCH 038/135] fix: Cache::Configure throws on some texts, and a
 refused or repeated configuration corrupts the one in effect

---
 mpact/sim/util/memory/cache.cc | 75 ++++++++++++++++++++++++++--------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index f72e1bb..27f4613 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,7 +16,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
 #include <vector>
@@ -26,6 +28,7 @@
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
@@ -112,12 +115,29 @@ Cache::~Cache() {
   cache_inst_->DecRef();
 }
 
+// Parses the number that 'text' starts with, and sets 'size' to its length.
+static absl::Status ParseNumber(const std::string& text, int base,
+                                uint64_t* value, std::string::size_type* size) {
+  if (text.empty() || !absl::ascii_isdigit(text[0])) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Invalid number: '", text, "'"));
+  }
+  char* end = nullptr;
+  errno = 0;
+  *value = std::strtoull(text.c_str(), &end, base);
+  if (errno != 0) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("Number out of range: '", text, "'"));
+  }
+  *size = end - text.c_str();
+  return absl::OkStatus();
+}
+
 absl::Status Cache::Configure(const std::string& config,
                               CounterValueOutputBase<uint64_t>* cycle_counter) {
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -125,7 +145,9 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  auto status = ParseNumber(config_vec[0], 10, &cache_size, &size);
+  if (!status.ok()) return status;
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -140,37 +162,48 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
+  uint64_t line_size;
+  status = ParseNumber(config_vec[1], 10, &line_size, &size);
+  if (!status.ok()) return status;
   if (size != config_vec[1].size()) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
+  uint64_t num_sets;
+  status = ParseNumber(config_vec[2], 10, &num_sets, &size);
+  if (!status.ok()) return status;
   if (size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
   // If there are more than 4 entries, check for cacheable, or non-cacheable
   // memory ranges. Format is: [c|nc]:<start_address>:<size>
+  absl::btree_multiset<AddressRange, AddressRangeLess> non_cacheable_ranges;
+  absl::btree_multiset<AddressRange, AddressRangeLess> cacheable_ranges;
   for (int i = 4; i < config_vec.size(); i++) {
     std::vector<std::string> range_vec = absl::StrSplit(config_vec[i], ':');
     if (range_vec.size() != 3) {
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
+    uint64_t range_start;
+    status = ParseNumber(range_vec[1], 0, &range_start, &size);
+    if (!status.ok()) return status;
     if (size != range_vec[1].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
+    uint64_t range_end;
+    status = ParseNumber(range_vec[2], 0, &range_end, &size);
+    if (!status.ok()) return status;
     if (size != range_vec[2].size()) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid size");
@@ -185,19 +218,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -207,7 +238,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -220,14 +251,22 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid, so make it take effect.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  non_cacheable_ranges_ = non_cacheable_ranges;
+  cacheable_ranges_ = cacheable_ranges;
+  has_non_cacheable_ = !non_cacheable_ranges_.empty();
+  has_cacheable_ = !cacheable_ranges_.empty();
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-- 
2.43.0


From 908ce1b0b6a6de7214eb56c6a439e908991b91f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 039/135] fix: MemoryUseTracker crashes on address 0, and does
 not mark all the words of some accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 31 ++++++++++++--------
 mpact/sim/util/memory/memory_use_profiler.h  |  2 ++
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..fe079c4 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -40,30 +39,38 @@ MemoryUseTracker::~MemoryUseTracker() {
 }
 
 // Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
+static inline void MarkUsedBit(uint64_t byte_offset, uint8_t* bits) {
   // Shift right by two, so that every byte offset becomes a word offset.
   uint64_t word_offset = byte_offset >> 2;
   // Byte offs
   uint64_t byte_index = word_offset >> 3;
   int bit_index = word_offset & 0b111;
 
-  bits[byte_index] |= (mask << bit_index);
+  bits[byte_index] |= (1 << bit_index);
 }
 
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+  // The profiling is done on a word boundary, so each word that contains any of
+  // the bytes of the access is marked by a bit.
+  constexpr uint64_t kWordMask = kGranularity - 1;
+  uint64_t last_word = (address + size - 1) & ~kWordMask;
+  for (uint64_t word = address & ~kWordMask; word != last_word;
+       word += kGranularity) {
+    MarkWordUsed(word);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
+  MarkWordUsed(last_word);
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  if ((last_used_ != nullptr) && (address >= last_start_) &&
+      (address <= last_end_)) {
+    return MarkUsedBit(address - last_start_, last_used_);
+  }
+  auto it = memory_use_map_.find(MemoryWatcher::AddressRange{address, address});
   if (it == memory_use_map_.end()) {
     // Compute new base and top addresses.
     uint64_t start = address & ~kBaseMask;
@@ -79,7 +86,7 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   last_start_ = it->first.start;
   last_end_ = it->first.end;
   last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  MarkUsedBit(address - last_start_, it->second);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..b8e7877 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,8 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From 320763757ff3a73277449f1d4ed535a40d45ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 040/135] fix: MemoryUseTracker does not write out ranges that
 reach the end of a segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index fe079c4..103b1ff 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -89,14 +89,27 @@ void MemoryUseTracker::MarkWordUsed(uint64_t address) {
   MarkUsedBit(address - last_start_, it->second);
 }
 
+// Static helper function.
+static void WriteRange(std::ostream& os, uint64_t start, uint64_t end) {
+  os << absl::StrFormat("0x%llx,0x%llx,%llu\n", start, end, end - start + 4);
+}
+
 // Write out ranges of words that have been used.
 void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   // Current range info.
   uint64_t range_start = 0;
   uint64_t range_end = 0;
+  uint64_t segment_end = 0;
   bool range_started = false;
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // If the range from the previous segment does not continue in this one, it
+    // ends at the end of that segment.
+    if (range_started && (base != segment_end + 1)) {
+      WriteRange(os, range_start, segment_end + 1 - kGranularity);
+      range_started = false;
+    }
+    segment_end = range.end;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -113,8 +126,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
         int bit_indx = absl::countr_one(byte) - 1;
         range_end = base + (byte_index * 8 + bit_indx) * kGranularity;
         // Output range.
-        os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
-                              range_end - range_start + 4);
+        WriteRange(os, range_start, range_end);
         // Clear those bits from the current byte, then we start looking for
         // a new range.
         byte &= ~((1 << (bit_indx + 1)) - 1);
@@ -135,6 +147,9 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  if (range_started) {
+    WriteRange(os, range_start, segment_end + 1 - kGranularity);
+  }
 }
 
 }  // namespace internal
-- 
2.43.0


From 90a6f834649a4e47ece28f869a1bccca6a75edfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:58 +0000
Subject: [PATCH 041/135] fix: the memory use profilers only mark the first
 element of unit stride accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 45 ++++++++------------
 mpact/sim/util/memory/memory_use_profiler.h  |  2 +
 2 files changed, 19 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 103b1ff..17005b2 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -65,6 +65,19 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   MarkWordUsed(last_word);
 }
 
+void MemoryUseTracker::MarkUsed(DataBuffer* address_db, DataBuffer* mask_db,
+                                int el_size) {
+  // If there is a single address, this is a unit stride access.
+  bool unit_stride = address_db->size<uint64_t>() == 1;
+  for (int i = 0; i < mask_db->size<uint8_t>(); ++i) {
+    if (mask_db->Get<uint8_t>(i)) {
+      MarkUsed(unit_stride ? address_db->Get<uint64_t>(0) + i * el_size
+                           : address_db->Get<uint64_t>(i),
+               el_size);
+    }
+  }
+}
+
 void MemoryUseTracker::MarkWordUsed(uint64_t address) {
   if ((last_used_ != nullptr) && (address >= last_start_) &&
       (address <= last_end_)) {
@@ -168,13 +181,7 @@ void MemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkUsed(address_db, mask_db, el_size);
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
 
@@ -185,13 +192,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkUsed(address_db, mask_db, el_size);
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
 
@@ -211,13 +212,7 @@ void TaggedMemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkUsed(address_db, mask_db, el_size);
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -237,13 +232,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkUsed(address_db, mask_db, el_size);
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
 
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index b8e7877..f226519 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -54,6 +54,8 @@ class MemoryUseTracker {
   // Size of each 'use' bit store.
   static constexpr int kBitsSize = kSegmentSize / (kGranularity * 8);
   void MarkUsed(uint64_t address, int size);
+  // Mark the elements of a vector access that are not masked off.
+  void MarkUsed(DataBuffer* address_db, DataBuffer* mask_db, int el_size);
   void WriteUseProfile(std::ostream& os) const;
 
  private:
-- 
2.43.0


From 4e2e1fa7a683277a11b40cd880eadc1fbb465f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:20 +0000
Subject: [PATCH 042/135] fix: emitted decoders do not compile when there is
 more than one encoding group

---
 mpact/sim/decoder/instruction_group.cc | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/instruction_group.cc b/mpact/sim/decoder/instruction_group.cc
index e3684ea..e10f168 100644
--- a/mpact/sim/decoder/instruction_group.cc
+++ b/mpact/sim/decoder/instruction_group.cc
@@ -210,15 +210,19 @@ std::tuple<std::string, std::string> InstructionGroup::EmitDecoderCode() {
       "std::pair<", opcode_enum_, ", FormatEnum> Decode", this->name(), "None(",
       format_->uint_type_name(), ") {\n  return std::make_pair(", opcode_enum_,
       "::kNone, FormatEnum::kNone);\n}\n\n");
+  // The result variables are declared once, and assigned for each encoding
+  // group.
+  std::string auto_str = "auto ";
   for (size_t i = 0; i < encoding_group_vec_.size(); i++) {
     auto* grp = encoding_group_vec_[i];
     std::string name = absl::StrCat(this->name(), "_", absl::Hex(i));
     grp->EmitInitializers(name, &initializers, opcode_enum_);
     grp->EmitDecoders(name, &declarations, &definitions, opcode_enum_);
-    absl::StrAppend(&top_level_decoder, "  auto opcode = Decode", name,
+    absl::StrAppend(&top_level_decoder, "  ", auto_str, "opcode = Decode", name,
                     "(inst_word).first;\n");
-    absl::StrAppend(&w_format_top_level_decoder,
-                    "  auto opcode_format = Decode", name, "(inst_word);\n");
+    absl::StrAppend(&w_format_top_level_decoder, "  ", auto_str,
+                    "opcode_format = Decode", name, "(inst_word);\n");
+    auto_str.clear();
     if (encoding_group_vec_.size() > 1) {
       absl::StrAppend(&top_level_decoder, "  if (opcode != ", opcode_enum_,
                       "::kNone) return opcode;\n");
-- 
2.43.0


From 19d4b610cb1c654634c61a27c98b0ba9fcfc189e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:11 +0000
Subject: [PATCH 043/135] fix: emitted decoders mix up fields of different
 formats that have the same name

---
 mpact/sim/decoder/encoding_group.cc | 43 ++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index 33cd871..bfb5bbd 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -28,6 +28,7 @@
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "mpact/sim/decoder/extract.h"
+#include "mpact/sim/decoder/format.h"
 #include "mpact/sim/decoder/format_name.h"
 #include "mpact/sim/decoder/instruction_encoding.h"
 #include "mpact/sim/decoder/instruction_group.h"
@@ -59,6 +60,19 @@ static bool EncodingLess(uint64_t mask, InstructionEncoding* lhs,
   return lhs_val < rhs_val;
 }
 
+// Helper functions that return the name of the variable in the emitted code that
+// holds the value of a field or overlay. The name of the format is part of it,
+// as fields of different formats may have the same name.
+static std::string ValueName(const Field* field) {
+  return absl::StrCat(ToPascalCase(field->format->name()), "_", field->name,
+                      "_value");
+}
+
+static std::string ValueName(const Overlay* overlay) {
+  return absl::StrCat(ToPascalCase(overlay->format()->name()), "_",
+                      overlay->name(), "_value");
+}
+
 EncodingGroup::EncodingGroup(InstructionGroup* inst_group, uint64_t ignore)
     : EncodingGroup(nullptr, inst_group, ignore) {}
 
@@ -461,7 +475,7 @@ void EncodingGroup::ProcessConstraint(
   if (constraint->field != nullptr) {
     // Field constraint.
     Field* field = constraint->field;
-    std::string name = absl::StrCat(field->name, "_value");
+    std::string name = ValueName(field);
     if (extracted.contains(name)) return;
     uint64_t mask = ((1ULL << field->width) - 1);
     // If the bits in the field are already handled by a parent or
@@ -475,7 +489,7 @@ void EncodingGroup::ProcessConstraint(
 
   // It's an overlay constraint.
   Overlay* overlay = constraint->overlay;
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
   auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
@@ -593,7 +607,7 @@ void EncodingGroup::EmitFieldExtraction(
     const Field* field, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(field->name, "_value");
+  std::string name = ValueName(field);
   if (!extracted.contains(name)) {
     std::string data_type;
     if (field->width > inst_group_->width()) {
@@ -623,7 +637,7 @@ void EncodingGroup::EmitOverlayExtraction(
     const Overlay* overlay, const std::string& indent_str,
     absl::flat_hash_set<std::string>& extracted,
     std::string* definitions_ptr) const {
-  std::string name = absl::StrCat(overlay->name(), "_value");
+  std::string name = ValueName(overlay);
   if (!extracted.contains(name)) {
     auto ovl_width = overlay->declared_width();
     std::string data_type;
@@ -685,17 +699,15 @@ int EncodingGroup::EmitOtherConstraintConditions(
     if (constraint->can_ignore) continue;
 
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
-    std::string lhs_name = absl::StrCat((constraint->field != nullptr)
-                                            ? constraint->field->name
-                                            : constraint->overlay->name(),
-                                        "_value");
+    std::string lhs_name = (constraint->field != nullptr)
+                               ? ValueName(constraint->field)
+                               : ValueName(constraint->overlay);
     std::string rhs;
     if ((constraint->rhs_field != nullptr) ||
         (constraint->rhs_overlay != nullptr)) {
-      rhs = absl::StrCat((constraint->rhs_field != nullptr)
-                             ? constraint->rhs_field->name
-                             : constraint->rhs_overlay->name(),
-                         "_value");
+      rhs = (constraint->rhs_field != nullptr)
+                ? ValueName(constraint->rhs_field)
+                : ValueName(constraint->rhs_overlay);
     } else {
       rhs = absl::StrCat("0x", absl::Hex(constraint->value));
     }
@@ -715,10 +727,9 @@ int EncodingGroup::EmitConstraintConditions(
   for (auto const* constraint : constraints) {
     std::string comparison(kComparison[static_cast<int>(constraint->type)]);
     if (constraint->can_ignore) continue;
-    std::string name = absl::StrCat((constraint->field != nullptr)
-                                        ? constraint->field->name
-                                        : constraint->overlay->name(),
-                                    "_value");
+    std::string name = (constraint->field != nullptr)
+                           ? ValueName(constraint->field)
+                           : ValueName(constraint->overlay);
     absl::StrAppend(condition, connector, "(", name, " ", comparison, " 0x",
                     absl::Hex(constraint->value), ")");
     connector = " &&\n          ";
-- 
2.43.0


From add5984333d5a60297884294d57fc1ee7de40bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:15:14 +0000
Subject: [PATCH 044/135] fix: emitted decoders of instructions with
 specializations have unbalanced braces

---
 mpact/sim/decoder/encoding_group.cc | 55 ++++++++++++-----------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index bfb5bbd..b0c9a01 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -558,45 +558,34 @@ int EncodingGroup::EmitEncodingIfStatement(
   }
   // If the instruction has specializations, emit the if statement for each
   // specialization.
-  std::string if_str = "if ";
-  if (specialization) {
-    for (auto const& [name, encoding] : encoding->specializations()) {
-      int spec_count = 0;
-      std::string spec_condition;
-      std::string spec_connector;
-      // Construct the condition for the specialization instruction.
-      spec_count += EmitConstraintConditions(
-          encoding->equal_constraints(), "==", spec_connector, &spec_condition);
-      spec_count +=
-          EmitConstraintConditions(encoding->equal_extracted_constraints(),
-                                   "==", spec_connector, &spec_condition);
-      spec_count += EmitOtherConstraintConditions(
-          encoding->other_constraints(), spec_connector, &spec_condition);
-      if (spec_count > 1) {
-        absl::StrAppend(definitions_ptr, indent_str, if_str, "(",
-                        spec_condition, ") {\n");
-        indent_str.append("  ");
-      } else if (spec_count == 1) {
-        absl::StrAppend(definitions_ptr, indent_str, if_str, spec_condition,
-                        " {\n");
-      }
-      absl::StrAppend(definitions_ptr, indent_str, "  return std::make_pair(",
-                      opcode_enum, "::k", ToPascalCase(encoding->name()),
-                      ", FormatEnum::k", ToPascalCase(encoding->format_name()),
-                      ");\n");
-      if_str = "} else if ";
+  for (auto const& [unused, spec] : encoding->specializations()) {
+    int spec_count = 0;
+    std::string spec_condition;
+    std::string spec_connector;
+    // Construct the condition for the specialization instruction.
+    spec_count += EmitConstraintConditions(spec->equal_constraints(),
+                                           "==", spec_connector,
+                                           &spec_condition);
+    spec_count +=
+        EmitConstraintConditions(spec->equal_extracted_constraints(),
+                                 "==", spec_connector, &spec_condition);
+    spec_count += EmitOtherConstraintConditions(
+        spec->other_constraints(), spec_connector, &spec_condition);
+    if (spec_count > 0) {
+      absl::StrAppend(definitions_ptr, indent_str, "if (", spec_condition,
+                      ")\n  ");
     }
-    absl::StrAppend(definitions_ptr, indent_str, "} else {\n");
-    indent_str.append("  ");
+    absl::StrAppend(definitions_ptr, indent_str, "return std::make_pair(",
+                    opcode_enum, "::k", ToPascalCase(spec->name()),
+                    ", FormatEnum::k", ToPascalCase(spec->format_name()),
+                    ");\n");
   }
   absl::StrAppend(definitions_ptr, indent_str, "return std::make_pair(",
                   opcode_enum, "::k", ToPascalCase(encoding->name()),
                   ", FormatEnum::k", ToPascalCase(encoding->format_name()),
                   ");\n");
-  if (specialization) {
-    // Close the if statements.
-    indent_str = indent_str.substr(2);
-    absl::StrAppend(definitions_ptr, indent_str, "}\n");
+  if (specialization && (count > 0)) {
+    // Close the if statement.
     indent_str = indent_str.substr(2);
     absl::StrAppend(definitions_ptr, indent_str, "}\n");
   }
-- 
2.43.0


From 50c0cdb620be8e4883c133d82b36dffac46f0b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:19 +0000
Subject: [PATCH 045/135] fix: numbers with digit separators are cut short, and
 large numbers throw, in binary format descriptions

---
 mpact/sim/decoder/bin_format_visitor.cc | 39 +++++++++++++++++++++----
 mpact/sim/decoder/bin_format_visitor.h  |  1 +
 2 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 03729b6..975dd0d 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -15,12 +15,15 @@
 #include "mpact/sim/decoder/bin_format_visitor.h"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <deque>
 #include <filesystem>  // NOLINT: third party.
 #include <fstream>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <list>
 #include <memory>
 #include <string>
@@ -34,6 +37,7 @@
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
 #include "antlr4-runtime/ParserRuleContext.h"
 #include "mpact/sim/decoder/bin_decoder.h"
@@ -507,19 +511,42 @@ BinaryNum BinFormatVisitor::ParseBinaryNum(TerminalNode* node) {
     value |= d - '0';
     width++;
   }
+  if (width > 64) {
+    error_listener_->semanticError(node->getSymbol(),
+                                   "Binary number is wider than 64 bits");
+    return BinaryNum{/*value=*/0, /*width=*/-1};
+  }
   return BinaryNum{value, width};
 }
 
 // Parse a number string and return the value.
-int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+int64_t BinFormatVisitor::ConvertToInt64(NumberCtx* ctx) {
   // Binary has to be handled separately.
   auto bin_number = ctx->BIN_NUMBER();
   if (bin_number != nullptr) {
-    return static_cast<int>(ParseBinaryNum(bin_number).value);
+    int64_t value = ParseBinaryNum(bin_number).value;
+    if (value >= 0) return value;
+    error_listener_->semanticError(ctx->start, "Number is out of range");
+    return 0;
+  }
+  // Hex, octal and decimal. The digits may be separated by single quotes.
+  std::string digits = absl::StrReplaceAll(ctx->getText(), {{"'", ""}});
+  errno = 0;
+  int64_t value = std::strtoll(digits.c_str(), nullptr, 0);
+  if (errno == ERANGE) {
+    error_listener_->semanticError(ctx->start, "Number is out of range");
+    return 0;
+  }
+  return value;
+}
+
+int BinFormatVisitor::ConvertToInt(NumberCtx* ctx) {
+  int64_t value = ConvertToInt64(ctx);
+  if (value > std::numeric_limits<int>::max()) {
+    error_listener_->semanticError(ctx->start, "Number is out of range");
+    return 0;
   }
-  // Hex, octal and decimal.
-  int ret_val = std::stoi(ctx->getText(), nullptr, 0);
-  return ret_val;
+  return static_cast<int>(value);
 }
 
 std::unique_ptr<BinEncodingInfo> BinFormatVisitor::ProcessTopLevel(
@@ -1249,7 +1276,7 @@ void BinFormatVisitor::VisitConstraint(Format* format, FieldConstraintCtx* ctx,
         }
       }
     }
-    int value = ConvertToInt(ctx->number());
+    int64_t value = ConvertToInt64(ctx->number());
     if (constraint_type == ConstraintType::kEq) {
       status = inst_encoding->AddEqualConstraint(field_name, value);
     } else {
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index e1ba70f..7ab07d5 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -119,6 +119,7 @@ class BinFormatVisitor {
   BinaryNum ParseBinaryNum(TerminalNode* node);
   BitRange GetBitIndexRange(BitIndexRangeCtx* ctx);
   int ConvertToInt(NumberCtx* ctx);
+  int64_t ConvertToInt64(NumberCtx* ctx);
   // Methods that visit the nodes of the parse tree.
   std::unique_ptr<BinEncodingInfo> ProcessTopLevel(
       const std::string& decoder_name);
-- 
2.43.0


From be792e9fef2a3ae41aa1b86c650b601034c19046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:17:56 +0000
Subject: [PATCH 046/135] fix: constraints on fields and overlays wider than 31
 bits are checked and masked in int arithmetic

---
 mpact/sim/decoder/instruction_encoding.cc | 25 ++++++++++++++---------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/instruction_encoding.cc b/mpact/sim/decoder/instruction_encoding.cc
index 4940273..0d5ae39 100644
--- a/mpact/sim/decoder/instruction_encoding.cc
+++ b/mpact/sim/decoder/instruction_encoding.cc
@@ -151,21 +151,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
       }
       // Check that the value is in range.
       if (value < 0) {
-        int64_t min_value = -(1 << (field->width - 1));
+        int64_t min_value = -(1LL << (field->width - 1));
         if (value < min_value) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       } else {
-        if (value >= (1 << (field->width - 1))) {
+        if (value >= (1LL << (field->width - 1))) {
           return absl::OutOfRangeError(absl::StrCat(
               "Constraint value (", value, ") out of range for signed field '",
               field_name, "'"));
         }
       }
     }
-    value &= (1 << field->width) - 1;
+    value &= (1LL << field->width) - 1;
     auto* constraint = new Constraint();
     constraint->type = type;
     constraint->field = field;
@@ -181,9 +181,14 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
         "' does not contain a field or overlay named ", field_name));
   }
   int width = overlay->computed_width();
+  if (width >= 64) {
+    return absl::OutOfRangeError(
+        absl::StrCat("Overlay '", field_name,
+                     "' is too wide to create constraint - must be < 64 bits"));
+  }
   bool is_signed = overlay->is_signed();
   if (!is_signed) {
-    if ((value >= (1 << width)) || (value < 0)) {
+    if ((value < 0) || (value >= (1ULL << width))) {
       return absl::OutOfRangeError(absl::StrCat(
           "Constraint value exceeds field width for field '", field_name, "'"));
     }
@@ -194,22 +199,21 @@ absl::StatusOr<Constraint*> InstructionEncoding::CreateConstraint(
                        field_name));
     }  // Check that the value is in range.
     if (value < 0) {
-      int64_t min_value = -(1 << (width - 1));
+      int64_t min_value = -(1LL << (width - 1));
       if (value < min_value) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
-      value = value & ((1 << width) - 1);
     } else {
-      if (value >= (1 << (width - 1))) {
+      if (value >= (1LL << (width - 1))) {
         return absl::OutOfRangeError(absl::StrCat(
             "Constraint value (", value, ") out of range for signed overlay '",
             field_name, "'"));
       }
     }
   }
-  value &= (1 << width) - 1;
+  value &= (1LL << width) - 1;
   auto* constraint = new Constraint();
   constraint->type = type;
   constraint->overlay = overlay;
@@ -261,6 +265,7 @@ absl::Status InstructionEncoding::AddOtherConstraint(
 absl::Status InstructionEncoding::ComputeMaskAndValue() {
   // First consider equal constraints.
   mask_ = 0;
+  value_ = 0;
   for (auto* constraint : equal_constraints_) {
     uint64_t mask = 0;
     uint64_t value = 0;
@@ -309,12 +314,12 @@ absl::Status InstructionEncoding::ComputeMaskAndValue() {
     // If the rhs is a field or overlay, add to the mask.
     if (constraint->rhs_field != nullptr) {
       int width = constraint->rhs_field->width;
-      mask &= (1LLU << width) - 1;
+      mask = (1LLU << width) - 1;
       int shift = constraint->rhs_field->low;
       mask <<= shift;
       other_mask_ |= mask;
     } else if (constraint->rhs_overlay != nullptr) {
-      mask &= constraint->rhs_overlay->mask();
+      mask = constraint->rhs_overlay->mask();
       other_mask_ |= mask;
     }
   }
-- 
2.43.0


From 47355b52c9e840341725f13e91611c0606170b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:12 +0000
Subject: [PATCH 047/135] fix: emitted overlay values are wrong for constant,
 wide and all-word overlays

---
 mpact/sim/decoder/overlay.cc | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index 71e9f89..baf77f7 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -36,6 +36,15 @@ namespace bin_format {
 using ::mpact::sim::machine_description::instruction_set::ToPascalCase;
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+namespace {
+
+// Return a mask of the 'width' low order bits.
+uint64_t LowMask(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
+}  // namespace
+
 BitsOrField::BitsOrField(Field* field, int high, int low, int width)
     : field_(field), high_(high), low_(low), width_(width), position_(-1) {}
 
@@ -159,7 +168,7 @@ absl::Status Overlay::ComputeHighLow() {
         component->set_high(component->high() + component->field()->low);
         component->set_low(component->low() + component->field()->low);
       }
-      mask_ |= ((1LLU << component->width()) - 1) << component->low();
+      mask_ |= LowMask(component->width()) << component->low();
     }
     position -= component->width();
   }
@@ -182,7 +191,7 @@ absl::StatusOr<uint64_t> Overlay::GetValue(uint64_t input) const {
       int shift = component->position() - bin_num.width + 1;
       value |= bin_num.value << shift;
     } else {
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowMask(component->width()) << component->low();
       int diff = component->high() - component->position();
       auto tmp = (input & mask);
       tmp = (diff < 0) ? tmp << -diff : tmp >> diff;
@@ -197,7 +206,7 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
   for (auto* component : component_vec_) {
     // Constant bits do not map to the instruction word.
     if (component->high() < 0) continue;
-    uint64_t mask = ((1ULL << component->width()) - 1);
+    uint64_t mask = LowMask(component->width());
     int shift = component->position() - component->width() + 1;
     uint64_t bits = ((input >> shift) & mask);
     bitfield |= bits << component->low();
@@ -226,6 +235,9 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
   std::string output;
   std::string assign = " = ";
   for (auto* component : component_vec_) {
+    // Make sure that the expression is wide enough for bits that do not fit in
+    // an int.
+    const char* suffix = component->position() >= 31 ? "ULL" : "";
     if (component->high() < 0) {
       // Binary literals are added.
       BinaryNum bin_num = component->bin_num();
@@ -233,16 +245,17 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
       if (bin_num.value == 0) continue;
 
       int shift = component->position() - bin_num.width + 1;
-      absl::StrAppend(&output, "  ", result, assign, bin_num.value);
+      absl::StrAppend(&output, "  ", result, assign,
+                      static_cast<uint64_t>(bin_num.value), suffix);
       if (shift > 0) {
         absl::StrAppend(&output, " << ", shift);
       }
       absl::StrAppend(&output, ";\n");
     } else {
       // Field or format references are added.
-      uint64_t mask = ((1ULL << component->width()) - 1) << component->low();
+      uint64_t mask = LowMask(component->width()) << component->low();
       absl::StrAppend(&output, "  ", result, assign, "(", value, " & 0x",
-                      absl::Hex(mask), ")");
+                      absl::Hex(mask), suffix, ")");
       int diff = component->high() - component->position();
       if (diff < 0) {
         absl::StrAppend(&output, " << ", -diff);
@@ -253,6 +266,8 @@ std::string Overlay::WriteSimpleValueExtractor(absl::string_view value,
     }
     assign = " |= ";
   }
+  // The value still has to be set if there are only constant zero bits.
+  if (output.empty()) absl::StrAppend(&output, "  ", result, " = 0;\n");
   return output;
 }
 
-- 
2.43.0


From b2fe9a12fa41407e05da31b02cd9392e5dad89fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:12 +0000
Subject: [PATCH 048/135] fix: specializations are lost when the instruction
 group is combined with others, or applied in the wrong group

---
 mpact/sim/decoder/bin_format_visitor.cc | 63 +++++++++++++++++--------
 mpact/sim/decoder/bin_format_visitor.h  | 15 +++++-
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 975dd0d..3573979 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -1042,7 +1042,7 @@ void BinFormatVisitor::VisitInstructionDef(InstructionDefCtx* ctx,
   // for later processing when all the instructions have been processed.
   int file_index = context_file_map_.at(ctx);
   if (ctx->parent != nullptr) {
-    specializations_.push_back(ctx);
+    specializations_.push_back({ctx, inst_group});
     context_file_map_.insert({ctx, file_index});
     return;
   }
@@ -1478,6 +1478,7 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
   }
   auto parent_group = res.value();
   for (auto* child_group : child_groups) {
+    combined_groups_[child_group].push_back(parent_group);
     for (auto* encoding : child_group->encoding_vec()) {
       parent_group->AddInstructionEncoding(new InstructionEncoding(*encoding));
     }
@@ -1486,31 +1487,53 @@ InstructionGroup* BinFormatVisitor::VisitInstructionGroupNameList(
 }
 
 void BinFormatVisitor::ProcessSpecializations(BinEncodingInfo* encoding_info) {
-  for (auto* ctx : specializations_) {
+  for (auto [ctx, inst_group] : specializations_) {
     auto file_index = context_file_map_.at(ctx);
     std::string name = ctx->name->getText();
     std::string parent_name = ctx->parent->getText();
+    // The specialization applies to the instruction in the group it is defined
+    // in, and in all the groups that group is combined into.
+    std::vector<InstructionGroup*> groups = {inst_group};
+    for (size_t i = 0; i < groups.size(); ++i) {
+      auto iter = combined_groups_.find(groups[i]);
+      if (iter == combined_groups_.end()) continue;
+      groups.insert(groups.end(), iter->second.begin(), iter->second.end());
+    }
+    bool found = false;
+    for (auto* grp_ptr : groups) {
+      found |= AddSpecialization(ctx, file_index, name, parent_name, grp_ptr);
+    }
+    if (found) continue;
+    // Otherwise, the instruction may be defined in another group.
     for (auto& [unused, grp_ptr] : encoding_info->instruction_group_map()) {
-      auto iter = grp_ptr->encoding_name_map().find(parent_name);
-      if (iter != grp_ptr->encoding_name_map().end()) {
-        auto* parent_encoding = iter->second;
-        auto* format = parent_encoding->format();
-        auto* inst_encoding =
-            new InstructionEncoding(name, format, /*is_duplicate=*/false);
-        for (auto* constraint :
-             ctx->field_constraint_list()->field_constraint()) {
-          context_file_map_.insert({constraint, file_index});
-          VisitConstraint(format, constraint, inst_encoding);
-        }
-        if (!grp_ptr->AddSpecialization(name, parent_name, inst_encoding)
-                 .ok()) {
-          delete inst_encoding;
-          continue;
-        }
-        break;
-      }
+      found = AddSpecialization(ctx, file_index, name, parent_name, grp_ptr);
+      if (found) break;
     }
+    if (found) continue;
+    error_listener_->semanticError(
+        file_names_[file_index], ctx->start,
+        absl::StrCat("Instruction '", parent_name, "' specialized by '", name,
+                     "' not defined"));
+  }
+}
+
+bool BinFormatVisitor::AddSpecialization(InstructionDefCtx* ctx, int file_index,
+                                         const std::string& name,
+                                         const std::string& parent_name,
+                                         InstructionGroup* inst_group) {
+  auto iter = inst_group->encoding_name_map().find(parent_name);
+  if (iter == inst_group->encoding_name_map().end()) return false;
+  auto* format = iter->second->format();
+  auto* inst_encoding =
+      new InstructionEncoding(name, format, /*is_duplicate=*/false);
+  for (auto* constraint : ctx->field_constraint_list()->field_constraint()) {
+    context_file_map_.insert({constraint, file_index});
+    VisitConstraint(format, constraint, inst_encoding);
+  }
+  if (!inst_group->AddSpecialization(name, parent_name, inst_encoding).ok()) {
+    delete inst_encoding;
   }
+  return true;
 }
 
 }  // namespace bin_format
diff --git a/mpact/sim/decoder/bin_format_visitor.h b/mpact/sim/decoder/bin_format_visitor.h
index 7ab07d5..4745888 100644
--- a/mpact/sim/decoder/bin_format_visitor.h
+++ b/mpact/sim/decoder/bin_format_visitor.h
@@ -152,6 +152,12 @@ class BinFormatVisitor {
       absl::flat_hash_set<std::string>& group_name_set,
       BinEncodingInfo* encoding_info);
   void ProcessSpecializations(BinEncodingInfo* encoding_info);
+  // Adds the specialization to the named instruction of the group. Returns
+  // false if there is no such instruction in the group.
+  bool AddSpecialization(InstructionDefCtx* ctx, int file_index,
+                         const std::string& name,
+                         const std::string& parent_name,
+                         InstructionGroup* inst_group);
 
   // Accessors.
   decoder::DecoderErrorListener* error_listener() const {
@@ -184,8 +190,13 @@ class BinFormatVisitor {
   absl::flat_hash_map<std::string, ConstraintType> constraint_string_to_type_;
   // Set of include files marked as once.
   absl::flat_hash_set<std::string> once_include_files_;
-  // Specializations to process after all instructions have been processed.
-  std::vector<InstructionDefCtx*> specializations_;
+  // Specializations to process after all instructions have been processed, with
+  // the group they are defined in.
+  std::vector<std::pair<InstructionDefCtx*, InstructionGroup*>>
+      specializations_;
+  // The groups that each group has been combined into.
+  absl::flat_hash_map<InstructionGroup*, std::vector<InstructionGroup*>>
+      combined_groups_;
 };
 
 }  // namespace bin_format
-- 
2.43.0


From d61c8d0c2bc45491625db23f708cdd8146f22b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:29 +0000
Subject: [PATCH 049/135] fix: extractors of replicated sub-formats read the
 wrong instance or do not compile

---
 mpact/sim/decoder/format.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 1a23903..b85d000 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -838,14 +838,13 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
     int low = high - width + 1;
     std::string shift;
     if (size > 1) {
-      shift = absl::StrCat("(", low, " + (index - 1) * ", width, ")");
+      shift = absl::StrCat("(", low, " - (index * ", width, "))");
     } else {
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
       uint64_t mask = (1ULL << width) - 1;
-      expr =
-          absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask), ";\n");
+      expr = absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask));
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
       absl::StrAppend(&h_output,
@@ -876,7 +875,8 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
   if ((declared_width_ <= 128) &&
       (absl::popcount(static_cast<unsigned>(declared_width_)) > 1)) {
     absl::StrAppend(&h_output, "inline ", return_type, " Extract",
-                    ToPascalCase(format_alias), "(const uint8_t *value) {\n");
+                    ToPascalCase(format_alias), "(const uint8_t *value",
+                    size > 1 ? ", int index" : "", ") {\n");
     int byte_size = (declared_width_ + 7) / 8;
     expr = absl::StrCat("internal::ExtractBits<", return_type, ">(value, ",
                         byte_size, ", ", high);
-- 
2.43.0


From 8c3f950bd72286dfba0fb4d2871d06354d10d18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 050/135] fix: emitted overlay inserters do not clear the bits
 they write, and truncate overlays wider than the format

---
 mpact/sim/decoder/format.cc | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index b85d000..e20932f 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -35,6 +35,11 @@ namespace bin_format {
 
 using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 
+// Returns a mask with the 'width' (1 to 64) low bits set.
+static uint64_t Mask64(int width) {
+  return width >= 64 ? ~0ULL : (1ULL << width) - 1;
+}
+
 FieldOrFormat::~FieldOrFormat() {
   if (is_field_) {
     delete field_;
@@ -547,7 +552,9 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
   std::string result_type_name = GetUIntType(computed_width_);
   std::string overlay_type_name;
   if (computed_width_ <= 128) {
-    overlay_type_name = result_type_name;
+    // An overlay with constant bits can be wider than the format.
+    overlay_type_name =
+        GetUIntType(std::max(computed_width_, overlay->declared_width()));
   } else {
     overlay_type_name = GetUIntType(overlay->declared_width());
   }
@@ -598,7 +605,7 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
                       width, ") - 1;\n");
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & mask;\n");
     } else {
-      uint64_t mask = ((1ULL << width) - 1);
+      uint64_t mask = Mask64(width);
       // Extract the bits from the overlay value for the current component.
       absl::StrAppend(&h_output, "  tmp = (value ", shift, ") & 0x",
                       absl::Hex(mask), "ULL;\n");
@@ -608,7 +615,15 @@ std::string Format::GenerateOverlayInserter(Overlay* overlay) const {
       shift = absl::StrCat(" << ", bits_or_field->low());
     }
     if (declared_width_ <= 128) {
-      absl::StrAppend(&h_output, "  inst_word |= (tmp ", shift, ");\n");
+      // Clear the bits that are written before inserting the new value.
+      std::string target_mask =
+          use_mask_variable ? absl::StrCat("(mask", shift, ")")
+                            : absl::StrCat("0x",
+                                           absl::Hex(Mask64(width)
+                                                     << bits_or_field->low()),
+                                           "ULL");
+      absl::StrAppend(&h_output, "  inst_word = (inst_word & ~", target_mask,
+                      ") | (tmp ", shift, ");\n");
     } else {
       absl::StrAppend(&h_output, "  internal::InsertBits(inst_word, ",
                       byte_size, ", ", bits_or_field->high(), ", ", width,
-- 
2.43.0


From 9065292833f5602837727a8223dffe4180d30918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 051/135] fix: emitted inserters of replicated sub-formats
 clear the bits below the instance

---
 mpact/sim/decoder/format.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index e20932f..5a275fe 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -710,7 +710,7 @@ std::string Format::GenerateReplicatedFormatInserter(
     uint64_t mask = (1ULL << width) - 1;
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
-                    "  return (inst_word & (~0x",
+                    "  return (inst_word & ~(0x",
                     absl::Hex(mask), "ULL << low))", " | ((value << low) & (0x",
                     absl::Hex(mask), "ULL << low));\n}\n");
   } else if (declared_width_ <= 128) {
-- 
2.43.0


From 2ad2849303061f085b88b6e760b9fd25fdba1c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 052/135] fix: emitted extractors and inserters of 64 bit wide
 fields and sub-formats have empty masks

---
 mpact/sim/decoder/format.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index 5a275fe..b6723d4 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -402,7 +402,7 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
   // <= 128 bits. For larger formats use the templated extract helper function.
   std::string expr;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << field->width) - 1;
+    uint64_t mask = Mask64(field->width);
     if (field->low == 0) {
       expr = absl::StrCat("value & 0x", absl::Hex(mask));
     } else {
@@ -504,7 +504,7 @@ std::string Format::GenerateFieldInserter(const Field* field) const {
                   ToPascalCase(field->name), "(", field_type_name, " value, ",
                   inst_word_type_name, " inst_word) {\n");
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << field->width) - 1) << field->low;
+    uint64_t mask = Mask64(field->width) << field->low;
     std::string shift;
     if (field->low != 0) {
       shift = absl::StrCat(" << ", field->low);
@@ -707,7 +707,7 @@ std::string Format::GenerateReplicatedFormatInserter(
   int width = format->declared_width();
   int low = high - width + 1;
   if (declared_width_ <= 64) {
-    uint64_t mask = (1ULL << width) - 1;
+    uint64_t mask = Mask64(width);
     absl::StrAppend(&h_output, "  int low = ", low, " - (index * ", width,
                     ");\n"
                     "  return (inst_word & ~(0x",
@@ -763,7 +763,7 @@ std::string Format::GenerateSingleFormatInserter(std::string_view format_alias,
     shift = absl::StrCat(" << ", low);
   }
   if (declared_width_ <= 64) {
-    uint64_t mask = ((1ULL << width) - 1) << low;
+    uint64_t mask = Mask64(width) << low;
     absl::StrAppend(&h_output, "  return (inst_word & (~0x", absl::Hex(mask),
                     "ULL))", " | ((value ", shift, ") & 0x", absl::Hex(mask),
                     "ULL);\n}\n");
@@ -858,7 +858,7 @@ std::string Format::GenerateFormatExtractor(absl::string_view format_alias,
       shift = absl::StrCat(low);
     }
     if (declared_width_ <= 64) {
-      uint64_t mask = (1ULL << width) - 1;
+      uint64_t mask = Mask64(width);
       expr = absl::StrCat("(value >> ", shift, ") & 0x", absl::Hex(mask));
       absl::StrAppend(&h_output, "  return ", expr, ";\n}\n\n");
     } else {
-- 
2.43.0


From 74e2ce4f97d4ef02c8e2ce535664b8251e8a24bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 053/135] fix: emitted byte array extractors of signed fields
 do not sign extend

---
 mpact/sim/decoder/format.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index b6723d4..db76530 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -449,9 +449,17 @@ std::string Format::GenerateFieldExtractor(const Field* field) const {
     absl::StrAppend(&h_output, "inline ", result_type_name, " Extract",
                     ToPascalCase(field->name), "(const uint8_t *value) {\n");
     int byte_size = (declared_width_ + 7) / 8;
-    absl::StrAppend(&h_output, "  return internal::ExtractBits<",
-                    result_type_name, ">(value, ", byte_size, ", ", field->high,
-                    ", ", field->width, ");\n}\n\n");
+    std::string bytes_expr =
+        absl::StrCat("internal::ExtractBits<", result_type_name, ">(value, ",
+                     byte_size, ", ", field->high, ", ", field->width, ")");
+    if (field->is_signed) {
+      int shift = return_width - field->width;
+      absl::StrAppend(&h_output, "  ", result_type_name, " result = ",
+                      bytes_expr, " << ", shift, ";\n  result = result >> ",
+                      shift, ";\n");
+      bytes_expr = "result";
+    }
+    absl::StrAppend(&h_output, "  return ", bytes_expr, ";\n}\n\n");
   }
   return h_output;
 }
-- 
2.43.0


From 9b16643ca85d17298e7f7b21aa36249d5b96b197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:21 +0000
Subject: [PATCH 054/135] fix: emitted ExtractBits extracts fields of more than
 31 bits in int arithmetic

---
 mpact/sim/decoder/bin_format_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/bin_format_visitor.cc b/mpact/sim/decoder/bin_format_visitor.cc
index 3573979..dea2d94 100644
--- a/mpact/sim/decoder/bin_format_visitor.cc
+++ b/mpact/sim/decoder/bin_format_visitor.cc
@@ -82,7 +82,7 @@ static inline T ExtractBits(const uint8_t *data, int data_size, int msb,
   while (bits_left > 0) {
     int bwidth = std::min(8 - blsb, bits_left);
     uint8_t bmask = ((1 << bwidth) - 1) << blsb;
-    val |= ((data[byte_low] & bmask) >> blsb) << bits_extracted;
+    val |= static_cast<T>((data[byte_low] & bmask) >> blsb) << bits_extracted;
     blsb = 0;
     bits_left -= bwidth;
     bits_extracted += bwidth;
-- 
2.43.0


From 0af7cd6615c75125f70d97523025feb9c9d42f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:37:17 +0000
Subject: [PATCH 055/135] fix: base formats get extractors of fields that
 differ between the derived formats

---
 mpact/sim/decoder/format.cc  | 19 +++++++++++++------
 mpact/sim/decoder/overlay.cc |  2 ++
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/decoder/format.cc b/mpact/sim/decoder/format.cc
index db76530..f05aa1a 100644
--- a/mpact/sim/decoder/format.cc
+++ b/mpact/sim/decoder/format.cc
@@ -53,10 +53,13 @@ FieldOrFormat::~FieldOrFormat() {
 bool FieldOrFormat::operator==(const FieldOrFormat& rhs) const {
   if (is_field_ != rhs.is_field_) return false;
   if (is_field_) {
-    if (high_ != rhs.high_) return false;
-    if (size_ != rhs.size_) return false;
+    if (field_->high != rhs.field_->high) return false;
+    if (field_->width != rhs.field_->width) return false;
+    if (field_->is_signed != rhs.field_->is_signed) return false;
   } else {
     if (format_ != rhs.format_) return false;
+    if (high_ != rhs.high_) return false;
+    if (size_ != rhs.size_) return false;
   }
   return true;
 }
@@ -265,8 +268,12 @@ void Format::PropagateExtractorsUp() {
         continue;
       } else if (*field_or_format_ptr != *(iter->second)) {
         // If the base extractor refers to a different object, fail the
-        // promotion.
-        base_format_->extractors_[name] = nullptr;
+        // promotion, unless the base format itself defines it.
+        auto const& base_vec = base_format_->field_vec_;
+        if (std::find(base_vec.begin(), base_vec.end(), iter->second) ==
+            base_vec.end()) {
+          iter->second = nullptr;
+        }
       }
     }
     for (auto const& [name, overlay_ptr] : overlay_extractors_) {
@@ -283,8 +290,8 @@ void Format::PropagateExtractorsUp() {
         continue;
       } else if (*overlay_ptr != *(iter->second)) {
         // If the base format extractor refers to a different overlay type,
-        // fail the promotion.
-        base_format_->overlay_extractors_[name] = nullptr;
+        // fail the promotion, unless the base format itself defines it.
+        if (iter->second->format() != base_format_) iter->second = nullptr;
       }
     }
   }
diff --git a/mpact/sim/decoder/overlay.cc b/mpact/sim/decoder/overlay.cc
index baf77f7..2b73ca4 100644
--- a/mpact/sim/decoder/overlay.cc
+++ b/mpact/sim/decoder/overlay.cc
@@ -215,6 +215,8 @@ absl::StatusOr<uint64_t> Overlay::GetBitField(uint64_t input) {
 }
 
 bool Overlay::operator==(const Overlay& rhs) const {
+  if (declared_width_ != rhs.declared_width_) return false;
+  if (is_signed_ != rhs.is_signed_) return false;
   if (declared_width_ > 64) {
     return WriteComplexValueExtractor("value", "result", "") ==
            rhs.WriteComplexValueExtractor("value", "result", "");
-- 
2.43.0


From d2f9fb3efeb9e66cf707d0e747c3ad39e37fa83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:44:33 +0000
Subject: [PATCH 056/135] fix: emitted decoders skip constraints on overlays of
 32 or more bits

---
 mpact/sim/decoder/encoding_group.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/encoding_group.cc b/mpact/sim/decoder/encoding_group.cc
index b0c9a01..2d9fcc7 100644
--- a/mpact/sim/decoder/encoding_group.cc
+++ b/mpact/sim/decoder/encoding_group.cc
@@ -477,7 +477,8 @@ void EncodingGroup::ProcessConstraint(
     Field* field = constraint->field;
     std::string name = ValueName(field);
     if (extracted.contains(name)) return;
-    uint64_t mask = ((1ULL << field->width) - 1);
+    uint64_t mask =
+        field->width >= 64 ? ~0ULL : ((1ULL << field->width) - 1);
     // If the bits in the field are already handled by a parent or
     // the discriminator, ignore the field. There is no need to emit
     // a check for it.
@@ -492,7 +493,7 @@ void EncodingGroup::ProcessConstraint(
   std::string name = ValueName(overlay);
   uint64_t mask = 0;
   // Get the bits that correspond to the overlay.
-  auto result = overlay->GetBitField((1 << overlay->declared_width()) - 1);
+  auto result = overlay->GetBitField(~0ULL);
   if (result.ok()) {
     mask = result.value();
   } else {
-- 
2.43.0


From 3246ed31fd22ef6687cc88d995b18c70025013a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 057/135] fix: GdbServer closes its descriptors more than once,
 possibly those of other files

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++----------
 mpact/sim/util/gdbserver/gdbserver.h  |  9 +++------
 2 files changed, 9 insertions(+), 16 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..6135954 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -243,18 +243,14 @@ bool GdbServer::Connect(int port) {
 void GdbServer::Terminate() {
   // Shutdown the connection.
   if (cli_fd_ != -1) {
-    int res = fcntl(cli_fd_, F_GETFD);
-    if (res >= 0) {
-      (void)shutdown(cli_fd_, SHUT_RDWR);
-      (void)close(cli_fd_);
-    }
+    (void)shutdown(cli_fd_, SHUT_RDWR);
+    (void)close(cli_fd_);
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
-    int res = shutdown(server_socket_, SHUT_RDWR);
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      (void)close(server_socket_);
-    }
+    (void)shutdown(server_socket_, SHUT_RDWR);
+    (void)close(server_socket_);
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..3226330 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -42,18 +42,15 @@ using ::mpact::sim::generic::DebugInfo;
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
 // implement to make this happen. No buffering is performed. This streambuf
-// does not expand \n to \r\n or vice versa.
+// does not expand \n to \r\n or vice versa. The file descriptor is owned (and
+// closed) by the user of this class.
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
-    }
+    if (c == EOF) return c;
     write(fd_, &c, 1);
     return c;
   }
-- 
2.43.0


From c6a3ead5c9a24ae5258868f8cc7758cf8716cd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:45:24 +0000
Subject: [PATCH 058/135] fix: GdbServer::Connect leaks the streams, and keeps
 the protocol modes, of an earlier connection

---
 mpact/sim/util/gdbserver/gdbserver.cc | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 6135954..bd4f3de 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -129,10 +129,25 @@ GdbServer::~GdbServer() {
 }
 
 bool GdbServer::Connect(int port) {
-  good_ = true;
   if (port <= 0) {
     return false;
   }
+  // Clean up after any previous connection. A new client starts out with the
+  // default protocol settings.
+  Terminate();
+  delete os_;
+  delete is_;
+  delete out_buf_;
+  delete in_buf_;
+  os_ = nullptr;
+  is_ = nullptr;
+  out_buf_ = nullptr;
+  in_buf_ = nullptr;
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  error_message_supported_ = false;
+  thread_suffix_ = false;
+  thread_select_.clear();
   // Create the socket on the given port.
   server_socket_ =
       socket(/*domain=*/AF_INET, /*type=*/SOCK_STREAM, /*protocol=*/0);
-- 
2.43.0


From dc135287df3b70d0cd19e3311529d22dcd248263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 059/135] fix: GdbServer is killed by SIGPIPE, or reads for
 ever, when the client goes away

---
 mpact/sim/util/gdbserver/gdbserver.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 3226330..69d3dcf 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -19,6 +19,9 @@
 #ifndef MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 #define MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 
+#include <sys/socket.h>
+#include <unistd.h>
+
 #include <cstdint>
 #include <cstdio>
 #include <istream>
@@ -51,14 +54,16 @@ class GdbSocketStreambuf : public std::streambuf {
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) return c;
-    write(fd_, &c, 1);
+    // A client that went away must not raise SIGPIPE.
+    char ch = traits_type::to_char_type(c);
+    if (send(fd_, &ch, 1, MSG_NOSIGNAL) != 1) return EOF;
     return c;
   }
 
   // On underflow read character from the socket fd.
   std::streambuf::int_type underflow() override {
     int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    if (count <= 0) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
-- 
2.43.0


From 739ecbb41d292919f7735dadb0c29ef96fc11459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 060/135] fix: GdbServer doubles escaped characters of
 commands, and reads beyond their end

---
 mpact/sim/util/gdbserver/gdbserver.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index bd4f3de..c6c4191 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -57,9 +57,8 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   std::string command;
   for (int i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
-    if (c == 0x7d) {
+    if ((c == 0x7d) && (i + 1 < escaped_command.size())) {
       c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
     }
     command.push_back(c);
   }
-- 
2.43.0


From 928ae8845fc251fc1e4fcafb21390421fdf4cda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:03 +0000
Subject: [PATCH 061/135] fix: GdbServer writes beyond its buffer when a
 command is too long

---
 mpact/sim/util/gdbserver/gdbserver.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index c6c4191..9adbab7 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -237,6 +237,12 @@ bool GdbServer::Connect(int port) {
         Terminate();
         return false;
       }
+      // Leave room for the two characters of the checksum.
+      if (buffer_pos >= sizeof(buffer_) - 2) {
+        LOG(ERROR) << absl::StrFormat("Command on port %d is too long", port);
+        Terminate();
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From 23636e9d771d7295a6b9283e9b2d7da7ceb7c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 062/135] fix: GdbServer takes the first character of empty
 commands

---
 mpact/sim/util/gdbserver/gdbserver.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 9adbab7..ba19dea 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -395,6 +395,7 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -703,7 +704,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (command.empty() || (command.front() != ';')) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -822,6 +823,9 @@ void GdbServer::GdbDetach() {
 }
 
 void GdbServer::GdbSelectThread(std::string_view command) {
+  if (command.empty()) {
+    return SendError("invalid thread id");
+  }
   int thread_id;
   char op = command.front();
   command.remove_prefix(1);
@@ -1093,6 +1097,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1328,7 +1333,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (!command.empty() && (command.front() == ':')) {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From ae9bee3ccc813eb39607de06d1f9c6cf4565f7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 063/135] fix: GdbServer writes zeros for data that is not hex,
 and reads beyond data of odd length

---
 mpact/sim/util/gdbserver/gdbserver.cc | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index ba19dea..5abd09f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -65,6 +66,16 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Returns true if the string is a sequence of bytes, each written as two hex
+// digits.
+bool IsHexBytes(std::string_view str) {
+  if (str.size() % 2 != 0) return false;
+  for (char c : str) {
+    if (!absl::ascii_isxdigit(c)) return false;
+  }
+  return true;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -921,6 +932,13 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
+  if (!IsHexBytes(data)) {
+    LOG(ERROR) << "Invalid memory write format";
+    if (error_message_supported_) {
+      return SendError("invalid memory write format");
+    }
+    return Respond("E01");
+  }
   int num_bytes = 0;
   for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
     num_bytes++;
@@ -981,6 +999,10 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   int thread_index = thread_id - 1;
+  if (!IsHexBytes(data)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
     if (it == debug_info_.debug_register_map().end()) {
@@ -1085,6 +1107,10 @@ void GdbServer::GdbWriteRegister(int thread_id,
                << result.status().message();
     return SendError(result.status().message());
   }
+  if (!IsHexBytes(register_value_str)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
   for (auto& byte : result.value()->Get<uint8_t>()) {
     if (register_value_str.empty()) break;
     std::string_view byte_str = register_value_str.substr(0, 2);
-- 
2.43.0


From 2b9057439f47877225439589fc00271575e41f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:53 +0000
Subject: [PATCH 064/135] fix: GdbServer crashes when a register cannot be
 written, and cannot write all registers if there is a gap

---
 mpact/sim/util/gdbserver/gdbserver.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 5abd09f..840c060 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1005,13 +1005,16 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   }
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    // If the register is not found, go to the next one, as is done when the
+    // registers are read.
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
     for (auto& byte : result.value()->Get<uint8_t>()) {
       if (data.empty()) {
         LOG(ERROR) << "Invalid data format";
-- 
2.43.0


From dea83f2aa33f7c680c79e8b0cca5040ee1919686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 065/135] fix: GdbServer uses thread ids of cores that do not
 exist, and refuses vCont actions without a thread id

---
 mpact/sim/util/gdbserver/gdbserver.cc | 45 +++++++++++++++++++++------
 mpact/sim/util/gdbserver/gdbserver.h  |  4 +++
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 840c060..4f97cdd 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -30,6 +30,7 @@
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
+#include "absl/container/flat_hash_set.h"
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
@@ -320,6 +321,10 @@ void GdbServer::SendError(std::string_view error) {
   Respond(absl::StrCat("E.", error));
 }
 
+bool GdbServer::IsValidThreadId(int thread_id) const {
+  return (thread_id >= 1) && (thread_id <= core_debug_interfaces_.size());
+}
+
 int GdbServer::GetThreadId(char command_type, std::string_view command) {
   if (!thread_suffix_ || command.empty()) {
     auto iter = thread_select_.find(command_type);
@@ -337,6 +342,10 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
         return 1;
       }
+      if (!IsValidThreadId(thread_id)) {
+        LOG(ERROR) << absl::StrFormat("No thread with id: '%s'", thread_id_str);
+        return 0;
+      }
       return thread_id;
     }
     LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", command);
@@ -623,6 +632,7 @@ std::string GdbServer::GetHaltReason(int thread_id) {
 void GdbServer::GdbHaltReason() { Respond(GetHaltReason(0)); }
 
 void GdbServer::GdbContinue(int thread_id, std::string_view command) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   // If the core is halted due to program done, then just respond with W00.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
@@ -720,31 +730,38 @@ void GdbServer::GdbVContinue(std::string_view command) {
   }
   command.remove_prefix(1);
   std::vector<std::string> parts = absl::StrSplit(command, ';');
+  // The threads that an action has been applied to.
+  absl::flat_hash_set<int> threads;
   for (std::string& part : parts) {
     std::string_view part_view = part;
     std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
-    if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    if (action.empty()) {
+      return SendError("invalid vCont command");
+    }
+    // Get the thread id. If it is omitted or -1, then apply the action to all
+    // threads that no previous action applies to.
+    size_t colon_pos = part_view.find(':');
+    if ((colon_pos == std::string_view::npos) ||
+        (part_view.substr(colon_pos + 1) == "-1")) {
+      for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+        if (!threads.insert(tid).second) continue;
+        if (action == "c") {  // continue
           ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+        } else if (action == "s") {  // step
           StepThread(tid);
         }
       }
       continue;
     }
+    std::string_view tid_str = part_view.substr(colon_pos + 1);
     // Otherwise, apply the action to the specified thread.
     int tid;
     bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
+    if (!success || !IsValidThreadId(tid)) {
       SendError("invalid thread id");
       return;
     }
+    if (!threads.insert(tid).second) continue;
     if (action == "c") {
       ContinueThread(tid);
     } else if (action == "s") {
@@ -849,6 +866,9 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if (!IsValidThreadId(thread_id)) {
+    return SendError("invalid thread id");
+  }
   thread_select_[op] = thread_id;
   Respond("OK");
 }
@@ -976,6 +996,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
 }
 
 void GdbServer::GdbReadGprRegisters(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   std::string response;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
@@ -998,6 +1019,7 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 }
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   if (!IsHexBytes(data)) {
     LOG(ERROR) << "Invalid data format";
@@ -1032,6 +1054,7 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
 
 void GdbServer::GdbReadRegister(int thread_id,
                                 std::string_view register_number_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1088,6 +1111,7 @@ void GdbServer::GdbReadRegister(int thread_id,
 void GdbServer::GdbWriteRegister(int thread_id,
                                  std::string_view register_number_str,
                                  std::string_view register_value_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1207,6 +1231,7 @@ void GdbServer::GdbSet(std::string_view command) {
 }
 
 void GdbServer::GdbStep(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   auto result = core_debug_interfaces_[thread_index]->Step(1);
   if (!result.ok()) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 69d3dcf..e74210d 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -103,6 +103,10 @@ class GdbServer {
   // Sends the given error message to the GDB client in an error packet.
   void SendError(std::string_view error);
 
+  // Returns true if there is a core with the given thread id.
+  bool IsValidThreadId(int thread_id) const;
+  // Returns the thread id that the command applies to, or 0 if there is no such
+  // thread.
   int GetThreadId(char command_type, std::string_view command);
   // Takes a GDB command string, verifies the checksum, and if it is valid,
   // then submits the command to be parsed.
-- 
2.43.0


From 3267a8198ec311d54fc40837008c0fbab342738a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:12 +0000
Subject: [PATCH 066/135] fix: GdbServer does not escape special characters in
 its responses

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 4f97cdd..91f11bb 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -67,6 +67,19 @@ std::string UnescapeCommand(std::string_view escaped_command) {
   return command;
 }
 
+// Escapes the characters that have a special meaning in a response packet.
+std::string EscapeResponse(std::string_view response) {
+  std::string escaped;
+  for (char c : response) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped.push_back(0x7d);
+      c ^= 0x20;
+    }
+    escaped.push_back(c);
+  }
+  return escaped;
+}
+
 // Returns true if the string is a sequence of bytes, each written as two hex
 // digits.
 bool IsHexBytes(std::string_view str) {
@@ -287,7 +300,8 @@ void GdbServer::Terminate() {
   good_ = false;
 }
 
-void GdbServer::Respond(std::string_view response) {
+void GdbServer::Respond(std::string_view unescaped_response) {
+  std::string response = EscapeResponse(unescaped_response);
   // Compute the checksum of the response.
   uint8_t checksum = 0;
   for (char c : response) {
-- 
2.43.0


From 2992054ab8b495db03cedee314a66ec3978b56fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:20 +0000
Subject: [PATCH 067/135] fix: GdbServer does not report the address of a
 watchpoint

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 91f11bb..a9a8005 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -832,16 +832,16 @@ void GdbServer::GdbVContinue(std::string_view command) {
     case *HaltReason::kDataWatchPoint: {
       core_debug_interfaces_[0]->GetWatchpointInfo(address, access_type);
       std::string encoded_address =
-          HexEncodeNumberInTargetEndianness(debug_info_.GetGprWidth(), address);
+          absl::StrCat(absl::Hex(address), ";", encoded_pc);
       // Need to differentiate between write (watch), read (rwatch), and
       // read/write (awatch) watch points.
       switch (access_type) {
         case generic::AccessType::kLoad:
-          return Respond(absl::StrCat("T05thread:1;rwatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;rwatch:", encoded_address));
         case generic::AccessType::kStore:
-          return Respond(absl::StrCat("T05thread:1;watch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;watch:", encoded_address));
         case generic::AccessType::kLoadStore:
-          return Respond(absl::StrCat("T05thread:1;awatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;awatch:", encoded_address));
         default:
           LOG(ERROR) << "Invalid access type: "
                      << static_cast<int>(access_type);
-- 
2.43.0


From 5c4c17a748b9dd65a874ff543fbb221ec6a9c6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:41 +0000
Subject: [PATCH 068/135] fix: RegisterBase::SetDataBuffer recycles the buffer
 of the register when it is given that buffer again

---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..959b9c3 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, db may be the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 312de08a006659e82da2517715f1272b3e240a40 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 069/135] fix: decoder generator passes the wrong operand index
 to operand getters

The destination index was incremented twice for every operand that is not an
array, and the source index not at all for an array.
---
 mpact/sim/decoder/slot.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 85756e4..880bdb0 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1197,7 +1197,7 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
                       "  {\n"
                       "    auto vec = enc->GetSources",
                       "(", optional_inst, "slot, entry, opcode, ", src_op_enum,
-                      ", ", source_no,
+                      ", ", source_no++,
                       ");\n"
                       "    for (auto *op : vec) inst->AppendSource(op);\n"
                       "  }\n");
@@ -1246,12 +1246,11 @@ std::string Slot::GenerateOperandSetterFcn(absl::string_view getter_name,
                       ", ", dest_no, ", ", latency,
                       ");\n"
                       "    for (auto *op : vec) inst->AppendDestination(op);\n"
-                      "  }");
+                      "  }\n");
     } else {
       absl::StrAppend(&output, "  inst->AppendDestination(enc->GetDestination(",
                       optional_inst, "slot, entry, opcode, ", dest_op_enum,
                       ", ", dest_no, ", ", latency, "));\n");
-      dest_no++;
     }
     dest_no++;
   }
-- 
2.43.0


From 15d113c0522034035fac7609ea63fba6660f8865 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 070/135] fix: decoder generator shares disassembly setters of
 different formats

The key ignored field widths, fragment boundaries, number formats and which
operands are referenced.
---
 mpact/sim/decoder/slot.cc | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 880bdb0..a7621cd 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -744,15 +744,8 @@ std::string Slot::GenerateDisasmSetterFcn(absl::string_view name,
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateDisassemblySetter(const Instruction* inst) {
-  std::string key;
-  // First combine the disassembly fragments.
-  for (auto const* format : inst->disasm_format_vec()) {
-    for (auto const& frag : format->format_fragment_vec) {
-      absl::StrAppend(&key, frag);
-    }
-  }
-  // Then add the resources.
-  absl::StrAppend(&key, ":", CreateOperandLookupKey(inst->opcode()));
+  // Instructions can share a setter only if its body is the same for both.
+  std::string key = GenerateDisasmSetterFcn("", inst);
   std::string func_name = absl::StrCat(
       pascal_name(), "Slot", inst->opcode()->pascal_name(), "SetDisasm");
   auto iter = disasm_setter_name_map_->find(key);
-- 
2.43.0


From d396430fe572690f64f20d4bd021c40582505d8e Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 071/135] fix: decoder generator shares resource setters of
 different instructions

The key ignored the end cycle of simple resources, and a shared setter passed
the opcode of the first instruction that used it to the encoding.
---
 mpact/sim/decoder/slot.cc | 72 +++------------------------------------
 mpact/sim/decoder/slot.h  |  2 --
 2 files changed, 4 insertions(+), 70 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index a7621cd..a43078f 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -807,77 +807,13 @@ std::string Slot::GenerateAssemblerFcn(const Instruction* inst,
   return output;
 }
 
-// Generate a string that is a unique identifier from the resources to
-// determine which instructions can share resource setter functions.
-std::string Slot::CreateResourceKey(
-    const std::vector<const ResourceReference*>& refs) const {
-  std::string key;
-  std::vector<const ResourceReference*> complex_refs;
-  std::vector<const ResourceReference*> simple_refs;
-  absl::btree_set<std::string> names;
-  // Iterate over use resources.
-  for (auto const* ref : refs) {
-    if (!ref->resource->is_simple()) {
-      complex_refs.push_back(ref);
-    } else {
-      simple_refs.push_back(ref);
-    }
-  }
-  // Simple use resources.
-  for (auto const* ref : simple_refs) {
-    std::string name = "S$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    names.insert(name);
-  }
-  std::string sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  names.clear();
-  absl::StrAppend(&key, ":");
-
-  // Complex use resources.
-  for (auto const* ref : complex_refs) {
-    std::string name = "C$";
-    if (ref->is_array) {
-      absl::StrAppend(&name, "[", ref->resource->pascal_name(), "]");
-    } else {
-      absl::StrAppend(&name, ref->resource->pascal_name());
-    }
-    auto begin_value = ref->begin_expression->GetValue();
-    if (!begin_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&begin_value.value()));
-    }
-    auto end_value = ref->end_expression->GetValue();
-    if (!end_value.ok()) {
-      absl::StrAppend(&name, "(?)");
-    } else {
-      absl::StrAppend(&name, *std::get_if<int>(&end_value.value()));
-    }
-    names.insert(name);
-  }
-  sep = "";
-  for (auto const& name : names) {
-    absl::StrAppend(&key, sep, name);
-    sep = "/";
-  }
-  return key;
-}
-
 // Generate a resource setter function call for the resource "key" of the
 // given instruction. If a matching one does not exist, call to create such a
 // function.
 std::string Slot::GenerateResourceSetter(const Instruction* inst,
                                          absl::string_view encoding_type) {
-  std::string key = CreateResourceKey(inst->resource_use_vec());
-  absl::StrAppend(&key, ":", CreateResourceKey(inst->resource_acquire_vec()));
+  // Instructions can share a setter only if its body is the same for both.
+  std::string key = GenerateResourceSetterFcn("", inst, encoding_type);
   auto iter = resource_setter_name_map_->find(key);
   if (iter == resource_setter_name_map_->end()) {
     auto index = resource_setter_name_map_->size();
@@ -898,8 +834,8 @@ std::string Slot::GenerateResourceSetterFcn(
   std::string output;
   absl::StrAppend(&output, "void ", name, "(Instruction *inst, ", encoding_type,
                   " *enc, SlotEnum slot, int entry) {\n");
-  std::string opcode_name = inst->opcode()->pascal_name();
-  std::string opcode_enum = absl::StrCat("OpcodeEnum::k", opcode_name);
+  // The setter may be shared by several opcodes.
+  std::string opcode_enum = "static_cast<OpcodeEnum>(inst->opcode())";
   if (!inst->resource_use_vec().empty() ||
       !inst->resource_acquire_vec().empty()) {
     absl::StrAppend(&output, "  ResourceOperandInterface *res_op;\n");
diff --git a/mpact/sim/decoder/slot.h b/mpact/sim/decoder/slot.h
index 640ff0c..b5b577e 100644
--- a/mpact/sim/decoder/slot.h
+++ b/mpact/sim/decoder/slot.h
@@ -181,8 +181,6 @@ class Slot {
                                        const Opcode* opcode) const;
   // These functions generate the functions that are called by the decoder to
   // set the instruction resources.
-  std::string CreateResourceKey(
-      const std::vector<const ResourceReference*>& refs) const;
   std::string GenerateResourceSetter(const Instruction* inst,
                                      absl::string_view encoding_type);
   std::string GenerateResourceSetterFcn(absl::string_view name,
-- 
2.43.0


From 072e022cd20a397983b396ae2d777aafe5553f38 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:41:37 +0000
Subject: [PATCH 072/135] fix: decoder generator holds complex resources that
 are to be acquired

---
 mpact/sim/decoder/slot.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index a43078f..e87dcf1 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1015,7 +1015,7 @@ std::string Slot::GenerateResourceSetterFcn(
                         ");\n");
         absl::StrAppend(&output,
                         "  for (auto res_op : res_op_vec) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(res_op);\n"
                         "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
@@ -1025,7 +1025,7 @@ std::string Slot::GenerateResourceSetterFcn(
         absl::StrAppend(&output, *begin, ", ", *end, ");\n");
         absl::StrAppend(&output,
                         "  if (res_op != nullptr) {\n"
-                        "    inst->AppendResourceHold(res_op);\n"
+                        "    inst->AppendResourceAcquire(res_op);\n"
                         "  }\n");
       }
     }
-- 
2.43.0


From b35a0ef6f009c85139bd4938dda195d68760671b Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 073/135] fix: decoder generator emits code that does not
 compile for complex resource arrays

---
 mpact/sim/decoder/instruction_set_visitor.cc |  2 +-
 mpact/sim/decoder/slot.cc                    | 17 +++++++----------
 2 files changed, 8 insertions(+), 11 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index d6a0b21..1631e0f 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2363,7 +2363,7 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       "  virtual std::vector<ResourceOperandInterface *> "
       "GetComplexResourceOperands",
       "(", optional_instruction,
-      "SlotEnum slot, int entry, OpcodeEnum opcode, ComplexResourceEnum "
+      "SlotEnum slot, int entry, OpcodeEnum opcode, ListComplexResourceEnum "
       "resource_op, int begin, int end) { return {}; }\n");
   // For each operand type, declare the pure virtual method that returns the
   // given operand.
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index e87dcf1..ebb54c8 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -901,13 +901,12 @@ std::string Slot::GenerateResourceSetterFcn(
     }
     if (complex->is_array) {
       absl::StrAppend(
-          &output, "  auto res_op_vec = enc->GetComplexResourceOperands(",
+          &output, "  for (auto *op : enc->GetComplexResourceOperands(",
           optional_inst, "slot, entry, ", opcode_enum,
           ", ListComplexResourceEnum::k", complex->resource->pascal_name(),
-          *begin, ", ", *end, ");\n");
+          ", ", *begin, ", ", *end, ")) {\n");
       absl::StrAppend(&output,
-                      "  for (auto res_op : res_op_vec) {\n"
-                      "    inst->AppendResourceHold(res_op);\n"
+                      "    inst->AppendResourceHold(op);\n"
                       "  }\n");
     } else {
       absl::StrAppend(&output, "  res_op = enc->GetComplexResourceOperand(",
@@ -1007,15 +1006,13 @@ std::string Slot::GenerateResourceSetterFcn(
       int* end = std::get_if<int>(&end_value.value());
       if (complex->is_array) {
         absl::StrAppend(&output,
-                        "  auto res_op_vec = "
-                        "enc->GetComplexResourceOperands(",
+                        "  for (auto *op : enc->GetComplexResourceOperands(",
                         optional_inst, "slot, entry, ", opcode_enum,
                         ", ListComplexResourceEnum::k",
-                        complex->resource->pascal_name(), *begin, ", ", *end,
-                        ");\n");
+                        complex->resource->pascal_name(), ", ", *begin, ", ",
+                        *end, ")) {\n");
         absl::StrAppend(&output,
-                        "  for (auto res_op : res_op_vec) {\n"
-                        "    inst->AppendResourceAcquire(res_op);\n"
+                        "    inst->AppendResourceAcquire(op);\n"
                         "  }\n");
       } else {
         absl::StrAppend(&output, "    res_op = enc->GetComplexResourceOperand(",
-- 
2.43.0


From 0c83889469149491de3dc0a219a81da1c44e4481 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:15 +0000
Subject: [PATCH 074/135] fix: disassembly of operands of the second and later
 child instructions

The decoder nests child instructions, it does not link them with next().
---
 mpact/sim/decoder/slot.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index ebb54c8..3673df1 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -64,12 +64,10 @@ static absl::StatusOr<std::string> TranslateLocator(
     const OperandLocator& locator) {
   std::string code;
   absl::StrAppend(&code, "inst->");
-  if (locator.op_spec_number > 0) {
+  // Each child instruction is the child of the previous one.
+  for (int i = 0; i < locator.op_spec_number; i++) {
     absl::StrAppend(&code, "child()->");
   }
-  for (int i = 1; i < locator.op_spec_number; i++) {
-    absl::StrAppend(&code, "next()->");
-  }
   if (locator.type == 'p') {
     absl::StrAppend(&code, "Predicate()");
   } else if (locator.type == 's' || locator.type == 't') {
-- 
2.43.0


From e248665445bbb255433c0e50d3d1fa2d7552b396 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 075/135] fix: slots with different attributes share attribute
 setters

The position of an attribute in the array depends on the slot, but the key
only had the number of attributes.
---
 mpact/sim/decoder/slot.cc | 29 ++---------------------------
 mpact/sim/decoder/slot.h  |  1 -
 2 files changed, 2 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 3673df1..53a6a03 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -224,32 +224,6 @@ bool Slot::HasInstruction(const std::string& opcode_name) const {
 
 static std::string indent_string(int n) { return std::string(n, ' '); }
 
-// Generates a string that is a unique key for the attributes to determine which
-// instructions can share attribute setter functions.
-std::string Slot::CreateAttributeLookupKey(const Instruction* inst) const {
-  std::string key;
-  int count = attribute_names_.size();
-  for (auto const& [name, expr] : inst->attribute_map()) {
-    count--;
-    std::string value;
-    auto result = expr->GetValue();
-    if (!result.ok()) {
-      absl::StrAppend(&key, name, "[e1]:");
-      continue;
-    }
-    auto* value_ptr = std::get_if<int>(&result.value());
-    if (value_ptr == nullptr) {
-      absl::StrAppend(&key, name, "[e2]:");
-      continue;
-    }
-    absl::StrAppend(&key, name, "[", *value_ptr, "]:");
-  }
-  for (int i = 0; i < count; ++i) {
-    absl::StrAppend(&key, "[]:");
-  }
-  return key;
-}
-
 // Generate the attribute setter function that matches the "key" of the given
 // instruction.
 std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
@@ -289,7 +263,8 @@ std::string Slot::GenerateAttributeSetterFcn(absl::string_view name,
 // Return a function call string that will set the attributes for the given
 // instruction. If no such appropriate function exists, create one.
 std::string Slot::GenerateAttributeSetter(const Instruction* inst) {
-  auto key = CreateAttributeLookupKey(inst);
+  // Instructions can share a setter only if its body is the same for both.
+  auto key = GenerateAttributeSetterFcn("", inst);
   auto iter = attribute_setter_name_map_->find(key);
   if (iter == attribute_setter_name_map_->end()) {
     auto index = attribute_setter_name_map_->size();
diff --git a/mpact/sim/decoder/slot.h b/mpact/sim/decoder/slot.h
index b5b577e..1c071fe 100644
--- a/mpact/sim/decoder/slot.h
+++ b/mpact/sim/decoder/slot.h
@@ -196,7 +196,6 @@ class Slot {
   std::string GenerateAttributeSetter(const Instruction* inst);
   std::string GenerateAttributeSetterFcn(absl::string_view name,
                                          const Instruction* inst) const;
-  std::string CreateAttributeLookupKey(const Instruction* inst) const;
   // Generates a string that defines a global constexpr array of instruction
   // opcodes and instruction info structs. Also populates the setter function
   // string 'setter_functions_' with the setters.
-- 
2.43.0


From 36e48565664343fc41f2ba9afe536bf29dbabefc Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 076/135] fix: version 2 GetLatency for destination arrays
 lacks the instruction

---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 1631e0f..283334f 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -2407,8 +2407,8 @@ std::string InstructionSetVisitor::GenerateHdrFileProlog(
       &output, "  virtual int GetLatency(", optional_instruction,
       "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, DestOpEnum dest_op, int dest_no) { return 0; };\n",
-      "  virtual std::vector<int> GetLatency(SlotEnum slot, int entry, "
-      "OpcodeEnum "
+      "  virtual std::vector<int> GetLatency(", optional_instruction,
+      "SlotEnum slot, int entry, OpcodeEnum "
       "opcode, ListDestOpEnum dest_op, int dest_no) { return {0}; }\n");
 
   absl::StrAppend(&output, "};\n\n");
-- 
2.43.0


From 16b0dde3f3d0934507dd1272db4241ef2858615f Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 077/135] fix: override of an opcode that is not in the first
 base slot

The overrides were made after each base slot, when not all opcodes had been
inherited.
---
 mpact/sim/decoder/instruction_set_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 283334f..871b1b3 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1183,9 +1183,9 @@ void InstructionSetVisitor::VisitOpcodeList(OpcodeListCtx* ctx, Slot* slot) {
         }
       }
     }
-    // Perform the overrides.
-    PerformOpcodeOverrides(overridden_ops_set, slot);
   }
+  // Perform the overrides.
+  PerformOpcodeOverrides(overridden_ops_set, slot);
   // Add the declared opcodes.
   for (auto* inst : instruction_vec) {
     absl::Status status = slot->AppendInstruction(inst);
-- 
2.43.0


From 1554d4811dd3625b1235ceb5e5934362863f56c5 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 078/135] fix: global constants are not found in expressions of
 opcodes

---
 mpact/sim/decoder/instruction_set_visitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 871b1b3..2dc9e2a 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1060,6 +1060,9 @@ TemplateExpression* InstructionSetVisitor::VisitExpression(ExpressionCtx* ctx,
     if (inst != nullptr) {
       auto* op = inst->GetDestOp(ident);
       if (op == nullptr) {
+        auto* const_expr = GetConstExpression(ident);
+        if (const_expr != nullptr) return const_expr->DeepCopy();
+
         error_listener()->semanticError(
             file_names_[context_file_map_.at(ctx)], ctx->start,
             absl::StrCat("'", ident,
-- 
2.43.0


From 205f8dbd064a85da594e2f03a615456acb9cd8c8 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 079/135] fix: an attribute without a value is 0 instead of 1

---
 mpact/sim/decoder/instruction_set_visitor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set_visitor.cc b/mpact/sim/decoder/instruction_set_visitor.cc
index 2dc9e2a..15351ad 100644
--- a/mpact/sim/decoder/instruction_set_visitor.cc
+++ b/mpact/sim/decoder/instruction_set_visitor.cc
@@ -1325,7 +1325,8 @@ void InstructionSetVisitor::VisitInstructionAttributeList(
       attributes.emplace(name, expr);
       continue;
     }
-    attributes.emplace(name, new TemplateConstant(0));
+    // The value of an attribute without an expression is 1.
+    attributes.emplace(name, new TemplateConstant(1));
   }
   // Are we parsing attributes for an instruction?
   if (inst != nullptr) {
-- 
2.43.0


From 86da7ccca9e885a6d3d357b603dc1d89e52bf232 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 080/135] fix: resource cycles that depend on template
 parameters are rejected

---
 mpact/sim/decoder/instruction_set.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 796cc74..4e33741 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -105,6 +105,8 @@ Slot* InstructionSet::GetSlot(absl::string_view slot_name) const {
 
 absl::Status InstructionSet::AnalyzeResourceUse() {
   for (auto const* slot : slot_order_) {
+    // The expressions of templated slots have no value until instantiated.
+    if (slot->is_templated()) continue;
     for (auto& [unused, inst_ptr] : slot->instruction_map()) {
       for (auto const* def : inst_ptr->resource_acquire_vec()) {
         if (def->begin_expression != nullptr) {
-- 
2.43.0


From 683f7776221a0727ab530ca05fea4e56df8b1da7 Mon Sep 17 00:00:00 2001
From: v <a@b>
Date: Wed, 18 Nov 2026 17:42:26 +0000
Subject: [PATCH 081/135] fix: decoder generator emits code that does not
 compile for slot instances

---
 mpact/sim/decoder/instruction_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/instruction_set.cc b/mpact/sim/decoder/instruction_set.cc
index 4e33741..1ffb7de 100644
--- a/mpact/sim/decoder/instruction_set.cc
+++ b/mpact/sim/decoder/instruction_set.cc
@@ -428,7 +428,7 @@ std::string InstructionSet::GenerateClassDefinitions(
     } else {
       for (auto const index : instance_vec) {
         absl::StrAppend(&output, "  tmp_inst = ", slot_name,
-                        "_decoder_->Decode(address, encoding, , ", enum_name,
+                        "_decoder_->Decode(address, encoding, ", enum_name,
                         ", ", index,
                         ");\n"
                         "  if (tmp_inst != nullptr) size += tmp_inst->size();\n"
-- 
2.43.0


From a9d8f006d8918302dcff8a654376483c3751e51a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:17 +0000
Subject: [PATCH 082/135] fix: size of the default opcode is uninitialized in
 the emitted decoder

---
 mpact/sim/decoder/opcode.h | 2 +-
 mpact/sim/decoder/slot.cc  | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/opcode.h b/mpact/sim/decoder/opcode.h
index ca04563..ba09c73 100644
--- a/mpact/sim/decoder/opcode.h
+++ b/mpact/sim/decoder/opcode.h
@@ -264,7 +264,7 @@ class Opcode {
 
  private:
   Opcode(absl::string_view name, int value);
-  int instruction_size_;
+  int instruction_size_ = 1;
   Opcode* child_ = nullptr;
   Opcode* parent_ = nullptr;
   std::string predicate_op_name_;
diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index 53a6a03..c2ded30 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -1169,6 +1169,10 @@ std::string Slot::CreateFuncGetterGlobalArray(absl::string_view encoding_type) {
                       absl::StrCat(pascal_name(), "SlotSetOperandsNull"),
                       encoding_type, default_instruction_->opcode()));
 
+  // What cannot be decoded is as long as the shortest instruction of the slot.
+  int default_opcode_size = instruction_map_.empty()
+                                ? default_instruction_size()
+                                : min_instruction_size();
   absl::StrAppend(
       &output,
       "    std::make_pair(OpcodeEnum::kNone, "
@@ -1180,7 +1184,7 @@ std::string Slot::CreateFuncGetterGlobalArray(absl::string_view encoding_type) {
       GenerateResourceSetter(default_instruction_, encoding_type), ",\n",
       "    ", GenerateAttributeSetter(default_instruction_), ",\n",
       "    SemFuncSetter{", default_instruction_->semfunc_code_string(), "}, ",
-      default_instruction_->opcode()->instruction_size(), "}),\n");
+      default_opcode_size, "}),\n");
   for (auto const& [unused, inst_ptr] : instruction_map_) {
     auto* instruction = inst_ptr;
     std::string opcode_name = instruction->opcode()->pascal_name();
-- 
2.43.0


From 8dc3e08616da13345f3287137f069aac4a527254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:43 +0000
Subject: [PATCH 083/135] fix: decoder generator ends on a disassembly format
 of only the address

---
 mpact/sim/decoder/slot.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/slot.cc b/mpact/sim/decoder/slot.cc
index c2ded30..85d363c 100644
--- a/mpact/sim/decoder/slot.cc
+++ b/mpact/sim/decoder/slot.cc
@@ -409,8 +409,12 @@ std::tuple<std::string, std::vector<OperandLocator>> Slot::GenerateRegEx(
           absl::StrAppend(&output, "(?:");
         }
         std::string op_name = (*format_iter)->op_name;
-        absl::StrAppend(&output, "(\\S*?)");
-        opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        if (op_name.empty()) {  // The address only, there is no operand.
+          absl::StrAppend(&output, "(?:\\S*?)");
+        } else {
+          absl::StrAppend(&output, "(\\S*?)");
+          opnd_locators.push_back(inst->opcode()->op_locator_map().at(op_name));
+        }
         if ((fragment_iter != fragment_end) && (!(*fragment_iter).empty())) {
           char c = (*fragment_iter)[0];
           // If the next fragment is not alnum or underscore, add a space
-- 
2.43.0


From 62289266af975d7b29fcb6d67b1f822181facb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:39 +0000
Subject: [PATCH 084/135] fix: ELF loader uses freed symbol tables when a
 second file is loaded

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..b1724a6 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -68,6 +68,15 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     return absl::NotFoundError(
         absl::StrCat("Unable to open elf file: '", file_name, "'"));
   }
+  // Loading invalidates everything that refers to a previously loaded file.
+  loaded_ = false;
+  for (auto* symtab : symbol_accessors_) {
+    delete symtab;
+  }
+  symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
+  has_stack_size_ = false;
   if (!elf_reader_.load(file_name)) {
     return absl::InternalError(
         absl::StrCat("Elf loading error for '", file_name, "'"));
-- 
2.43.0


From afb28c0bdb01e7fe2e8f5292c569e3f094f36392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:59 +0000
Subject: [PATCH 085/135] fix: ELF loader loses functions that overlap another
 function symbol

---
 .../util/program_loader/elf_program_loader.cc    | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index b1724a6..15982a8 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -16,6 +16,7 @@
 
 #include <sys/stat.h>
 
+#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <string>
@@ -108,8 +109,19 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
-        function_range_map_.insert(
-            std::make_pair(AddressRange(value, size / text_size_scale_), name));
+        // Insert those parts of the function that aren't already covered by the
+        // range of another function symbol.
+        uint64_t end = value + size / text_size_scale_;
+        for (uint64_t start = value; start < end;) {
+          auto iter = function_range_map_.lower_bound(AddressRange(start));
+          bool at_end = iter == function_range_map_.end();
+          uint64_t next = at_end ? end : std::min<uint64_t>(iter->first.start, end);
+          if (start < next) {
+            function_range_map_.insert(
+                iter, std::make_pair(AddressRange(start, next - start), name));
+          }
+          start = at_end ? end : iter->first.end;
+        }
       }
     }
   }
-- 
2.43.0


From b64cd4823966a169f80ba90bdc6f3dae1837bc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 086/135] fix: profiler dereferences null for a first sample of
 all ones

---
 mpact/sim/util/other/instruction_profiler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..26df84a 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -74,8 +74,9 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
   absl::btree_map<MemoryWatcher::AddressRange, uint64_t*,
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
-  uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  // Initially an empty range, so that no sample matches.
+  uint64_t last_start_ = 1;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From 7f5b66a42fb49166c02d5944be1d1ff88407ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 087/135] fix: profiler counts samples in the last bucket
 outside of its counters

---
 mpact/sim/util/other/instruction_profiler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..6a8b7de 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -114,7 +114,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin - 1;
+    size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
@@ -124,7 +124,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
+    uint64_t size = end - begin;
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-- 
2.43.0


From 15ed84a23b6e016df0b4b2104d2c087d77f44e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 088/135] fix: profile leaves out the last bucket of a range

---
 mpact/sim/util/other/instruction_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 6a8b7de..1385e21 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,7 +75,7 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
+    uint64_t size = range.end - range.start + 1;
     for (auto i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
-- 
2.43.0


From 73e55759599f30b0a6313460d126b1bbebad78bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:22 +0000
Subject: [PATCH 089/135] fix: profiler counts samples past the end of a range
 outside of its counters

---
 mpact/sim/util/other/instruction_profiler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 1385e21..a9e44cb 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -118,7 +118,7 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     uint64_t* counters = new uint64_t[size];
     ::memset(counters, 0, size * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
-- 
2.43.0


From 39a7827004b0e977a06567530626dd33343786ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:47 +0000
Subject: [PATCH 090/135] fix: profiler range has the size of the range before
 it

---
 mpact/sim/util/other/instruction_profiler.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index a9e44cb..84629e3 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -114,9 +114,9 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
     // start a new range.
-    size = end - begin;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    uint64_t range_size = end - begin;
+    uint64_t* counters = new uint64_t[range_size];
+    ::memset(counters, 0, range_size * sizeof(uint64_t));
     profile_ranges_.insert(
         std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
-- 
2.43.0


From fef8c8998ed4e74beddb021d9971d6e406b292f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:04 +0000
Subject: [PATCH 091/135] fix: assembler reports success when the ELF file is
 not written

---
 mpact/sim/util/asm/simple_assembler.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9419fc4..4f772f4 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -768,7 +768,9 @@ absl::Status SimpleAssembler::ParsePassTwo(
 
 // Top level function that writes the ELF file out to disk.
 absl::Status SimpleAssembler::Write(std::ostream& os) {
-  writer_.save(os);
+  if (!writer_.save(os)) {
+    return absl::InternalError("Failed to write the ELF file");
+  }
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 2e05072b3d3bfe84a23c3218cca283f6bfa82038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:25 +0000
Subject: [PATCH 092/135] fix: assembler misplaces what follows .align or
 .space in text and data

---
 mpact/sim/util/asm/simple_assembler.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 4f772f4..9e10036 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -813,6 +813,9 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     }
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
+    if (section != bss_section_) {
+      byte_values.insert(byte_values.end(), size, 0);
+    }
   } else if (match == "bss") {
     // .bss
     SetBssSection(".bss");
@@ -875,6 +878,9 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     auto res = SimpleTextToInt<uint64_t>(remainder);
     if (!res.ok()) return res.status();
     size = res.value();
+    if (section != bss_section_) {
+      byte_values.insert(byte_values.end(), size, 0);
+    }
   } else if (match == "string") {
     // .string
     auto res = GetValues<std::string>(remainder);
-- 
2.43.0


From a1eca59fb15074c38a2fbdb9dec79984306ab1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:07 +0000
Subject: [PATCH 093/135] fix: .align of more than 16 bytes does not align the
 section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 9e10036..58c798d 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -811,6 +811,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
+    // The section has to be aligned for the address to be.
+    if (align > section->get_addr_align()) section->set_addr_align(align);
     uint64_t address = section_address_map_[section];
     size = ((address + align - 1) & ~(align - 1)) - address;
     if (section != bss_section_) {
-- 
2.43.0


From 82ba869ce40ae3fc9df2e83674419e7bd7ddc7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:45 +0000
Subject: [PATCH 094/135] fix: assembler rejects every line that is continued
 on the next

---
 mpact/sim/util/asm/simple_assembler.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 58c798d..7e5f68c 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -253,9 +253,10 @@ SimpleAssembler::SimpleAssembler(absl::string_view comment, int elf_file_class,
     : elf_file_class_(elf_file_class),
       opcode_assembler_if_(opcode_assembler_if),
       comment_re_(absl::StrCat("^(.*?)(?:", comment, ".*?)?(\\\\)?$")),
-      asm_line_re_("^(?:(?:(\\S+)\\s*:)?|\\s)\\s*(.*)\\s*$"),
+      // The lines may contain (escaped) newlines.
+      asm_line_re_("(?s)^(?:(?:(\\S+)\\s*:)?|\\s)\\s*(.*)\\s*$"),
       directive_re_(
-          "^\\.(align|bss|bytes|char|cstring|data|global|long|sect"
+          "(?s)^\\.(align|bss|bytes|char|cstring|data|global|long|sect"
           "|short|space|string|type|text|uchar|ulong|ushort|uword|word)(?:\\s+("
           ".*)"
           ")?\\s*"
@@ -332,7 +333,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       // and continue.
       if ((len >= 1) && (tmp[len - 1] == '\\')) {
         // Insert the escaped newline that getline removed.
-        absl::StrAppend(&line, tmp, "\n");
+        absl::StrAppend(&line, prefix, "\n");
         continue;
       }
       absl::StrAppend(&line, tmp);
-- 
2.43.0


From 1b3e78815668b62239854ce60041addbc697fb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:24 +0000
Subject: [PATCH 095/135] fix: undefined symbols are local in relocatable files

---
 mpact/sim/util/asm/simple_assembler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 7e5f68c..e0a0cb4 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -389,7 +389,8 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
-    auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, 0, 0, nullptr);
+    auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, ELFIO::STB_GLOBAL,
+                            0, nullptr);
     if (!status.ok()) {
       cleanup();
       return absl::InternalError(absl::StrCat(
-- 
2.43.0


From c7eb07f153edae925e3fc2d20773b4b43c5ef943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:31 +0000
Subject: [PATCH 096/135] fix: all relocation sections apply to the text
 section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e0a0cb4..92e7e6e 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -705,7 +705,7 @@ absl::Status SimpleAssembler::CreateRelocatable(
                                        ? sizeof(ELFIO::Elf64_Rela)
                                        : sizeof(ELFIO::Elf32_Rela));
       rela_section->set_link(symtab_->get_index());
-      rela_section->set_info(text_section_->get_index());
+      rela_section->set_info(section_index);
       rela_section->set_addr_align(8);
       // Process the relocation vector entries.
       absl::Status status;
-- 
2.43.0


From e4130bb36eb0c09e057e284dab0888a5e10baa08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 097/135] fix: assembler ignores the errors of its second pass

---
 mpact/sim/util/asm/simple_assembler.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 92e7e6e..5918c4d 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -742,11 +742,11 @@ absl::Status SimpleAssembler::ParsePassTwo(
     auto relo_size = relo_vector.size();
     auto address = section_address_map_[section];
     if (line[0] == '.') {
-      auto status = ParseAsmDirective(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmDirective(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     } else {
-      auto status = ParseAsmStatement(line, address, symbol_resolver,
-                                      byte_vector, relo_vector);
+      status = ParseAsmStatement(line, address, symbol_resolver, byte_vector,
+                                 relo_vector);
     }
     if (!status.ok()) return status;
     // Update section information in the relocation vector.
-- 
2.43.0


From aca3b65b67c12583f6fb9e40d6a956d1c23bfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:48 +0000
Subject: [PATCH 098/135] fix: assembler puts what precedes the first section
 into the last one

---
 mpact/sim/util/asm/simple_assembler.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 5918c4d..0a17f10 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -734,7 +734,8 @@ absl::Status SimpleAssembler::ParsePassTwo(
     std::vector<RelocationInfo>& relo_vector,
     ResolverInterface* symbol_resolver) {
   // Now fill in the sections. Parse each of the lines saved in the first
-  // pass.
+  // pass, which started without a current section.
+  current_section_ = nullptr;
   for (auto const& line : lines_) {
     std::vector<uint8_t> byte_vector;
     absl::Status status;
@@ -965,6 +966,10 @@ absl::Status SimpleAssembler::ParseAsmStatement(
     absl::string_view line, uint64_t address, ResolverInterface* resolver,
     std::vector<uint8_t>& byte_values,
     std::vector<RelocationInfo>& relocations) {
+  if (current_section_ == nullptr) {
+    return absl::InvalidArgumentError(
+        absl::StrCat("No section for statement: '", line, "'"));
+  }
   // Call the target specific assembler to encode the statement.
   auto result = opcode_assembler_if_->Encode(
       address, line,
-- 
2.43.0


From 98367ecabad20e8e4a54cd16d629a561834528c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:15 +0000
Subject: [PATCH 099/135] fix: assembler drops strings with escaped double
 quotes

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 0a17f10..6e2ce6d 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -210,7 +210,7 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
     absl::string_view remainder, ResolverInterface* resolver) {
   std::vector<std::string> values;
   std::string match;
-  static RE2 value_re("\\s*\"([^\"]*)\"\\s*(?:,|$)");
+  static RE2 value_re("\\s*\"((?:[^\"\\\\]|\\\\.)*)\"\\s*(?:,|$)");
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
-- 
2.43.0


From 1a46338520d5631891309300fa5b9ea55ecca95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:37 +0000
Subject: [PATCH 100/135] fix: assembler leaks its resolver when the source has
 an error

---
 mpact/sim/util/asm/simple_assembler.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 6e2ce6d..e0b691a 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -325,6 +325,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
       std::string suffix;
       // Remove comments from the input line.
       if (!RE2::FullMatch(tmp, comment_re_, &prefix, &suffix)) {
+        cleanup();
         return absl::InternalError("Failed to parse comment");
       }
       tmp = absl::StrCat(prefix, suffix);
@@ -360,7 +361,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           status = ParseAsmStatement(line, address, zero_resolver, byte_vector,
                                      relo_vector);
         }
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
         // Save the statements for processing in pass two (labels are all
         // processed in pass one).
         lines_.push_back(statement);
@@ -373,7 +377,10 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         }
         auto status = AddSymbolToCurrentSection(label, symbol_address, 0,
                                                 ELFIO::STT_NOTYPE, 0, 0);
-        if (!status.ok()) return status;
+        if (!status.ok()) {
+          cleanup();
+          return status;
+        }
       }
       continue;
     }
-- 
2.43.0


From a1e1e5131d0b43e932c14e904a61c5999421e93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:57 +0000
Subject: [PATCH 101/135] fix: assembler creates executables with undefined
 symbols

---
 mpact/sim/util/asm/simple_assembler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e0b691a..bbfb98f 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -396,6 +396,7 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
 
   // Add undefined symbols to the symbol table.
   for (auto const& symbol : undefined_symbols_) {
+    if (symbol_indices_.contains(symbol)) continue;
     auto status = AddSymbol(symbol, 0, 0, ELFIO::STT_NOTYPE, ELFIO::STB_GLOBAL,
                             0, nullptr);
     if (!status.ok()) {
@@ -404,7 +405,6 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
           "Failed to add undefined symbol '", symbol, "': ", status.message()));
     }
   }
-  undefined_symbols_.clear();
 
   if (bss_section_ != nullptr) {
     bss_section_->set_size(section_address_map_[bss_section_]);
@@ -470,7 +470,8 @@ void SimpleAssembler::UpdateSymbolsForRelocatable() {
 absl::Status SimpleAssembler::CreateExecutable(
     uint64_t base_address, const std::string& entry_point,
     ResolverInterface* symbol_resolver) {
-  if (!undefined_symbols_.empty()) {
+  // If a resolver is provided, it has to resolve the undefined symbols.
+  if ((symbol_resolver == nullptr) && !undefined_symbols_.empty()) {
     std::string message;
     absl::StrAppend(
         &message,
-- 
2.43.0


From d7aa39cbd4af666fa4f1c62de65b5a2a6da6aa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:17 +0000
Subject: [PATCH 102/135] fix: assembler accepts duplicate labels of directives

---
 mpact/sim/util/asm/simple_assembler.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index bbfb98f..e4f5ffe 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -961,8 +961,8 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Label: '", label, "' defined outside of a section"));
     }
-    auto status = AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
-                            ELFIO::STB_LOCAL, 0, section);
+    return AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
+                     ELFIO::STB_LOCAL, 0, section);
   }
   return absl::OkStatus();
 }
-- 
2.43.0


From 74877afaf0c2145f2e3570eb8d6a158809c670a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:28 +0000
Subject: [PATCH 103/135] fix: assembler takes labels outside of a section for
 undefined symbols

---
 mpact/sim/util/asm/simple_assembler.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e4f5ffe..91a1752 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -370,6 +370,11 @@ absl::Status SimpleAssembler::Parse(std::istream& is,
         lines_.push_back(statement);
       } else if (!label.empty()) {
         // This is just a single label definition. Add it to the symbol table.
+        if (section == nullptr) {
+          cleanup();
+          return absl::InvalidArgumentError(
+              absl::StrCat("Label: '", label, "' defined outside of a section"));
+        }
         uint64_t symbol_address = address;
         if ((current_section_ == data_section_) ||
             (current_section_ == bss_section_)) {
-- 
2.43.0


From 57d464f8b2e8c0b675de2ed69a7201c2ee40a298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:54 +0000
Subject: [PATCH 104/135] fix: assembler ignores malformed values and those
 that follow

---
 mpact/sim/util/asm/simple_assembler.cc | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 91a1752..67e9ac2 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -29,6 +29,7 @@
 #include "absl/log/log.h"
 #include "absl/status/status.h"
 #include "absl/status/statusor.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/string_view.h"
 #include "absl/types/span.h"
@@ -168,6 +169,13 @@ std::string ExpandEscapes(absl::string_view text) {
   return result;
 }
 
+// Returns an error if there is anything left of the list of values.
+absl::Status CheckRemainder(absl::string_view remainder) {
+  if (absl::StripAsciiWhitespace(remainder).empty()) return absl::OkStatus();
+  return absl::InvalidArgumentError(
+      absl::StrCat("Invalid value: '", remainder, "'"));
+}
+
 // This function is used to parse a list of values from the remainder of an
 // assembly directive. The values are separated by commas. The type T is the
 // type of the values, and must be an integer type or char. The resolver
@@ -184,6 +192,8 @@ absl::StatusOr<std::vector<T>> GetValues(
     T value = static_cast<T>(result.value());
     values.push_back(value);
   }
+  auto status = CheckRemainder(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -201,6 +211,8 @@ absl::StatusOr<std::vector<char>> GetValues<char>(absl::string_view remainder,
           absl::StrCat("Invalid character: '", match, "'"));
     values.push_back(expanded[0]);
   }
+  auto status = CheckRemainder(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -214,6 +226,8 @@ absl::StatusOr<std::vector<std::string>> GetValues<std::string>(
   while (RE2::Consume(&remainder, value_re, &match)) {
     values.push_back(ExpandEscapes(match));
   }
+  auto status = CheckRemainder(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
@@ -227,6 +241,8 @@ absl::StatusOr<std::vector<std::string>> GetLabels(
   while (RE2::Consume(&remainder, label_re, &match)) {
     values.push_back(match);
   }
+  auto status = CheckRemainder(remainder);
+  if (!status.ok()) return status;
   return values;
 }
 
-- 
2.43.0


From 47b145f55fbf6254cddc3230c6c1797ab4a55df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:10 +0000
Subject: [PATCH 105/135] fix: assembler takes bytes out of range for undefined
 symbols

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index 67e9ac2..a31f941 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -855,7 +855,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     SetBssSection(".bss");
   } else if (match == "bytes") {
     // .bytes
-    auto res = GetValues<uint8_t>(remainder, resolver);
+    auto res = GetValues<uint8_t>(remainder);
     if (!res.ok()) return res.status();
     auto values = res.value();
     size = values.size();
-- 
2.43.0


From 42e5b3fef9f86ffb614a09366f28a7b4856bfdd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:37 +0000
Subject: [PATCH 106/135] fix: .align 0 wraps the address of the section

---
 mpact/sim/util/asm/simple_assembler.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index a31f941..e0ba8cb 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -839,7 +839,7 @@ absl::Status SimpleAssembler::ParseAsmDirective(
     if (!res.ok()) return res.status();
     uint64_t align = res.value();
     // Verify that the alignment is a power of two.
-    if ((align & (align - 1)) != 0) {
+    if ((align == 0) || ((align & (align - 1)) != 0)) {
       return absl::InvalidArgumentError(
           absl::StrCat("Invalid alignment: '", directive, "'"));
     }
-- 
2.43.0


From 97680cb4509e10fa5dee8cffecfafcb11e3d59cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:28 +0000
Subject: [PATCH 107/135] fix: labels of directives do not count in data
 address units

---
 mpact/sim/util/asm/simple_assembler.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/util/asm/simple_assembler.cc b/mpact/sim/util/asm/simple_assembler.cc
index e0ba8cb..c50a421 100644
--- a/mpact/sim/util/asm/simple_assembler.cc
+++ b/mpact/sim/util/asm/simple_assembler.cc
@@ -982,6 +982,9 @@ absl::Status SimpleAssembler::ParseAsmDirective(
       return absl::InvalidArgumentError(
           absl::StrCat("Label: '", label, "' defined outside of a section"));
     }
+    if ((section == data_section_) || (section == bss_section_)) {
+      address /= data_address_unit_;
+    }
     return AddSymbol(label, address, size, ELFIO::STT_NOTYPE,
                      ELFIO::STB_LOCAL, 0, section);
   }
-- 
2.43.0


From 0f927da64b8809e036316fc464d38d0a02ebf0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 108/135] fix: RenodeCLITop takes every halt for the end of the
 program

---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From 63d596ad1096576010cc0ffbfccb1799194c4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:46 +0000
Subject: [PATCH 109/135] fix: RenodeStep never returns when the program is
 done

---
 mpact/sim/util/renode/renode_cli_top.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 2916445..2bc8b8d 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -59,7 +59,7 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
   renode_steps_taken_ = 0;
   renode_steps_to_take_ = num;
   auto renode_take_control = [this]() -> bool {
-    return (cli_status_ == RunStatus::kRunning) ||
+    return program_done_ || (cli_status_ == RunStatus::kRunning) ||
            (renode_steps_taken_ >= renode_steps_to_take_);
   };
   // CLI was either idle, running, or stepping previously when cli run control
-- 
2.43.0


From eee2c1480b040e7863e92e83e80a56560025f1cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:09 +0000
Subject: [PATCH 110/135] fix: CLIRun does not return after the program ends in
 CLIStep

---
 mpact/sim/util/renode/renode_cli_top.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 2bc8b8d..0a7c1e9 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -152,7 +152,7 @@ absl::Status RenodeCLITop::CLIRun() {
   // This predicate is used to determine when the command line interface is
   // in control for the purposes of issuing a run command.
   auto cli_is_not_running = [this] {
-    return cli_status_ != RunStatus::kRunning;
+    return program_done_ || (cli_status_ != RunStatus::kRunning);
   };
   run_control_mutex_.LockWhen(absl::Condition(&cli_is_not_running));
   if (top_->GetLastHaltReason().value() == *HaltReason::kProgramDone) {
-- 
2.43.0


From 0f262310a0e6a1710bb172fab2b72113c34afb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:24 +0000
Subject: [PATCH 111/135] fix: CLI keeps control of the core after RenodeStep
 fails

---
 mpact/sim/util/renode/renode_cli_top.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 0a7c1e9..9f35981 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -101,6 +101,8 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if (renode_steps_to_take_ <= renode_steps_taken_) break;
     } else {
       status = res.status();
+      // The CLI is not in control after the return to Renode.
+      renode_steps_to_take_ = renode_steps_taken_;
       break;
     }
   }
-- 
2.43.0


From 45e95907b01dd90106a535423654a6a54de722f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 112/135] fix: Renode instances made by construct and connect
 have the same name

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..8cffb1b 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From 2060934e8e717b63c46a3e70f97eeaeb5e7123e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:15 +0000
Subject: [PATCH 113/135] fix: Renode instance takes the register name length
 of one destructed before

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 8cffb1b..78f3217 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From e6b3cb20f8c2575247d4daf2347de27af4771ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 114/135] fix: Renode step count is cut to 32 bits

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 78f3217..d490b03 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -394,7 +394,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From 497979b138c6032d3b4f2e25f8c2547c2255dee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 115/135] fix: Renode step writes its status through a null
 pointer

---
 mpact/sim/util/renode/renode_mpact.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index d490b03..629e9ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -372,7 +372,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -390,7 +392,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 234289e302f38e76fe033cf2579799d6876176de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 116/135] fix: Renode load_image reports success when the file
 cannot be read

---
 mpact/sim/util/renode/renode_mpact.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 629e9ea..1cf89dc 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -357,6 +357,10 @@ int32_t RenodeAgent::LoadImage(int32_t id, const char* file_name,
     }
     load_address += gcount;
   } while (image_file.good() && (gcount > 0));
+  if (image_file.bad()) {
+    LOG(ERROR) << "LoadImage: Failed to read the input file";
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From 7bdffd5375b704e2d711cb214b49ec601cdba96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:22 +0000
Subject: [PATCH 117/135] fix: SimpleUart scratch register is uninitialized

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From f96db7e305d8897bdb5e61b00309e207882540b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 118/135] fix: constraint on a field of a oneof member is
 dropped or contradicts itself

---
 .../sim/decoder/proto_instruction_encoding.cc | 101 ++++++++++++------
 .../sim/decoder/proto_instruction_encoding.h  |  13 ++-
 2 files changed, 76 insertions(+), 38 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index bbd16b2..1c87387 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -28,6 +28,7 @@
 #include "mpact/sim/decoder/format_name.h"
 #include "mpact/sim/decoder/proto_constraint_expression.h"
 #include "mpact/sim/decoder/proto_format_contexts.h"
+#include "mpact/sim/decoder/proto_instruction_group.h"
 #include "src/google/protobuf/descriptor.h"
 
 namespace mpact {
@@ -111,7 +112,8 @@ absl::Status ProtoInstructionEncoding::AddSetter(
           "One_of constraint on '", desc->name(),
           "' contradicts encoding constraint on '", iter->second->name(), "'"));
     }
-    depends_on = AddHasConstraint(desc, depends_on);
+    depends_on = AddHasConstraint(
+        desc, GetPathTo(ctx->qualified_ident()->getText(), desc), depends_on);
   }
 
   // Add the setter information.
@@ -130,10 +132,28 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
   // points to the end of the dependence chain, or nullptr if there are no or
   // duplicate one_of field constraints.
   ProtoConstraint* depends_on = nullptr;
+  const std::string ident = ctx->qualified_ident()->getText();
+  // Helper lambda to create a constraint on a field named in the context.
+  auto new_constraint = [&](const google::protobuf::FieldDescriptor* desc,
+                            ConstraintType type,
+                            const ProtoConstraintExpression* expr,
+                            const std::string& path) {
+    auto* constraint = new ProtoConstraint{ctx, desc, type, expr, 0, nullptr};
+    constraint->path = path;
+    return constraint;
+  };
+  // In order to generate a reasonably efficient decoder we divide the
+  // constraints into two sets, those that can be used as indices into function
+  // call tables or used as values in switch statements to differentiate between
+  // the most instructions, and those that have to be evaluated in a slower
+  // (often serial) manner. Only constraints on fields that don't depend on
+  // other one_of fields can be treated in this manner. A dependency on one_of
+  // fields can be used to create additional constraints, of which one is at the
+  // top level in the proto.
   for (auto const* desc : one_of_fields) {
     auto iter = oneof_field_map_.find(desc->containing_oneof());
     if (iter != oneof_field_map_.end()) {
-      if (iter->second == field_descriptor) {
+      if (iter->second == desc) {
         continue;  // Ignore duplicate.
       } else {
         // This contradicts a previous one_of constraint. Flag an error.
@@ -145,43 +165,30 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
     }
     // Add the one_of to the oneof_field_map_.
     oneof_field_map_.emplace(desc->containing_oneof(), desc);
-    depends_on = AddHasConstraint(desc, depends_on);
-  }
-  // In order to generate a reasonably efficient decoder we divide the
-  // constraints into two sets, those that can be used as indices into function
-  // call tables or used as values in switch statements to differentiate between
-  // the most instructions, and those that have to be evaluated in a slower
-  // (often serial) manner. Only constraints on fields that don't depend on
-  // other one_of fields can be treated in this manner. A dependency on one_of
-  // fields can be used to create additional constraints, of which one is at the
-  // top level in the proto.
-
-  if (!one_of_fields.empty()) {
-    // Add equal constraint on the first one_of_field dependency.
-    equal_constraints_.push_back(new ProtoConstraint{
-        ctx, one_of_fields[0], ConstraintType::kHas, nullptr, 0, nullptr});
-    // Add the remaining one_of depende ncies to the other constraints.
-    for (int i = 1; i < one_of_fields.size(); ++i) {
-      other_constraints_.push_back(new ProtoConstraint{
-          ctx, one_of_fields[i], ConstraintType::kHas, nullptr, 0, nullptr});
-      // Add the constraint to the 'other' constraints.
-      other_constraints_.push_back(
-          new ProtoConstraint{ctx, field_descriptor, op, expr, 0, depends_on});
+    std::string path = GetPathTo(ident, desc);
+    depends_on = AddHasConstraint(desc, path, depends_on);
+    // The first one_of_field dependency is an equal constraint, the remaining
+    // ones are added to the other constraints.
+    auto* constraint =
+        new_constraint(desc, ConstraintType::kHas, nullptr, path);
+    if (desc == one_of_fields[0]) {
+      equal_constraints_.push_back(constraint);
+    } else {
+      other_constraints_.push_back(constraint);
     }
-    return absl::OkStatus();
   }
 
   // A kHas constraint on a member of a one_of field is equivalent to an kEq
-  // constraint on the value of the one_of '_value()' function, so add it to the
+  // constraint on the value of the one_of '_case()' function, so add it to the
   // equal_constraints vector. For kEq constraints, if the type of the field is
   // not an integer type, put it in the other_constraints.
 
-  if ((op == ConstraintType::kEq) &&
+  if (one_of_fields.empty() && (op == ConstraintType::kEq) &&
       (IsIntType(kCppToVariantTypeMap[field_descriptor->cpp_type()]))) {
     // If it's an equal constraint with an integer type, add it to the 'equal'
     // constraints.
     equal_constraints_.push_back(
-        new ProtoConstraint{ctx, field_descriptor, op, expr, 0, nullptr});
+        new_constraint(field_descriptor, op, expr, ident));
   } else if ((op == ConstraintType::kHas) &&
              (field_descriptor->containing_oneof() != nullptr)) {
     // If it's a kHas constraint on an one_of field, first make sure that it
@@ -204,30 +211,54 @@ absl::Status ProtoInstructionEncoding::AddConstraint(
           "' contradicts previous constraint on '", iter->second->name(), "'"));
     }
     oneof_field_map_.emplace(oneof_desc, field_descriptor);
-    equal_constraints_.push_back(
-        new ProtoConstraint{ctx, field_descriptor, op, nullptr, 0, nullptr});
+    auto* constraint = new_constraint(field_descriptor, op, nullptr, ident);
+    if (one_of_fields.empty()) {
+      equal_constraints_.push_back(constraint);
+    } else {
+      other_constraints_.push_back(constraint);
+    }
   } else {
     // Otherwise add it to the 'other' constraints.
     other_constraints_.push_back(
-        new ProtoConstraint{ctx, field_descriptor, op, expr, 0, nullptr});
+        new_constraint(field_descriptor, op, expr, ident));
   }
   return absl::OkStatus();
 }
 
+std::string ProtoInstructionEncoding::GetPathTo(
+    const std::string& ident,
+    const google::protobuf::FieldDescriptor* field_descriptor) const {
+  auto const* message = instruction_group_ != nullptr
+                            ? instruction_group_->message_type()
+                            : nullptr;
+  std::string::size_type start = 0;
+  while (message != nullptr) {
+    auto pos = ident.find('.', start);
+    auto const* field =
+        message->FindFieldByName(ident.substr(start, pos - start));
+    if (field == field_descriptor) return ident.substr(0, pos);
+    if ((field == nullptr) || (pos == std::string::npos)) break;
+    message = field->message_type();
+    start = pos + 1;
+  }
+  return ident;
+}
+
 ProtoConstraint* ProtoInstructionEncoding::AddHasConstraint(
     const google::protobuf::FieldDescriptor* field_descriptor,
-    ProtoConstraint* depends_on) {
+    const std::string& path, ProtoConstraint* depends_on) {
   if (depends_on != nullptr) {
-    if (!has_constraints_.contains(depends_on->field_descriptor->full_name())) {
+    if (!has_constraints_.contains(depends_on->path)) {
       return nullptr;
     }
   }
-  auto iter = has_constraints_.find(field_descriptor->full_name());
+  auto iter = has_constraints_.find(path);
   if (iter != has_constraints_.end()) return iter->second;
 
   ProtoConstraint* constraint = new ProtoConstraint{
       nullptr, field_descriptor, ConstraintType::kHas, nullptr, 0, depends_on};
-  has_constraints_.emplace(field_descriptor->full_name(), constraint);
+  constraint->path = path;
+  has_constraints_.emplace(path, constraint);
   return constraint;
 }
 
diff --git a/mpact/sim/decoder/proto_instruction_encoding.h b/mpact/sim/decoder/proto_instruction_encoding.h
index 2a96456..672a17d 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.h
+++ b/mpact/sim/decoder/proto_instruction_encoding.h
@@ -73,6 +73,8 @@ struct ProtoConstraint {
   // If non-null, points to a constraint that has to be true before one can
   // evaluate this constraint.
   ProtoConstraint* depends_on;
+  // The path to the field from the instruction message, e.g., 'a.b.c'.
+  std::string path;
   // Constructors.
   ProtoConstraint(FieldConstraintCtx* ctx,
                   const google::protobuf::FieldDescriptor* field_descriptor,
@@ -96,6 +98,7 @@ struct ProtoConstraint {
     this->expr = rhs.expr != nullptr ? rhs.expr->Clone() : nullptr;
     this->value = rhs.value;
     this->depends_on = rhs.depends_on;
+    this->path = rhs.path;
   }
 };
 
@@ -174,11 +177,15 @@ class ProtoInstructionEncoding {
   // it does not exist, it creates it and adds it to the has_constraints and
   // returns a pointer to the new constraint. If depends_on is not nullptr,
   // then it is required that the depends_on constraint exists in the
-  // has_constraints_ map. This is checked by searching for the full_name of
-  // the field_descriptor in the depends_on constraint.
+  // has_constraints_ map. This is checked by searching for the path of the
+  // depends_on constraint.
   ProtoConstraint* AddHasConstraint(
       const google::protobuf::FieldDescriptor* field_descriptor,
-      ProtoConstraint* depends_on);
+      const std::string& path, ProtoConstraint* depends_on);
+  // Returns the leading part of the path 'ident' that ends in the given field.
+  std::string GetPathTo(
+      const std::string& ident,
+      const google::protobuf::FieldDescriptor* field_descriptor) const;
 
   // Instruction name.
   std::string name_;
-- 
2.43.0


From 2719b0574cb6b8f62b83d8a32ec9bdb2c0502b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:34 +0000
Subject: [PATCH 119/135] fix: conditions in emitted proto decoders do not
 compile

---
 mpact/sim/decoder/proto_encoding_group.cc | 60 +++++++++++++++--------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index f311316..6a9584a 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -87,6 +87,41 @@ ProtoEncodingGroup::~ProtoEncodingGroup() {
   encoding_group_vec_.clear();
 }
 
+// Returns the code that accesses the field with the given path, i.e., a.b.c is
+// converted to a().b().c(). The last component is prefixed and suffixed.
+static std::string GetAccessor(const std::string& path,
+                               absl::string_view last_prefix = "",
+                               absl::string_view last_suffix = "") {
+  auto pos = path.find_last_of('.');
+  std::string accessor;
+  if (pos != std::string::npos) {
+    accessor = absl::StrCat(
+        absl::StrReplaceAll(path.substr(0, pos), {{".", "()."}}), "().");
+  }
+  std::string last = pos == std::string::npos ? path : path.substr(pos + 1);
+  return absl::StrCat(accessor, last_prefix, last, last_suffix, "()");
+}
+
+// Returns the text of the value that the field is compared with.
+static std::string GetValueText(const ProtoConstraint* constraint) {
+  auto const* expr = constraint->expr;
+  switch (expr->variant_type()) {
+    case *ProtoValueIndex::kInt32:
+      return absl::StrCat(expr->GetValueAs<int32_t>());
+    case *ProtoValueIndex::kInt64:
+      return absl::StrCat(expr->GetValueAs<int64_t>());
+    case *ProtoValueIndex::kUint32:
+      return absl::StrCat(expr->GetValueAs<uint32_t>());
+    case *ProtoValueIndex::kUint64: {
+      auto value = expr->GetValueAs<uint64_t>();
+      return absl::StrCat(
+          value, value > std::numeric_limits<int64_t>::max() ? "ULL" : "");
+    }
+    default:
+      return constraint->ctx->constraint_expr()->getText();
+  }
+}
+
 void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
   // All constraints in equal_constraints are kEq constraints on integer
   // fields, or are kHas constraints which are kEq constraints on the
@@ -436,30 +471,13 @@ std::string ProtoEncodingGroup::EmitLeafDecoder(
       [](const ProtoConstraint* constraint) -> std::string {
     std::string output;
     if (constraint->op == ConstraintType::kHas) {
-      std::string ident = constraint->ctx->qualified_ident()->getText();
-      auto pos = ident.find_last_of('.');
-      std::string prefix;
-      if (pos != std::string::npos) {
-        prefix = absl::StrCat(".", ident.substr(0, pos + 1));
-      }
-      auto oneof_desc = constraint->field_descriptor->containing_oneof();
-      auto oneof_name = oneof_desc->name();
-      std::string parent_name;
-      for (auto parent = oneof_desc->containing_type(); parent != nullptr;
-           parent = parent->containing_type()) {
-        absl::StrAppend(&parent_name, ToPascalCase(parent->name()), "::");
-      }
-      auto package = absl::StrReplaceAll(
-          constraint->field_descriptor->file()->package(), {{".", "::"}});
-      return absl::StrCat(
-          "(", kDecodeMsgName, prefix, ".", oneof_name, "_case() == ", package,
-          "::", parent_name, ToPascalCase(oneof_name), "Case::k",
-          ToPascalCase(constraint->field_descriptor->name()), ")");
+      return absl::StrCat("(", kDecodeMsgName, ".",
+                          GetAccessor(constraint->path, "has_"), ")");
     } else {
       return absl::StrCat("(", kDecodeMsgName, ".",
-                          constraint->ctx->field->getText(), " ",
+                          GetAccessor(constraint->path), " ",
                           GetOpText(constraint->op), " ",
-                          constraint->ctx->constraint_expr()->getText(), ")");
+                          GetValueText(constraint), ")");
     }
   };
 
-- 
2.43.0


From 1c2aec95b136fb2d9c23a17951f93a2aff9e8a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 120/135] fix: proto decoder groups confuse fields with the
 same name and oneof cases

---
 mpact/sim/decoder/proto_encoding_group.cc | 58 ++++++++++++-----------
 mpact/sim/decoder/proto_encoding_group.h  |  6 +--
 2 files changed, 33 insertions(+), 31 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 6a9584a..c621036 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -47,7 +47,8 @@ using ::mpact::sim::machine_description::instruction_set::ToSnakeCase;
 struct FieldInfo {
   const google::protobuf::FieldDescriptor* field;
   const google::protobuf::OneofDescriptor* oneof;
-  QualifiedIdentCtx* ctx;
+  // The code that accesses the value.
+  std::string accessor;
   absl::btree_multimap<int64_t, const ProtoInstructionEncoding*> value_map;
   int64_t min_value = 0;
   int64_t max_value = 0;
@@ -102,6 +103,14 @@ static std::string GetAccessor(const std::string& path,
   return absl::StrCat(accessor, last_prefix, last, last_suffix, "()");
 }
 
+// Returns the path of the oneof that the field of the constraint is a member of.
+static std::string GetOneofPath(const ProtoConstraint* constraint) {
+  auto const* oneof = constraint->field_descriptor->containing_oneof();
+  auto pos = constraint->path.find_last_of('.');
+  if (pos == std::string::npos) return std::string(oneof->name());
+  return absl::StrCat(constraint->path.substr(0, pos + 1), oneof->name());
+}
+
 // Returns the text of the value that the field is compared with.
 static std::string GetValueText(const ProtoConstraint* constraint) {
   auto const* expr = constraint->expr;
@@ -133,7 +142,6 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
     auto const* oneof = field->containing_oneof();
     auto const* expr = eq_constraint->expr;
     auto op = eq_constraint->op;
-    auto* qualifed_ident_ctx = eq_constraint->ctx->qualified_ident();
     int64_t value;  // Store the value in an int64_t.
     if (op == ConstraintType::kEq) {
       switch (expr->variant_type()) {
@@ -170,7 +178,8 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
       }
       oneof = nullptr;
     } else if (op == ConstraintType::kHas) {
-      value = field->index();
+      // The value of the '_case()' function is the number of the field.
+      value = field->number();
       oneof = field->containing_oneof();
       field = nullptr;
     } else {
@@ -182,14 +191,16 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
     }
     eq_constraint->value = value;
     // If the field_info doesn't exist, add a new field_info.
-    auto name = field != nullptr ? field->name() : oneof->name();
+    auto name = field != nullptr ? eq_constraint->path
+                                 : GetOneofPath(eq_constraint);
     auto iter = field_map_.find(name);
     FieldInfo* field_info = nullptr;
     if (iter == field_map_.end()) {
       field_info = new FieldInfo{field, oneof};
       field_info->min_value = std::numeric_limits<int64_t>::max();
       field_info->max_value = std::numeric_limits<int64_t>::min();
-      field_info->ctx = qualifed_ident_ctx;
+      field_info->accessor =
+          GetAccessor(name, "", field != nullptr ? "" : "_case");
       field_map_.emplace(name, field_info);
     } else {
       field_info = iter->second;
@@ -204,13 +215,11 @@ void ProtoEncodingGroup::AddEncoding(ProtoInstructionEncoding* enc) {
   // Populate the other_* sets. These are used later to ensure that sub groups
   // aren't added with differentiators that are also used in other constraints.
   for (auto* constraint : enc->other_constraints()) {
-    auto const* field = constraint->field_descriptor;
-    auto const* oneof = field->containing_oneof();
-    if (oneof != nullptr) {
-      other_oneof_set_.insert(oneof);
+    if (constraint->field_descriptor->containing_oneof() != nullptr) {
+      other_path_set_.insert(GetOneofPath(constraint));
       continue;
     }
-    other_field_set_.insert(field);
+    other_path_set_.insert(constraint->path);
   }
 }
 
@@ -227,17 +236,15 @@ void ProtoEncodingGroup::AddSubGroups() {
   for (auto enc : encoding_vec_) {
     encodings.insert(enc);
   }
-  for (auto& [unused, field_info] : field_map_) {
+  std::string best_path;
+  for (auto& [path, field_info] : field_map_) {
     // First check if the field is used in any other constraints, e.g., '>' or
     // '!='. If so, it is not a candidate for a direct lookup of the value.
-    if (other_field_set_.contains(field_info->field)) continue;
-    if (other_oneof_set_.contains(field_info->oneof)) continue;
-    if (best_field == nullptr) {
+    if (other_path_set_.contains(path)) continue;
+    if ((best_field == nullptr) ||
+        (field_info->unique_values > best_field->unique_values)) {
       best_field = field_info;
-    } else {
-      if (field_info->unique_values > best_field->unique_values) {
-        best_field = field_info;
-      }
+      best_path = path;
     }
   }
   // If there is no best field, or it doesn't differentiate we're done, but
@@ -273,13 +280,13 @@ void ProtoEncodingGroup::AddSubGroups() {
         constraint = *v_iter;
         if (constraint->op == ConstraintType::kEq) {
           if ((best_field->field != nullptr) &&
-              (best_field->field == constraint->field_descriptor)) {
+              (best_path == constraint->path) &&
+              (value == constraint->value)) {
             break;
           }
         } else {  // This constraint is a kHas.
           if ((best_field->oneof != nullptr) &&
-              (best_field->oneof ==
-               constraint->field_descriptor->containing_oneof())) {
+              (best_path == GetOneofPath(constraint))) {
             break;
           }
         }
@@ -552,12 +559,10 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     }
     absl::StrAppend(&output, "});\n\n");
     // Emit the function body.
-    auto call =
-        absl::StrReplaceAll(differentiator_->ctx->getText(), {{".", "()."}});
     absl::StrAppend(&output, opcode_enum, " ", fcn_name, "(", message_type_name,
                     " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n",
                     "  auto iter = ", map_name, "->find(", kDecodeMsgName, ".",
-                    call, "());\n", "  if (iter == ", map_name,
+                    differentiator_->accessor, ");\n", "  if (iter == ", map_name,
                     "->end()) return ", opcode_enum, "::kNone;\n",
                     "  return iter->second(", kDecodeMsgName,
                     ", decoder);\n}\n\n");
@@ -584,12 +589,11 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
       }
     }
     // Emit the function body.
-    auto call =
-        absl::StrReplaceAll(differentiator_->ctx->getText(), {{".", "()."}});
     absl::StrAppend(
         &output, "};\n\n", opcode_enum, " ", fcn_name, "(", message_type_name,
         " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n", "  return ",
-        ToSnakeCase(fcn_name), "_table[", kDecodeMsgName, ".", call, "() - ",
+        ToSnakeCase(fcn_name), "_table[", kDecodeMsgName, ".",
+        differentiator_->accessor, " - ",
         differentiator_->min_value, "](", kDecodeMsgName, ", decoder);\n}\n\n");
   }
   return output;
diff --git a/mpact/sim/decoder/proto_encoding_group.h b/mpact/sim/decoder/proto_encoding_group.h
index d86bb7f..05f15a4 100644
--- a/mpact/sim/decoder/proto_encoding_group.h
+++ b/mpact/sim/decoder/proto_encoding_group.h
@@ -102,10 +102,8 @@ class ProtoEncodingGroup {
   std::vector<ProtoInstructionEncoding*> encoding_vec_;
   std::vector<ProtoEncodingGroup*> encoding_group_vec_;
   absl::btree_map<std::string, FieldInfo*> field_map_;
-  absl::flat_hash_set<const google::protobuf::FieldDescriptor*>
-      other_field_set_;
-  absl::flat_hash_set<const google::protobuf::OneofDescriptor*>
-      other_oneof_set_;
+  // The paths of the fields and oneofs used in other constraints.
+  absl::flat_hash_set<std::string> other_path_set_;
 };
 
 }  // namespace proto_fmt
-- 
2.43.0


From 51bf8c58aee3d46137f5c0596ce1d9105b53c6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:32 +0000
Subject: [PATCH 121/135] fix: emitted proto decoder misses values outside of
 its tables

---
 mpact/sim/decoder/proto_encoding_group.cc | 41 +++++++++++++++++------
 mpact/sim/decoder/proto_encoding_group.h  |  3 ++
 mpact/sim/decoder/proto_encoding_info.cc  |  1 +
 3 files changed, 35 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index c621036..2a99c0d 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -86,6 +86,8 @@ ProtoEncodingGroup::~ProtoEncodingGroup() {
     delete enc_group;
   }
   encoding_group_vec_.clear();
+  delete default_group_;
+  default_group_ = nullptr;
 }
 
 // Returns the code that accesses the field with the given path, i.e., a.b.c is
@@ -305,8 +307,15 @@ void ProtoEncodingGroup::AddSubGroups() {
     encoding_group_vec_.push_back(enc_group);
   }
   // Any encodings remaining in the map have to be added to each of the sub
-  // groups, as they weren't selected by value.
-  for (auto enc : encodings) {
+  // groups, as they weren't selected by value. They also match when the value is
+  // that of none of the sub groups.
+  if (!encodings.empty()) {
+    default_group_ =
+        new ProtoEncodingGroup(this, inst_group_, level_ + 1, error_listener_);
+  }
+  for (auto enc : encoding_vec_) {
+    if (!encodings.contains(enc)) continue;
+    default_group_->AddEncoding(new ProtoInstructionEncoding(*enc));
     for (auto* enc_group : encoding_group_vec_) {
       auto enc_copy = new ProtoInstructionEncoding(*enc);
       enc_group->AddEncoding(enc_copy);
@@ -317,6 +326,7 @@ void ProtoEncodingGroup::AddSubGroups() {
   for (auto* enc_group : encoding_group_vec_) {
     enc_group->AddSubGroups();
   }
+  if (default_group_ != nullptr) default_group_->AddSubGroups();
 }
 
 // Check the encodings to make sure there aren't ambiguities.
@@ -538,6 +548,11 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
   }
   std::string decoder_class =
       ToPascalCase(inst_group_->encoding_info()->decoder()->name()) + "Decoder";
+  // The function to call when there is no sub group for the value.
+  std::string none_fcn =
+      default_group_ != nullptr
+          ? absl::StrCat(fcn_name, "_default")
+          : absl::StrCat("Decode", ToPascalCase(inst_group_->name()), "_None");
   // First emit the function call tables.
   // Sort the encoding_group_vec according to differentiator value.
   std::sort(encoding_group_vec_.begin(), encoding_group_vec_.end(), LessThan);
@@ -549,7 +564,7 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     std::string map_name = absl::StrCat(ToSnakeCase(fcn_name), "_map");
     absl::StrAppend(
         &output,
-        "absl::NoDestructor<absl::flat_hash_map<int32_t, std::function<",
+        "absl::NoDestructor<absl::flat_hash_map<int64_t, std::function<",
         opcode_enum, "(", message_type_name, ", ", decoder_class, "*)>>> ",
         map_name, "({\n");
     for (auto* enc_group : encoding_group_vec_) {
@@ -563,7 +578,8 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
                     " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n",
                     "  auto iter = ", map_name, "->find(", kDecodeMsgName, ".",
                     differentiator_->accessor, ");\n", "  if (iter == ", map_name,
-                    "->end()) return ", opcode_enum, "::kNone;\n",
+                    "->end()) return ", none_fcn, "(", kDecodeMsgName,
+                    ", decoder);\n",
                     "  return iter->second(", kDecodeMsgName,
                     ", decoder);\n}\n\n");
   } else {
@@ -581,8 +597,7 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
                            : std::numeric_limits<int64_t>::min();
       auto index = enc_value - min;
       if (index != i) {
-        absl::StrAppend(&output, "  Decode", ToPascalCase(inst_group_->name()),
-                        "_None,\n");
+        absl::StrAppend(&output, "  ", none_fcn, ",\n");
       } else {
         absl::StrAppend(&output, "  ", fcn_name, "_", enc_value, ",\n");
         ++iter;
@@ -591,10 +606,11 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
     // Emit the function body.
     absl::StrAppend(
         &output, "};\n\n", opcode_enum, " ", fcn_name, "(", message_type_name,
-        " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n", "  return ",
-        ToSnakeCase(fcn_name), "_table[", kDecodeMsgName, ".",
-        differentiator_->accessor, " - ",
-        differentiator_->min_value, "](", kDecodeMsgName, ", decoder);\n}\n\n");
+        " ", kDecodeMsgName, ", ", decoder_class, " *decoder) {\n",
+        "  auto value = ", kDecodeMsgName, ".", differentiator_->accessor,
+        ";\n  if (value < ", min, " || value > ", max, ") return ", none_fcn, "(",
+        kDecodeMsgName, ", decoder);\n", "  return ", ToSnakeCase(fcn_name),
+        "_table[value - ", min, "](", kDecodeMsgName, ", decoder);\n}\n\n");
   }
   return output;
 }
@@ -610,6 +626,11 @@ std::string ProtoEncodingGroup::EmitDecoders(
         enc_group->EmitDecoders(absl::StrCat(fcn_name, "_", enc_group->value()),
                                 opcode_enum, message_type_name));
   }
+  if (default_group_ != nullptr) {
+    absl::StrAppend(&output, default_group_->EmitDecoders(
+                                 absl::StrCat(fcn_name, "_default"),
+                                 opcode_enum, message_type_name));
+  }
   // Emit decoder for this group.
   absl::StrAppend(&output,
                   EmitComplexDecoder(fcn_name, opcode_enum, message_type_name));
diff --git a/mpact/sim/decoder/proto_encoding_group.h b/mpact/sim/decoder/proto_encoding_group.h
index 05f15a4..21182e0 100644
--- a/mpact/sim/decoder/proto_encoding_group.h
+++ b/mpact/sim/decoder/proto_encoding_group.h
@@ -101,6 +101,9 @@ class ProtoEncodingGroup {
   int level_;
   std::vector<ProtoInstructionEncoding*> encoding_vec_;
   std::vector<ProtoEncodingGroup*> encoding_group_vec_;
+  // The encodings without a constraint on the differentiator, which are the only
+  // ones that match when its value is none of those of the groups above.
+  ProtoEncodingGroup* default_group_ = nullptr;
   absl::btree_map<std::string, FieldInfo*> field_map_;
   // The paths of the fields and oneofs used in other constraints.
   absl::flat_hash_set<std::string> other_path_set_;
diff --git a/mpact/sim/decoder/proto_encoding_info.cc b/mpact/sim/decoder/proto_encoding_info.cc
index 1c01936..4f81207 100644
--- a/mpact/sim/decoder/proto_encoding_info.cc
+++ b/mpact/sim/decoder/proto_encoding_info.cc
@@ -214,6 +214,7 @@ StringPair ProtoEncodingInfo::GenerateDecoderClass() {
   absl::StrAppend(&h_output, "\n");
   absl::StrAppend(&cc_output,
                   "#include <functional>\n\n"
+                  "#include \"absl/base/no_destructor.h\"\n"
                   "#include \"absl/container/flat_hash_map.h\"\n\n");
   // Open namespaces.
   std::string name_space_ref = absl::StrJoin(decoder_->namespaces(), "::");
-- 
2.43.0


From 1590008a1a6d46ba43e90aef0d2621477978116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 122/135] fix: crash on two constraints on the same field of a
 proto instruction

---
 mpact/sim/decoder/proto_encoding_group.cc | 49 ++++++++++-------------
 mpact/sim/decoder/proto_encoding_group.h  |  7 +++-
 2 files changed, 27 insertions(+), 29 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index 2a99c0d..d58b648 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -367,36 +367,33 @@ void ProtoEncodingGroup::CheckEncodings() {
     std::sort(
         constraints[i].begin(), constraints[i].end(),
         [](const ProtoConstraint* lhs, const ProtoConstraint* rhs) -> bool {
-          return lhs->field_descriptor->full_name() <
-                 rhs->field_descriptor->full_name();
+          return lhs->path < rhs->path;
         });
   }
-  // Now create value value sets for each field descriptor, combining multiple
-  // constraints on the same field descriptor into a single set of values.
-  std::vector<std::vector<ProtoConstraintValueSet*>> value_sets;
+  // Now create value value sets for each field path, combining multiple
+  // constraints on the same field into a single set of values.
+  std::vector<PathValueSets> value_sets;
   value_sets.reserve(encoding_vec_.size());
   for (auto const& constraint_vec : constraints) {
-    const google::protobuf::FieldDescriptor* previous = nullptr;
     value_sets.push_back({});
     for (auto const* constraint : constraint_vec) {
-      // If it's the first occurance of a field descriptor, create a new
-      // range on this constraint.
-      ProtoConstraintValueSet* value_set = nullptr;
-      if (previous != constraint->field_descriptor) {
-        previous = constraint->field_descriptor;
-        value_set = new ProtoConstraintValueSet(constraint);
-        value_sets.back().push_back(value_set);
+      // If it's the first occurance of a field, create a new range on this
+      // constraint.
+      if (value_sets.back().empty() ||
+          (value_sets.back().back().first != constraint->path)) {
+        value_sets.back().push_back(
+            {constraint->path, new ProtoConstraintValueSet(constraint)});
         continue;
       }
-      // This is not the first occurance of a field descriptor. Intersect
-      // with the current range.
-      auto status =
-          value_set->IntersectWith(ProtoConstraintValueSet(constraint));
+      // This is not the first occurance of a field. Intersect with the current
+      // range.
+      auto status = value_sets.back().back().second->IntersectWith(
+          ProtoConstraintValueSet(constraint));
       // Check for error.
       if (!status.ok()) {
         // Clean up.
         for (auto& value_set_list : value_sets) {
-          for (auto* value_set : value_set_list) delete value_set;
+          for (auto& [unused, value_set] : value_set_list) delete value_set;
         }
         value_sets.clear();
         // Signal error.
@@ -418,26 +415,24 @@ void ProtoEncodingGroup::CheckEncodings() {
   }
   // Clean up.
   for (auto& value_set_list : value_sets) {
-    for (auto* value_set : value_set_list) delete value_set;
+    for (auto& [unused, value_set] : value_set_list) delete value_set;
   }
 }
 
 // Determine if the constraints overlap for two encodings lhs and rhs based on
 // the value sets.
 bool ProtoEncodingGroup::DoConstraintsOverlap(
-    const std::vector<ProtoConstraintValueSet*>& lhs,
-    const std::vector<ProtoConstraintValueSet*>& rhs) {
+    const PathValueSets& lhs, const PathValueSets& rhs) {
   auto iter_lhs = lhs.begin();
   auto iter_rhs = rhs.begin();
   while ((iter_lhs != lhs.end()) && (iter_rhs != rhs.end())) {
-    // The constraint value sets are sorted by field descriptor name, so if
-    // the field descriptors are different, then the constraints do not overlap.
-    if ((*iter_lhs)->field_descriptor()->full_name() !=
-        (*iter_rhs)->field_descriptor()->full_name()) {
+    // The constraint value sets are sorted by field path, so if the paths are
+    // different, then the constraints do not overlap.
+    if (iter_lhs->first != iter_rhs->first) {
       return false;
     }
-    ProtoConstraintValueSet lhs_copy(**(iter_lhs));
-    auto status = lhs_copy.IntersectWith(**(iter_rhs));
+    ProtoConstraintValueSet lhs_copy(*iter_lhs->second);
+    auto status = lhs_copy.IntersectWith(*iter_rhs->second);
     // If there is an error taking the intersection, return true to signify
     // an overlap, even if there isn't one.
     if (!status.ok()) return true;
diff --git a/mpact/sim/decoder/proto_encoding_group.h b/mpact/sim/decoder/proto_encoding_group.h
index 21182e0..a24ac33 100644
--- a/mpact/sim/decoder/proto_encoding_group.h
+++ b/mpact/sim/decoder/proto_encoding_group.h
@@ -17,6 +17,7 @@
 
 #include <cstdint>
 #include <string>
+#include <utility>
 #include <vector>
 
 #include "absl/container/btree_map.h"
@@ -81,8 +82,10 @@ class ProtoEncodingGroup {
   // there are no encoding ambiguities, such as multiple opcodes with the same
   // encoding, etc.
   void CheckEncodings();
-  bool DoConstraintsOverlap(const std::vector<ProtoConstraintValueSet*>& lhs,
-                            const std::vector<ProtoConstraintValueSet*>& rhs);
+  // Vector of the paths of fields and the sets of values they may have.
+  using PathValueSets =
+      std::vector<std::pair<std::string, ProtoConstraintValueSet*>>;
+  bool DoConstraintsOverlap(const PathValueSets& lhs, const PathValueSets& rhs);
   // Create C++ code for leaf (encoding group) instruction decoder.
   std::string EmitLeafDecoder(absl::string_view fcn_name,
                               absl::string_view opcode_enum,
-- 
2.43.0


From 5561f8efe2a24130badf8b7cc2450288c88db581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 123/135] fix: intersection of proto value sets keeps empty
 interval

---
 mpact/sim/decoder/proto_constraint_value_set.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index 27e1910..b231986 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -249,7 +249,7 @@ ProtoConstraintValueSet::SubRange ProtoConstraintValueSet::IntersectSubrange(
   }
   // Check for a null set if max == min, but either endpoint is not included.
   if ((min_value == max_value) &&
-      !(subrange.max_included && lhs_subrange.min_included)) {
+      !(subrange.max_included && subrange.min_included)) {
     delete subrange.min;
     delete subrange.max;
     return {nullptr, false, nullptr, false};
-- 
2.43.0


From 81f83cf5affabed459a7b3a202ce62ee1cde7416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 124/135] fix: uint32 proto setter takes fields of any type

---
 mpact/sim/decoder/proto_encoding_info.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_encoding_info.cc b/mpact/sim/decoder/proto_encoding_info.cc
index 4f81207..7b537c1 100644
--- a/mpact/sim/decoder/proto_encoding_info.cc
+++ b/mpact/sim/decoder/proto_encoding_info.cc
@@ -125,7 +125,7 @@ absl::Status ProtoEncodingInfo::CheckSetterType(
         return absl::OkStatus();
       }
       if ((cpp_type == google::protobuf::FieldDescriptor::CPPTYPE_INT32) ||
-          (iter->second = google::protobuf::FieldDescriptor::CPPTYPE_INT64)) {
+          (cpp_type == google::protobuf::FieldDescriptor::CPPTYPE_INT64)) {
         iter->second = google::protobuf::FieldDescriptor::CPPTYPE_INT64;
         return absl::OkStatus();
       }
-- 
2.43.0


From 6004663ce688d0d7037fb8d18c05fda1ab3d40e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:12 +0000
Subject: [PATCH 125/135] fix: crash on unknown fields and HAS of non-oneof
 fields in proto constraints

---
 mpact/sim/decoder/proto_constraint_value_set.cc | 3 ++-
 mpact/sim/decoder/proto_format_visitor.cc       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/proto_constraint_value_set.cc b/mpact/sim/decoder/proto_constraint_value_set.cc
index b231986..aa3c53e 100644
--- a/mpact/sim/decoder/proto_constraint_value_set.cc
+++ b/mpact/sim/decoder/proto_constraint_value_set.cc
@@ -140,7 +140,8 @@ ProtoConstraintValueSet::ProtoConstraintValueSet(
       int32_t value = -1;
       auto* field = constraint->field_descriptor;
       auto* one_of = constraint->field_descriptor->containing_oneof();
-      for (int32_t i = 0; i < one_of->field_count(); ++i) {
+      // The field need not be a member of a oneof.
+      for (int32_t i = 0; one_of != nullptr && i < one_of->field_count(); ++i) {
         if (one_of->field(i)->name() == field->name()) {
           value = i;
           break;
diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index a2dbce5..82ef93b 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -261,6 +261,7 @@ const google::protobuf::FieldDescriptor* ProtoFormatVisitor::GetField(
   // If this is a "leaf" field, find it and return if found.
   if (pos == std::string::npos) {
     auto* field_desc = message_type->FindFieldByName(field_name);
+    if (field_desc == nullptr) return nullptr;
     if (field_desc->containing_oneof() != nullptr) {
       one_of_fields.push_back(field_desc);
     }
@@ -548,7 +549,7 @@ void ProtoFormatVisitor::VisitFieldConstraint(
     // If the last field in one_of_fields is the field with the kHas constraint
     // remove that field from the vector, as it will be handled in the
     // constraint.
-    if (field_desc == one_of_fields.back()) {
+    if (!one_of_fields.empty() && (field_desc == one_of_fields.back())) {
       one_of_fields.pop_back();
     }
     status = inst_encoding->AddConstraint(ctx, ConstraintType::kHas, field_desc,
-- 
2.43.0


From 165d69dae716ac28aa624c9383d0ea1ea61cf8ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 126/135] fix: proto constraint values do not have the type of
 their field

---
 mpact/sim/decoder/proto_format_visitor.cc | 69 +++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 82ef93b..edcc67d 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -22,6 +22,7 @@
 #include <functional>
 #include <iostream>
 #include <istream>
+#include <limits>
 #include <memory>
 #include <string>
 #include <string_view>
@@ -30,6 +31,7 @@
 #include "absl/container/flat_hash_set.h"
 #include "absl/functional/bind_front.h"
 #include "absl/log/log.h"
+#include "absl/numeric/int128.h"
 #include "absl/status/status.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
@@ -61,6 +63,60 @@ std::string StripQuotes(const std::string& str) {
   return str.substr(1, str.length() - 2);
 }
 
+// Returns a new value expression of the given type, or nullptr if the value is
+// out of range.
+template <typename T>
+ProtoConstraintExpression* NewValue(absl::int128 value) {
+  if ((value < std::numeric_limits<T>::min()) ||
+      (value > std::numeric_limits<T>::max())) {
+    return nullptr;
+  }
+  return new ProtoConstraintValueExpression(static_cast<T>(value));
+}
+
+// Returns a new expression with the value of expr in the type of the field, or
+// nullptr if it is not a value of that type.
+ProtoConstraintExpression* ConvertToFieldType(
+    const ProtoConstraintExpression* expr,
+    const google::protobuf::FieldDescriptor* field_desc) {
+  using google::protobuf::FieldDescriptor;
+  const auto cpp_type = field_desc->cpp_type();
+  absl::int128 value = 0;
+  switch (expr->variant_type()) {
+    case *ProtoValueIndex::kInt32:
+      value = expr->GetValueAs<int32_t>();
+      break;
+    case *ProtoValueIndex::kInt64:
+      value = expr->GetValueAs<int64_t>();
+      break;
+    case *ProtoValueIndex::kUint32:
+      value = expr->GetValueAs<uint32_t>();
+      break;
+    case *ProtoValueIndex::kUint64:
+      value = expr->GetValueAs<uint64_t>();
+      break;
+    default:
+      return expr->cpp_type() == cpp_type ? expr->Clone() : nullptr;
+  }
+  switch (cpp_type) {
+    case FieldDescriptor::CPPTYPE_INT32:
+    case FieldDescriptor::CPPTYPE_ENUM:
+      return NewValue<int32_t>(value);
+    case FieldDescriptor::CPPTYPE_INT64:
+      return NewValue<int64_t>(value);
+    case FieldDescriptor::CPPTYPE_UINT32:
+      return NewValue<uint32_t>(value);
+    case FieldDescriptor::CPPTYPE_UINT64:
+      return NewValue<uint64_t>(value);
+    case FieldDescriptor::CPPTYPE_FLOAT:
+      return new ProtoConstraintValueExpression(static_cast<float>(value));
+    case FieldDescriptor::CPPTYPE_DOUBLE:
+      return new ProtoConstraintValueExpression(static_cast<double>(value));
+    default:
+      return nullptr;
+  }
+}
+
 }  // namespace
 
 // Error collector for .proto file parsing.
@@ -572,6 +628,8 @@ void ProtoFormatVisitor::VisitFieldConstraint(
 
     auto* constraint_expr = VisitConstraintExpression(ctx->constraint_expr(),
                                                       field_desc, inst_group);
+    // The error has been reported already.
+    if (constraint_expr == nullptr) return;
 
     // Add the constraint according to the type.
     if (op == "==") {
@@ -606,6 +664,17 @@ ProtoConstraintExpression* ProtoFormatVisitor::VisitConstraintExpression(
   ProtoConstraintExpression* constraint_expr = nullptr;
   if (ctx->value() != nullptr) {
     constraint_expr = VisitValue(ctx->value());
+    if (constraint_expr == nullptr) return nullptr;
+    // The value has to have the type of the field.
+    auto* converted = ConvertToFieldType(constraint_expr, field_desc);
+    delete constraint_expr;
+    if (converted == nullptr) {
+      error_listener()->semanticError(
+          ctx->start,
+          absl::StrCat("Value '", ctx->getText(), "' is not a value of field '",
+                       field_desc->name(), "'"));
+    }
+    return converted;
   } else if (ctx->qualified_ident() != nullptr) {
     constraint_expr =
         VisitQualifiedIdent(ctx->qualified_ident(), field_desc, inst_group);
-- 
2.43.0


From 62bbb5b8d5c30fdb725133bbfc249421f961eb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 127/135] fix: proto constraint numbers with suffix or
 separator are refused

---
 mpact/sim/decoder/proto_format_visitor.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index edcc67d..511a671 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -36,6 +36,7 @@
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
+#include "absl/strings/str_replace.h"
 #include "absl/strings/string_view.h"
 #include "antlr4-runtime/ParserRuleContext.h"
 #include "mpact/sim/decoder/decoder_error_listener.h"
@@ -708,6 +709,8 @@ ProtoConstraintExpression* ProtoFormatVisitor::VisitNumber(NumberCtx* ctx) {
   bool is_long_long = absl::StrContains(num_str, "ll");
   bool is_long = !is_long_long && absl::StrContains(num_str, "l");
   bool is_hex = num_str.substr(0, 2) == "0x";
+  // The conversion functions accept neither suffix nor digit separators.
+  num_str = absl::StrReplaceAll(num_str, {{"u", ""}, {"l", ""}, {"'", ""}});
   // If neither 'l' nor 'll' is specified, try using the 32 bit wide integer if
   // the value fits, otherwise use 64 bit.
   if (is_signed) {  // Either int32 or int64
-- 
2.43.0


From e07d1ba0c2046556d5f0e1bdc248ba3c1bb6081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 128/135] fix: declarations in files included by proto_fmt
 files are ignored

---
 mpact/sim/decoder/proto_format_visitor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 511a671..7041406 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -494,7 +494,7 @@ void ProtoFormatVisitor::ParseIncludeFile(
   }
   include_file_stack_.emplace_back(file_name);
   // Process the declarations.
-  PreProcessDeclarations(include_parser->parser()->top_level()->declaration());
+  PreProcessDeclarations(declaration_vec);
   include_file_stack_.pop_back();
 }
 
-- 
2.43.0


From c2eaa1e43b2b36529d505eef26f9956822e2dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:30 +0000
Subject: [PATCH 129/135] fix: proto parent groups do not find message types in
 packages

---
 mpact/sim/decoder/proto_format_visitor.cc | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 7041406..9d06046 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -1184,7 +1184,7 @@ void ProtoFormatVisitor::ProcessParentGroup(
     return;
   }
   std::vector<ProtoInstructionGroup*> child_groups;
-  std::string group_format_name;
+  const google::protobuf::Descriptor* group_format = nullptr;
   // Iterate through the list of named "child" groups to combine.
   for (auto* ident : attr_ctx->group_name()->ident_list()->IDENT()) {
     auto child_name = ident->getText();
@@ -1234,15 +1234,15 @@ void ProtoFormatVisitor::ProcessParentGroup(
     }
     // If this is the first child group, get the proto message type name.
     if (child_groups.empty()) {
-      group_format_name = child_group->message_type()->name();
+      group_format = child_group->message_type();
     }
     // Check that the child groups all use the same proto message type
     // name.
-    if (group_format_name != child_group->message_type()->name()) {
+    if (group_format != child_group->message_type()) {
       error_listener_->semanticError(
           attr_ctx->start,
           absl::StrCat("Instruction group '", child_name, "' must use format '",
-                       group_format_name, ", to be merged into group '",
+                       group_format->full_name(), "', to be merged into group '",
                        group_name, "'"));
       // Clean up.
       for (auto* child_group : child_groups) delete child_group;
@@ -1258,17 +1258,6 @@ void ProtoFormatVisitor::ProcessParentGroup(
     return;
   }
   // Create the "parent" instruction group.
-  const google::protobuf::Descriptor* group_format =
-      message_finder_(Expand(group_format_name));
-  if (group_format == nullptr) {
-    error_listener_->semanticError(
-        attr_ctx->start,
-        absl::StrCat("Could not find proto message type '", group_format_name,
-                     "' in proto descriptor pool"));
-    // Clean up.
-    for (auto* child_group : child_groups) delete child_group;
-    return;
-  }
   auto res = encoding_info->AddInstructionGroup(group_name, group_format);
   if (!res.ok()) {
     error_listener_->semanticError(attr_ctx->start, res.status().message());
-- 
2.43.0


From a4dad6c9bffab5c4068255018761451a6457c817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 130/135] fix: proto child groups are used after they are
 deleted

---
 mpact/sim/decoder/proto_format_visitor.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 9d06046..8367637 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -1193,6 +1193,8 @@ void ProtoFormatVisitor::ProcessParentGroup(
       error_listener_->semanticError(
           attr_ctx->start, absl::StrCat("Instruction group listed twice: '",
                                         child_name, "' - ignored"));
+      // Clean up.
+      for (auto* child_group : child_groups) delete child_group;
       return;
     }
     ProtoInstructionGroup* child_group = nullptr;
@@ -1229,7 +1231,7 @@ void ProtoFormatVisitor::ProcessParentGroup(
             absl::StrCat("Instruction group '", child_name, "' not found"));
         // Clean up.
         for (auto* child_group : child_groups) delete child_group;
-        continue;
+        return;
       }
     }
     // If this is the first child group, get the proto message type name.
@@ -1249,6 +1251,8 @@ void ProtoFormatVisitor::ProcessParentGroup(
       return;
     }
     child_groups.push_back(child_group);
+    // The child group is deleted below, so it cannot be used again.
+    group_name_set.insert(child_name);
   }
 
   if (child_groups.empty()) {
-- 
2.43.0


From 5c3834f0e0963b65841a6a94387ed718fcc7c2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:08 +0000
Subject: [PATCH 131/135] fix: setters in emitted proto decoders do not compile

---
 .../sim/decoder/proto_instruction_encoding.cc | 103 ++++--------------
 1 file changed, 22 insertions(+), 81 deletions(-)

diff --git a/mpact/sim/decoder/proto_instruction_encoding.cc b/mpact/sim/decoder/proto_instruction_encoding.cc
index 1c87387..9c8c759 100644
--- a/mpact/sim/decoder/proto_instruction_encoding.cc
+++ b/mpact/sim/decoder/proto_instruction_encoding.cc
@@ -268,8 +268,7 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   const int kIndent = 0;
   if (setter_map_.empty()) return;
   absl::StrAppend(&setter_code_, "/* setters for ", name(), " */\n");
-  // First need to group setters by dependencies on fields, split into setters
-  // with if_not and those without (except for those with no depends_on.).
+  // First need to group setters by dependencies on fields.
   // Also need to group constraints by their dependencies. Use multimap that
   // maps from a constraint to those that depend on it.
   absl::btree_multimap<const ProtoConstraint*, const ProtoConstraint*>
@@ -280,22 +279,20 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   // This set contains the top level constraints that do not depend on any
   // other constraints, and thus are the beginning of the 'dependence chains'.
   absl::flat_hash_set<const ProtoConstraint*> constraint_tops;
-  // These multimaps map from a constraint to the set of setters dependent on
+  // This multimap maps from a constraint to the set of setters dependent on
   // that constraint.
   absl::btree_multimap<const ProtoConstraint*, const ProtoSetter*>
       grouped_setters;
-  absl::btree_multimap<const ProtoConstraint*, const ProtoSetter*>
-      grouped_if_not_setters;
 
   // Lambda used to determine if a constraint is already satisfied by
   // an identical constraint used in the decoding of the instruction.
   auto is_in_eq_constraints = [&](const ProtoConstraint* constraint) {
-    auto* field_descriptor = constraint->field_descriptor;
+    auto& path = constraint->path;
     auto iter = std::find_if(
         equal_constraints_.begin(), equal_constraints_.end(),
-        [&field_descriptor](const ProtoConstraint* constraint) {
+        [&path](const ProtoConstraint* constraint) {
           return (constraint->op == ConstraintType::kHas) &&
-                 (constraint->field_descriptor == field_descriptor);
+                 (constraint->path == path);
         });
     return (iter != equal_constraints_.end());
   };
@@ -310,19 +307,15 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
     // tested for again.
     if (depends != nullptr && is_in_eq_constraints(depends)) depends = nullptr;
 
+    // A setter with an if_not clause always sets a value, as it checks that
+    // the field is present itself.
+    if (setter_ptr->if_not != nullptr) depends = nullptr;
+
     // Group the setter in a multimap that maps from a constraint to a
-    // dependent constraint. There are two sets, depending on whether the setter
-    // has an if_not clause or not. Setters with null dependency are inserted in
-    // the regular group regardless of if_not value.
-    if (depends != nullptr && setter_ptr->if_not != nullptr) {
-      grouped_if_not_setters.emplace(depends, setter_ptr);
-    } else {
-      grouped_setters.emplace(depends, setter_ptr);
-    }
-    // If there is no one_of dependency, or the setter has an if_not,
-    // go to the next setter.
+    // dependent constraint.
+    grouped_setters.emplace(depends, setter_ptr);
+    // If there is no one_of dependency, go to the next setter.
     if (depends == nullptr) continue;
-    if (setter_ptr->if_not != nullptr) continue;
 
     // Add dependency 'links' to the grouped_constraints map, that map
     // from a constraint to the constraints that depend on it.
@@ -346,13 +339,13 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   // This generates the assignment.
   auto assign = [&](int indent, const ProtoSetter* setter) {
     absl::StrAppend(&setter_code_, std::string(indent, ' '), "decoder->Set",
-                    ToPascalCase(setter->name), "($.");
+                    ToPascalCase(setter->name), "(");
     auto field_name = setter->ctx->qualified_ident()->getText();
     // Need to convert from a.b.c to a().b().c().
     auto call =
         absl::StrCat(absl::StrReplaceAll(field_name, {{".", "()."}}), "()");
     if (setter->if_not == nullptr) {
-      absl::StrAppend(&setter_code_, call, "); // ",
+      absl::StrAppend(&setter_code_, "$.", call, "); // ",
                       setter->field_descriptor->full_name(), "\n");
     } else {
       auto pos = call.find_last_of('.');
@@ -366,7 +359,7 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
       std::string txt = setter->if_not->value() != nullptr
                             ? setter->if_not->value()->getText()
                             : setter->if_not->qualified_ident()->getText();
-      absl::StrAppend(&setter_code_, name, " ? $.", call, " : ", txt, ");\n");
+      absl::StrAppend(&setter_code_, "$.", name, " ? $.", call, " : ", txt, ");\n");
     }
   };
 
@@ -378,16 +371,13 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   // setters.
   auto generate_if_statement = [&](int indent,
                                    const ProtoConstraint* constraint) {
-    auto* desc = constraint->field_descriptor;
-    auto* oneof = desc->containing_oneof();
-    absl::StrAppend(&setter_code_, std::string(indent, ' '), "if ($.");
-    if (oneof != nullptr) {
-      absl::StrAppend(&setter_code_, oneof->name(),
-                      "_case() == ", ToPascalCase(oneof->name()), "Case::k",
-                      ToPascalCase(desc->name()), ") {\n");
-    } else {
-      absl::StrAppend(&setter_code_, "has_", desc->name(), ") {\n");
-    }
+    // Convert a.b.c to a().b().has_c().
+    std::string call = absl::StrReplaceAll(constraint->path, {{".", "()."}});
+    auto pos = call.find_last_of('.');
+    pos = pos == std::string::npos ? 0 : pos + 1;
+    call.insert(pos, "has_");
+    absl::StrAppend(&setter_code_, std::string(indent, ' '), "if ($.", call,
+                    "()) {\n");
   };
 
   // Recursive lambda for generating nested if statements around groups of
@@ -418,55 +408,6 @@ void ProtoInstructionEncoding::GenerateSetterCode() {
   for (auto* constraint : constraint_tops) {
     generate_nested_ifs(kIndent, constraint);
   }
-
-  // Recursive lambda for generating the conditions of the if statements used
-  // by setters with 'if_not' constructs.
-  std::function<void(const ProtoConstraint*, std::string&)>
-      recursive_if_conditions =
-          [&](const ProtoConstraint* constraint, std::string& if_conditions) {
-            auto* desc = constraint->field_descriptor;
-            auto* depends_on = constraint->depends_on;
-            std::string sep = "";
-            // Generate the conditions in reverse order of the depends_on list.
-            if (depends_on != nullptr) {
-              recursive_if_conditions(depends_on, if_conditions);
-              if (!if_conditions.empty()) sep = " && ";
-            }
-            auto* oneof = desc->containing_oneof();
-            std::string ident = constraint->ctx->qualified_ident()->getText();
-            auto pos = ident.find_last_of('.');
-            std::string prefix;
-            if (pos != std::string::npos) {
-              prefix = ident.substr(0, pos + 1);
-            }
-            if (!prefix.empty()) {
-              // Convert a.b.c to a().b().c().
-              prefix = absl::StrReplaceAll(prefix, {{".", "()."}});
-            }
-            if (oneof != nullptr) {
-              absl::StrAppend(&if_conditions, sep, "($.", prefix, oneof->name(),
-                              "_case() == k", ToPascalCase(desc->name()), ")");
-            } else {
-              absl::StrAppend(&if_conditions, sep, "($.", prefix, "has_",
-                              desc->name(), ")");
-            }
-          };
-
-  // Process the setters with dependencies and if_not's.
-  for (auto iter = grouped_if_not_setters.begin();
-       iter != grouped_if_not_setters.end();
-       /*empty increment expression - it's done inside nested loop below*/) {
-    std::string if_conditions;
-    recursive_if_conditions(iter->first, if_conditions);
-    absl::StrAppend(&setter_code_, std::string(kIndent, ' '), "if (",
-                    if_conditions, ") {\n");
-    auto count = grouped_if_not_setters.count(iter->first);
-    for (auto i = 0; i < count; ++i) {
-      assign(kIndent + 2, iter->second);
-      ++iter;
-    }
-    absl::StrAppend(&setter_code_, std::string(kIndent, ' '), "}\n");
-  }
 }
 
 std::string ProtoInstructionEncoding::GetSetterCode(
-- 
2.43.0


From 17e179937a10d3dd191e1a58dbb1c8f0fb9d66c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:08:10 +0000
Subject: [PATCH 132/135] fix: ProtoFormatVisitor leaks the parsers of included
 files

---
 mpact/sim/decoder/proto_format_visitor.cc | 7 +++++++
 mpact/sim/decoder/proto_format_visitor.h  | 2 +-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 8367637..0174cf0 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -141,6 +141,13 @@ class MultiFileErrorCollector
   std::string error_;
 };
 
+ProtoFormatVisitor::~ProtoFormatVisitor() {
+  for (auto* wrapper : antlr_parser_wrappers_) {
+    delete wrapper;
+  }
+  antlr_parser_wrappers_.clear();
+}
+
 // Main public method. This is called to parse a descriptor file and generate
 // C++ code to decode protobuf encoded instructions.
 // Parameters:
diff --git a/mpact/sim/decoder/proto_format_visitor.h b/mpact/sim/decoder/proto_format_visitor.h
index c57730d..a306bc1 100644
--- a/mpact/sim/decoder/proto_format_visitor.h
+++ b/mpact/sim/decoder/proto_format_visitor.h
@@ -59,7 +59,7 @@ using ProtoFmtAntlrParserWrapper =
 class ProtoFormatVisitor {
  public:
   ProtoFormatVisitor() = default;
-  ~ProtoFormatVisitor() = default;
+  ~ProtoFormatVisitor();
 
   // This is the main function. It parses the .proto_fmt file and generates
   // the required C++ code.
-- 
2.43.0


From c45776d627ebefc09b9f7556f2b8e566a76e5a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:54 +0000
Subject: [PATCH 133/135] fix: emitted proto decoders for negative values do
 not compile

---
 mpact/sim/decoder/proto_encoding_group.cc | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index d58b648..e89d9f9 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -532,6 +532,12 @@ bool LessThan(ProtoEncodingGroup* lhs, ProtoEncodingGroup* rhs) {
   return lhs->value() < rhs->value();
 }
 
+// The name of the decoder function for the given value, which may be negative.
+std::string ValueFunctionName(absl::string_view fcn_name, int64_t value) {
+  if (value >= 0) return absl::StrCat(fcn_name, "_", value);
+  return absl::StrCat(fcn_name, "_m", ~static_cast<uint64_t>(value) + 1);
+}
+
 }  // namespace
 
 std::string ProtoEncodingGroup::EmitComplexDecoder(
@@ -564,8 +570,8 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
         map_name, "({\n");
     for (auto* enc_group : encoding_group_vec_) {
       auto enc_value = enc_group->value();
-      absl::StrAppend(&output, "  {", enc_value, ", ", fcn_name, "_", enc_value,
-                      "},\n");
+      absl::StrAppend(&output, "  {", enc_value, ", ",
+                      ValueFunctionName(fcn_name, enc_value), "},\n");
     }
     absl::StrAppend(&output, "});\n\n");
     // Emit the function body.
@@ -594,7 +600,8 @@ std::string ProtoEncodingGroup::EmitComplexDecoder(
       if (index != i) {
         absl::StrAppend(&output, "  ", none_fcn, ",\n");
       } else {
-        absl::StrAppend(&output, "  ", fcn_name, "_", enc_value, ",\n");
+        absl::StrAppend(&output, "  ", ValueFunctionName(fcn_name, enc_value),
+                        ",\n");
         ++iter;
       }
     }
@@ -618,7 +625,7 @@ std::string ProtoEncodingGroup::EmitDecoders(
   for (auto* enc_group : encoding_group_vec_) {
     absl::StrAppend(
         &output,
-        enc_group->EmitDecoders(absl::StrCat(fcn_name, "_", enc_group->value()),
+        enc_group->EmitDecoders(ValueFunctionName(fcn_name, enc_group->value()),
                                 opcode_enum, message_type_name));
   }
   if (default_group_ != nullptr) {
-- 
2.43.0


From 89fab28e5ee5a1513a0194a9ebf4d3cbeac0077e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:30 +0000
Subject: [PATCH 134/135] fix: proto encoding ambiguities are missed in oneof
 members

---
 mpact/sim/decoder/proto_encoding_group.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/decoder/proto_encoding_group.cc b/mpact/sim/decoder/proto_encoding_group.cc
index e89d9f9..98f9902 100644
--- a/mpact/sim/decoder/proto_encoding_group.cc
+++ b/mpact/sim/decoder/proto_encoding_group.cc
@@ -113,6 +113,13 @@ static std::string GetOneofPath(const ProtoConstraint* constraint) {
   return absl::StrCat(constraint->path.substr(0, pos + 1), oneof->name());
 }
 
+// Returns the path that identifies the value set of the constraint. A field may
+// be both compared and required to be present, those value sets are different.
+static std::string GetValueSetPath(const ProtoConstraint* constraint) {
+  if (constraint->op != ConstraintType::kHas) return constraint->path;
+  return absl::StrCat("HAS(", constraint->path, ")");
+}
+
 // Returns the text of the value that the field is compared with.
 static std::string GetValueText(const ProtoConstraint* constraint) {
   auto const* expr = constraint->expr;
@@ -367,7 +374,7 @@ void ProtoEncodingGroup::CheckEncodings() {
     std::sort(
         constraints[i].begin(), constraints[i].end(),
         [](const ProtoConstraint* lhs, const ProtoConstraint* rhs) -> bool {
-          return lhs->path < rhs->path;
+          return GetValueSetPath(lhs) < GetValueSetPath(rhs);
         });
   }
   // Now create value value sets for each field path, combining multiple
@@ -377,12 +384,13 @@ void ProtoEncodingGroup::CheckEncodings() {
   for (auto const& constraint_vec : constraints) {
     value_sets.push_back({});
     for (auto const* constraint : constraint_vec) {
+      std::string path = GetValueSetPath(constraint);
       // If it's the first occurance of a field, create a new range on this
       // constraint.
       if (value_sets.back().empty() ||
-          (value_sets.back().back().first != constraint->path)) {
+          (value_sets.back().back().first != path)) {
         value_sets.back().push_back(
-            {constraint->path, new ProtoConstraintValueSet(constraint)});
+            {path, new ProtoConstraintValueSet(constraint)});
         continue;
       }
       // This is not the first occurance of a field. Intersect with the current
-- 
2.43.0


From cbdd7eaa1726b136beb86afc19c8592cd8f8af5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:23 +0000
Subject: [PATCH 135/135] fix: redefinition of proto aliases is not noticed

---
 mpact/sim/decoder/proto_format_visitor.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/decoder/proto_format_visitor.cc b/mpact/sim/decoder/proto_format_visitor.cc
index 0174cf0..ca00bd3 100644
--- a/mpact/sim/decoder/proto_format_visitor.cc
+++ b/mpact/sim/decoder/proto_format_visitor.cc
@@ -411,9 +411,9 @@ void ProtoFormatVisitor::PreProcessDeclarations(
           alias = name;
         }
       }
-      if (using_decl_map_.find(name) != using_decl_map_.end()) {
+      if (using_decl_map_.find(alias) != using_decl_map_.end()) {
         error_listener()->semanticError(
-            declaration->start, absl::StrCat("Redefinition of '", name, "'"));
+            declaration->start, absl::StrCat("Redefinition of '", alias, "'"));
       }
       using_decl_map_.emplace(alias, name);
       continue;
-- 
2.43.0

