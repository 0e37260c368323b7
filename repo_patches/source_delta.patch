From 920d672305bd91a01f09d69271274352b4f1c043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:47 +0000
Subject: [PATCH 01/51] fix: ConcatenateNode records the element's own old
 value in its diff

---
 dwave/optimization/src/nodes/manipulation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index b6584dc..7c3413a 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -160,7 +160,7 @@ void ConcatenateNode::propagate(State& state) const {
             auto update_it = view_it + diff.index;
             ssize_t buffer_index = &*update_it - ptr->buffer.data();
             assert(*update_it == diff.old);
-            ptr->updates.emplace_back(buffer_index, *view_it, diff.value);
+            ptr->updates.emplace_back(buffer_index, *update_it, diff.value);
             *update_it = diff.value;
         }
     }
-- 
2.43.0


From 96c7b03b6de64c4b7f3797dfdd492a8a52e703e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 02/51] fix: SquareNode's min()/max() account for ranges that
 reach below zero

---
 dwave/optimization/src/nodes/mathematical.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index de0a08d..87a1035 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1797,13 +1797,13 @@ double UnaryOpNode<std::negate<double>>::max() const {
 }
 template <>
 double UnaryOpNode<functional::square<double>>::max() const {
-    const double max = array_ptr_->max();
-    if (std::abs(max) >= std::sqrt(Array::max())) {
+    const double magnitude = std::max(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
+    if (magnitude >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
     }
-    return max * max;
+    return magnitude * magnitude;
 }
 
 template <>
@@ -1847,12 +1847,16 @@ double UnaryOpNode<std::negate<double>>::min() const {
 template <>
 double UnaryOpNode<functional::square<double>>::min() const {
     const double min = array_ptr_->min();
-    if (std::abs(min) >= std::sqrt(Array::max())) {
+    const double max = array_ptr_->max();
+    // if the range includes zero then so does the range of the squares
+    if (min <= 0 && 0 <= max) return 0;
+    const double magnitude = std::min(std::abs(min), std::abs(max));
+    if (magnitude >= std::sqrt(Array::max())) {
         // We could consider raising an error here but for now let's be
         // permissive.
         return Array::max();
     }
-    return min * min;
+    return magnitude * magnitude;
 }
 template <>
 double UnaryOpNode<functional::square_root<double>>::min() const {
-- 
2.43.0


From 35491cadc06e2569997b03fc68f7a6afa7cfee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 03/51] fix: BinaryOpNode handles dynamic operands whose
 current size is 1

---
 dwave/optimization/src/nodes/mathematical.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 87a1035..fcb38eb 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -81,7 +81,7 @@ void BinaryOpNode<BinaryOp>::initialize_state(State& state) const {
     auto func = op();
     std::vector<double> values;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // This is the easy case - all we need to do is iterate over both as flat arrays
         values.reserve(lhs_ptr->size(state));
 
@@ -267,7 +267,7 @@ void BinaryOpNode<BinaryOp>::propagate(State& state) const {
     auto& values = ptr->buffer;
     auto& changes = ptr->updates;
 
-    if (std::ranges::equal(lhs_ptr->shape(state), rhs_ptr->shape(state))) {
+    if (std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
         // The easy case, just go through both predecessors making updates.
         if (lhs_ptr->diff(state).size() && rhs_ptr->diff(state).size()) {
             // Both modified
@@ -366,12 +366,11 @@ template <class BinaryOp>
 std::span<const ssize_t> BinaryOpNode<BinaryOp>::shape(const State& state) const {
     if (!this->dynamic()) return this->shape();
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || operands_[1]->size(state) == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? operands_[1]->shape(state) : operands_[0]->shape(state);
+    // exactly one of the operands is dynamic, and it determines our shape
+    return operands_[0]->dynamic() ? operands_[0]->shape(state) : operands_[1]->shape(state);
 }
 
 template <class BinaryOp>
@@ -380,13 +379,11 @@ ssize_t BinaryOpNode<BinaryOp>::size(const State& state) const {
         return size;
     }
 
-    const ssize_t lhs_size = operands_[0]->size(state);
-    const ssize_t rhs_size = operands_[1]->size(state);
-
     // we don't (yet) support other cases
-    assert(lhs_size == 1 || rhs_size == 1);
+    assert(operands_[0]->size() == 1 || operands_[1]->size() == 1);
 
-    return (lhs_size == 1) ? rhs_size : lhs_size;
+    // exactly one of the operands is dynamic, and it determines our size
+    return operands_[0]->dynamic() ? operands_[0]->size(state) : operands_[1]->size(state);
 }
 
 template <class BinaryOp>
-- 
2.43.0


From 0677c29e94fcc48cf65b633ddaa3188bb4964cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:44 +0000
Subject: [PATCH 04/51] fix: refused n-ary and concatenate constructions leave
 no dangling successors

---
 dwave/optimization/src/nodes/manipulation.cpp | 3 +++
 dwave/optimization/src/nodes/mathematical.cpp | 8 ++++++++
 2 files changed, 11 insertions(+)

diff --git a/dwave/optimization/src/nodes/manipulation.cpp b/dwave/optimization/src/nodes/manipulation.cpp
index 7c3413a..ec356ac 100644
--- a/dwave/optimization/src/nodes/manipulation.cpp
+++ b/dwave/optimization/src/nodes/manipulation.cpp
@@ -40,12 +40,15 @@ ConcatenateNode::ConcatenateNode(std::span<ArrayNode*> array_ptrs, const ssize_t
         array_starts_.emplace_back(prod + array_starts_[arr_i - 1]);
     }
 
+    // check everything before adding ourselves as a successor of anything
     for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         if ((*it)->dynamic()) {
             throw std::invalid_argument(
                 "concatenate input arrays cannot be dynamic");
         }
+    }
 
+    for (auto it = array_ptrs.begin(), stop = array_ptrs.end(); it != stop; ++it) {
         this->add_predecessor((*it));
     }
 }
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index fcb38eb..7154191 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -491,6 +491,14 @@ ArrayNode* nonempty(std::span<ArrayNode*> node_ptrs) {
 template <class BinaryOp>
 NaryOpNode<BinaryOp>::NaryOpNode(std::span<ArrayNode*> node_ptrs)
         : ArrayOutputMixin(nonempty(node_ptrs)->shape()) {
+    // check everything before adding ourselves as a successor of anything
+    for (const ArrayNode* ptr : node_ptrs) {
+        if (ptr->dynamic()) throw std::invalid_argument("arrays must not be dynamic");
+        if (!std::ranges::equal(this->shape(), ptr->shape())) {
+            throw std::invalid_argument("arrays must all be the same shape");
+        }
+    }
+
     for (ArrayNode* ptr : node_ptrs) {
         add_node(ptr);
     }
-- 
2.43.0


From a25b215e224e96ad85adffdd6e3fc8726486ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 05/51] fix: PermutationNode propagates arrays with any number
 of dimensions and checks its order's range

---
 dwave/optimization/src/nodes/indexing.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 36f4615..049797c 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1627,7 +1627,7 @@ PermutationNode::PermutationNode(ArrayNode* array_ptr, ArrayNode* order_ptr)
     if (array_shape[0] != order_ptr_->size()) {
         throw std::invalid_argument("array shape and order size mismatch");
     }
-    if (order_ptr_->max() > array_ptr_->size()) {
+    if (order_ptr_->size() && (order_ptr_->min() < 0 || order_ptr_->max() >= array_shape[0])) {
         throw std::invalid_argument("order may have values out of range");
     }
 
@@ -1658,7 +1658,7 @@ void PermutationNode::initialize_state(State& state) const {
 
     // first work out all of the offsets in the array
     std::vector<ssize_t> offsets;
-    {
+    if (n) {
         assert(this->size() >= 0);
         offsets.reserve(this->size());
 
@@ -1715,14 +1715,17 @@ void PermutationNode::propagate(State& state) const {
         const std::span<const ssize_t> strides = array_ptr_->strides();
         const double* start = array_ptr_->buff(state);
 
-        ssize_t mul = std::pow(n, ndim - 1);
-        ssize_t step = 1;
+        ssize_t size = this->size();
+        ssize_t mul = size / n;  // the number of elements per index along the dimension
 
         for (ssize_t dim = 0; dim < ndim; ++dim) {
             for (auto& [index, old, neo] : order_diff) {
                 ssize_t stride = strides[dim] / array_ptr_->itemsize();
 
-                for (ssize_t i = index * mul, end = i + step * n; i < end; i += step) {
+                for (ssize_t j = 0, end = size / n; j < end; ++j) {
+                    // the j-th element that has the given index along the dimension
+                    const ssize_t i = (j / mul) * mul * n + index * mul + j % mul;
+
                     old_offsets.emplace_back(offsets[i]);
 
                     offsets[i] += stride * (neo - old);
@@ -1739,7 +1742,6 @@ void PermutationNode::propagate(State& state) const {
             }
 
             mul /= n;
-            step *= n;
         }
     }
 
-- 
2.43.0


From 11f45138e85117e4c5a73070fe623b81603efad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 06/51] fix: refuse to index trailing axes of a dynamic array
 with scalars, which cannot be initialized

---
 dwave/optimization/src/nodes/indexing.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 049797c..c28b82f 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -331,7 +331,8 @@ struct AdvancedIndexingNode::IndexParser_ {
                     "there must be at least one array-type index to use AdvancedIndexingNode");
         }
 
-        if (bullet1mode && array_ptr->dynamic() && std::holds_alternative<Slice>(indices_[0])) {
+        if ((bullet1mode || indexing_arrays_ndim == 0) && array_ptr->dynamic() &&
+            std::holds_alternative<Slice>(indices_[0])) {
             throw std::invalid_argument(
                     "Indexed Array cannot be dynamic with an empty slice in the first dimension");
         }
-- 
2.43.0


From a63832a91a04c42487a0a889c8527c8bf1017576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:58 +0000
Subject: [PATCH 07/51] fix: AdvancedIndexingNode maps updates of the indexed
 array when a slice precedes separated index arrays

---
 dwave/optimization/src/nodes/indexing.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index c28b82f..f1114bc 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -661,11 +661,12 @@ std::pair<ssize_t, ssize_t> get_mapped_index(
         const std::vector<AdvancedIndexingNode::array_or_slice>& indices,
         const std::span<const ssize_t>& strides, const std::span<const ssize_t>& item_strides,
         const std::span<const ssize_t>& shape, const std::span<const ssize_t>& mapped_item_strides,
-        ssize_t itemsize, ssize_t index) {
+        ssize_t itemsize, ssize_t index, bool bullet1mode, ssize_t indexing_arrays_ndim) {
     ssize_t offset = 0;
     ssize_t subspace_index = 0;
-    ssize_t mapped_axis = 0;
-    bool hit_first_array = false;
+    // In bullet 1 mode the axes of the indexing arrays come first
+    ssize_t mapped_axis = bullet1mode ? indexing_arrays_ndim : 0;
+    bool hit_first_array = bullet1mode;
     assert(indices.size() == strides.size());
     assert(indices.size() == item_strides.size());
     assert(indices.size() == shape.size());
@@ -814,7 +815,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             // This will return a nullptr if there currently are no mapped offsets
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
@@ -880,7 +882,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             // First part is the offset, second part is the subspace index
             std::pair<ssize_t, ssize_t> mapped_index =
                     get_mapped_index(indices_, array_strides, array_item_strides(),
-                                     array_ptr_->shape(state), strides(), itemsize(), update.index);
+                                     array_ptr_->shape(state), strides(), itemsize(), update.index,
+                                     bullet1mode_, indexing_arrays_ndim_);
             const auto* idxs = node_data->get_offset_idxs(mapped_index.first);
             if (idxs != nullptr) {
                 for (const auto& idx : *idxs) {
-- 
2.43.0


From a418c6409048ec3535971f73bceab4aecdcbbb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:45 +0000
Subject: [PATCH 08/51] fix: BasicIndexingNode translates updates through
 multi-dimensional and strided slices

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 83 ++++++++-----------
 2 files changed, 36 insertions(+), 50 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 79ef55d..4e724af 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -232,6 +232,9 @@ class BasicIndexingNode : public ArrayNode {
     void update_dynamic_shape(State& state) const;
     ssize_t dynamic_start(ssize_t slice_start) const;
 
+    // Whether we keep a copy of our output to determine our diff
+    bool cached() const;
+
     // We could do dynamic_cast<Array*>(predecessors[0]), but since there's
     // only one we just go ahead and hold a direct pointer
     const Array* array_ptr_;
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index f1114bc..defbc90 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1111,7 +1111,7 @@ void BasicIndexingNode::commit(State& state) const {
     node_data->diff.clear();
     node_data->previous_size = size(state);
     // reset the cache
-    node_data->full_cache_.assign(begin(state), end(state));
+    if (cached()) node_data->full_cache_.assign(begin(state), end(state));
 }
 
 std::span<const Update> BasicIndexingNode::diff(const State& state) const {
@@ -1189,7 +1189,7 @@ void BasicIndexingNode::initialize_state(State& state) const {
         auto node_data = data_ptr<BasicIndexingNodeData>(state);
         node_data->previous_size = size(state);
 
-        if (axis0_slice_.value().start < 0) {
+        if (cached()) {
             // Initialize the full output cache
             node_data->full_cache_.assign(begin(state), end(state));
         }
@@ -1197,7 +1197,15 @@ void BasicIndexingNode::initialize_state(State& state) const {
 }
 
 ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
-    return slice_start * strides_[0] / static_cast<ssize_t>(sizeof(double));
+    // strides_[0] is already scaled by the slice's step, the start is in terms of the array's rows
+    return slice_start * array_ptr_->strides()[0] / static_cast<ssize_t>(sizeof(double));
+}
+
+bool BasicIndexingNode::cached() const {
+    // We can only translate the updates of a dynamic predecessor one-to-one when we're a
+    // contiguous flat range that's anchored at its start.
+    return dynamic() && !(contiguous_ && array_ptr_->strides()[0] == itemsize() &&
+                          axis0_slice_.value().start >= 0);
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
@@ -1221,15 +1229,11 @@ void BasicIndexingNode::propagate(State& state) const {
     auto& diff = node_data->diff;
     assert(diff.size() == 0 && "calling propagate on an node with pending updates");
 
-    if (contiguous_ && dynamic() && axis0_slice_.value().start < 0) {
-        assert(this->start_ == 0);
+    if (cached()) {
         // Do a full recompute of the output using the current data. This could be avoided
         // when the size of the parent array hasn't changed.
         auto& full_cache = node_data->full_cache_;
-        assert(full_cache.size() ==
-                       axis0_slice_.value()
-                               .fit(array_ptr_->size(state) - array_ptr_->size_diff(state))
-                               .size() &&
+        assert(static_cast<ssize_t>(full_cache.size()) == node_data->previous_size &&
                "cache is the wrong size");
 
         update_dynamic_shape(state);
@@ -1442,56 +1446,39 @@ void BasicIndexingNode::propagate(State& state) const {
             diff.emplace_back(index - start, old, value);
         }
 
-    } else if (!dynamic() || (axis0_slice_.value().start >= 0 && axis0_slice_.value().stop >= 0)) {
-        // Handle all other cases of static sized arrays (contiguous and non-contiguous), and the
-        // case of dynamic but with positive start and end
+    } else {
+        // Handle the non-contiguous, fixed-size case
+        assert(!dynamic());
         assert(!this->contiguous());
         assert(array_ptr_->contiguous() && "doesn't support non-contiguous arrays");
-
-        if (dynamic()) update_dynamic_shape(state);
-
-        const ssize_t start = this->start_;
-        // distance between pointers in the parent array. Relies on parent
-        // being contiguous
-        assert(array_ptr_->contiguous());
-        const ssize_t stop = &*this->end(state) - &*this->begin(state);
-
-        // A few sanity checks...
-        assert(start >= 0);
-        assert(stop >= start);
         assert(this->ndim() > 0);  // if we're not contiguous we cannot be a scalar
-        // some strided stop after the end to make the math work out.
-        assert(stop <= array_ptr_->size(state) + this->strides()[0] / this->itemsize());
 
-        for (auto [index, old, value] : array_ptr_->diff(state)) {
-            if (index < start) continue;  // before the range we care about
-            if (index >= stop) continue;  // after the range we care about
+        const auto shape = this->shape();
+        const auto strides = this->strides();
 
-            index -= start;
+        for (const auto& [array_index, old, value] : array_ptr_->diff(state)) {
+            // the distance from our first element, in the parent array
+            ssize_t offset = array_index - this->start_;
+            if (offset < 0) continue;  // before the range we care about
 
+            // Work out the multi-index of the update in our view, and from that our index
+            ssize_t index = 0;
             bool skip = false;
-            for (ssize_t stride : this->strides()) {
-                assert(stride % this->itemsize() == 0);
-                // again, we rely on the parent being contiguous!
-                assert(array_ptr_->contiguous());
-                const ssize_t div = stride / this->itemsize();
-
-                if (index % div) {
-                    // we are "between" steps
-                    skip = true;
-                    break;
-                }
-
-                index /= div;
+            for (ssize_t dim = 0, stop = this->ndim(); dim < stop && !skip; ++dim) {
+                index *= shape[dim];
+                if (shape[dim] == 1) continue;  // the only index is 0, whatever the stride is
+
+                const ssize_t div = strides[dim] / this->itemsize();
+                skip = offset / div >= shape[dim];  // after the range we care about
+                index += offset / div;
+                offset %= div;
             }
-            if (skip) continue;
+            if (skip || offset) continue;  // outside of the range or "between" steps
 
             assert(index >= 0 && index < this->size(state));
 
             diff.emplace_back(index, old, value);
         }
-    } else {
-        assert(false && "not yet implemented");
     }
 
     // Only signal successors if we actually have something to propagate
@@ -1505,10 +1492,6 @@ void BasicIndexingNode::revert(State& state) const {
         // todo this is only safe if revert() has been called on the predecessor array
         // first, which isn't safe to assume
         update_dynamic_shape(state);
-        if (axis0_slice_.value().start < 0) {
-            assert(contiguous_ && "not yet implemented");
-            node_data->full_cache_.resize(node_data->previous_size);
-        }
     }
 }
 
-- 
2.43.0


From a876ec07fa10b9e8cf14be3a79684527451d2083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:31 +0000
Subject: [PATCH 09/51] fix: size bounds of sliced and indexed dynamic arrays
 are sound

---
 dwave/optimization/src/array.cpp          |  93 ++++++-----------
 dwave/optimization/src/nodes/indexing.cpp | 116 ++++++++++++----------
 2 files changed, 95 insertions(+), 114 deletions(-)

diff --git a/dwave/optimization/src/array.cpp b/dwave/optimization/src/array.cpp
index d4fb85a..7ebe9f9 100644
--- a/dwave/optimization/src/array.cpp
+++ b/dwave/optimization/src/array.cpp
@@ -43,7 +43,7 @@ bool SizeInfo::operator==(const SizeInfo& other) const {
 }
 
 SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
-    if (max_depth <= 0) return *this;
+    if (max_depth <= 0 || this->array_ptr == nullptr) return *this;
 
     SizeInfo sizeinfo = this->array_ptr->sizeinfo();
 
@@ -55,50 +55,44 @@ SizeInfo SizeInfo::substitute(ssize_t max_depth) const {
         return *this;
     }
 
-    sizeinfo.multiplier *= this->multiplier;
-    assert((this->multiplier * sizeinfo.offset).denominator() == 1);
-    sizeinfo.offset = static_cast<ssize_t>(this->multiplier * sizeinfo.offset);
-    sizeinfo.offset += this->offset;
+    // Substitute into the array's size first, so that our own offset is only ever applied once
+    if (this->array_ptr != sizeinfo.array_ptr) sizeinfo = sizeinfo.substitute(max_depth - 1);
 
-    if (this->max) {
-        if (sizeinfo.max) {
-            sizeinfo.max = std::min<ssize_t>(*max, *sizeinfo.max);
-        } else {
-            sizeinfo.max = this->max;
-        }
-    }
-
-    if (this->min) {
-        if (sizeinfo.min) {
-            sizeinfo.min = std::max<ssize_t>(*(this->min), *sizeinfo.min);
-        } else {
-            sizeinfo.min = this->min;
-        }
+    // The bounds before the offset is applied. Our own bounds cap the ones we inherit.
+    std::optional<ssize_t> min = this->min;
+    std::optional<ssize_t> max = this->max;
+    if (sizeinfo.max) {
+        const fraction bound = this->multiplier * *sizeinfo.max;
+        const ssize_t ceil = (bound.numerator() + bound.denominator() - 1) / bound.denominator();
+        max = std::min<ssize_t>(max.value_or(MAX), ceil);
     }
-
     if (sizeinfo.min) {
-        if (this->multiplier != 1) {
-            sizeinfo.min = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
-        }
-        sizeinfo.min = std::max<ssize_t>(0, *sizeinfo.min + this->offset);
+        const ssize_t floor = static_cast<ssize_t>(this->multiplier * *sizeinfo.min);
+        min = std::max<ssize_t>(min.value_or(0), floor);
     }
-    if (sizeinfo.max) {
-        if (this->multiplier != 1) {
-            sizeinfo.max = static_cast<ssize_t>(this->multiplier * *sizeinfo.max);
-        }
-        sizeinfo.max = std::max<ssize_t>(0, *sizeinfo.max + this->offset);
+    if (min && max) min = std::min<ssize_t>(*min, *max);
+
+    // Express ourselves in terms of the array's array, unless that would not be exact
+    SizeInfo out = *this;
+    const fraction offset = this->multiplier * sizeinfo.offset;
+    if (sizeinfo.multiplier != 0 && offset.denominator() == 1 &&
+        (sizeinfo.multiplier.denominator() == 1 || this->multiplier.numerator() == 1)) {
+        out.array_ptr = sizeinfo.array_ptr;
+        out.multiplier *= sizeinfo.multiplier;
+        out.offset += offset.numerator();
     }
 
-    // Adjust the minimum based on the offset
-    if (sizeinfo.min && sizeinfo.max && sizeinfo.min == sizeinfo.max) {
-        sizeinfo.offset = *sizeinfo.min;
-        sizeinfo.multiplier = 0;
+    out.min = out.max = std::nullopt;
+    if (min) out.min = std::max<ssize_t>(0, *min + this->offset);
+    if (max) out.max = std::max<ssize_t>(0, *max + this->offset);
+
+    // If there is only one size left, then that's it
+    if (out.min && out.max && out.min == out.max) {
+        out.offset = *out.min;
+        out.multiplier = 0;
     }
 
-    // in the future we can/should do an iterative rather than recurisive
-    // version
-    if (max_depth > 1) return sizeinfo.substitute(max_depth - 1);
-    return sizeinfo;
+    return out;
 }
 
 std::ostream& operator<<(std::ostream& os, const SizeInfo& sizeinfo) {
@@ -167,30 +161,9 @@ bool array_shape_equal(const Array* lhs_ptr, const Array* rhs_ptr) {
     auto rhs_size = rhs_ptr->sizeinfo();
 
     if (lhs_size == rhs_size) return true;
-    if (lhs_size.array_ptr == nullptr || rhs_size.array_ptr == nullptr) return false;
-
-    // This first loop is redundant, but often we get diamond structures
-    // of predecessors so by going back together we might get to short circuit the
-    // dfs
-    while (lhs_size.array_ptr != lhs_ptr && rhs_size.array_ptr != rhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (lhs_size.array_ptr != lhs_ptr) {
-        lhs_ptr = lhs_size.array_ptr;
-        lhs_size = lhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
-    while (rhs_size.array_ptr != rhs_ptr) {
-        rhs_ptr = rhs_size.array_ptr;
-        rhs_size = rhs_size.substitute();
-        if (lhs_size == rhs_size) return true;
-    }
 
-    return false;
+    // 100 is a magic number
+    return lhs_size.substitute(100) == rhs_size.substitute(100);
 }
 bool array_shape_equal(const Array& lhs, const Array& rhs) {
     return array_shape_equal(&lhs, &rhs);
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index defbc90..aa153b5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -645,9 +645,19 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
     if (!dynamic()) return SizeInfo(size());
     // when we get around to supporting broadcasting this will need to change
     assert(predecessors().size() >= 2);
-    assert(!dynamic_cast<ArrayNode*>(predecessors()[0])->dynamic() &&
-           "sizeinfo for dynamic base arrays not supported");
-    return SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+
+    if (!bullet1mode_) {
+        // our first axis is the (dynamic) first axis of the indexed array
+        auto sizeinfo = SizeInfo(array_ptr_);
+        sizeinfo.multiplier *= strides()[0];
+        sizeinfo.multiplier /= array_ptr_->strides()[0];
+        return sizeinfo;
+    }
+
+    // otherwise there is one subspace per element of the indexing arrays
+    auto sizeinfo = SizeInfo(dynamic_cast<ArrayNode*>(predecessors()[1]));
+    sizeinfo.multiplier *= subspace_stride_ / static_cast<ssize_t>(itemsize());
+    return sizeinfo;
 }
 
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
@@ -1504,68 +1514,66 @@ ssize_t BasicIndexingNode::size(const State& state) const {
 SizeInfo BasicIndexingNode::sizeinfo() const {
     if (size_ >= 0) return SizeInfo(size_);
 
-    auto sizeinfo = SizeInfo(array_ptr_);
-
-    // Get the multiplier on the size of the array
-    {
-        // Determine how many elements are in each row of the array. Where "row" here means the
-        // first axis.
-        // We use the fact that the parent is contiguous to simplify this calculation.
-        assert(array_ptr_->contiguous());
-        assert(this->ndim() > 0);
-        ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
-
-        sizeinfo.multiplier /= array_num_per_row;
-
-        // Determine how many elements are in each row of the resulting array.
-        // Here we may be strided, so we use the shape to figure it out.
-        auto shape = this->shape();
-        ssize_t num_per_row =
-                std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
-
-        sizeinfo.multiplier *= num_per_row;
+    // This is where having Slice's values be optional<ssize_t> would be useful.
+    // For now let's just hard code it.
+    constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
 
-        // handle the step
-        assert(axis0_slice_);            // dynamic so this should be present
-        assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    assert(axis0_slice_);            // dynamic so this should be present
+    assert(axis0_slice_->step > 0);  // constructor prevents otherwise for now
+    const auto& [start, stop, step] = *axis0_slice_;
 
-        sizeinfo.multiplier /= axis0_slice_->step;
-    }
+    // Determine how many elements are in each row of the array. Where "row" here means the
+    // first axis.
+    // We use the fact that the parent is contiguous to simplify this calculation.
+    assert(array_ptr_->contiguous());
+    assert(this->ndim() > 0);
+    const ssize_t array_num_per_row = array_ptr_->strides()[0] / array_ptr_->itemsize();
 
-    // Get the offset and bounds
-    {
-        assert(axis0_slice_);  // dynamic so this should be present
+    // Determine how many elements are in each row of the resulting array.
+    // Here we may be strided, so we use the shape to figure it out.
+    const auto shape = this->shape();
+    const ssize_t num_per_row =
+            std::reduce(shape.begin() + 1, shape.end(), 1, std::multiplies<ssize_t>());
 
-        if (axis0_slice_->step > 0) {
-            if (axis0_slice_->start > 0) {
-                // having a positive start imposes a size offset
-                assert((sizeinfo.multiplier * axis0_slice_->start).denominator() == 1);
-                sizeinfo.offset -= static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->start);
+    // A non-negative start and a negative stop each drop rows
+    const ssize_t num_dropped = std::max<ssize_t>(start, 0) - std::min<ssize_t>(stop, 0);
 
-            } else if (axis0_slice_->start < 0) {
-                // a negative start imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * -1 * axis0_slice_->start);
-            }
+    // A negative start and a non-negative stop each impose a maximum number of rows
+    std::optional<ssize_t> max_rows;
+    if (start < 0) max_rows = -start;
+    if (stop >= 0 && stop != MAX) max_rows = std::min(stop, max_rows.value_or(MAX));
 
-            // This is where having Slice's values be optional<ssize_t> would be useful.
-            // For now let's just hard code it.
-            constexpr ssize_t MAX = std::numeric_limits<ssize_t>::max();
+    const bool monotonic = start >= 0 || stop < 0 || stop == MAX;
 
-            if (axis0_slice_->stop > 0 && axis0_slice_->stop != MAX) {
-                // having a positive stop imposes a max size
-                sizeinfo.max = static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            } else if (axis0_slice_->stop < 0) {
-                // having a negative stop imposes a size offset
-                sizeinfo.offset += static_cast<ssize_t>(sizeinfo.multiplier * axis0_slice_->stop);
-            }
+    if (!monotonic || (step != 1 && (num_per_row != 1 || num_dropped % step))) {
+        // Our size is not a linear function of the array's, so we can only give bounds
+        auto sizeinfo = SizeInfo(this, 0, std::nullopt);
 
-        } else {
-            // this is currently disallowed by the constructor
-            assert(false && "not implemented yet");
-            unreachable();
+        const auto array_sizeinfo = SizeInfo(array_ptr_).substitute(100);  // magic number
+        if (array_sizeinfo.max) {
+            max_rows = std::min(*array_sizeinfo.max / array_num_per_row, max_rows.value_or(MAX));
         }
+        if (max_rows && monotonic) {
+            sizeinfo.max = axis0_slice_->fit(*max_rows).size() * num_per_row;
+        } else if (max_rows) {
+            sizeinfo.max = (*max_rows + step - 1) / step * num_per_row;
+        }
+        if (array_sizeinfo.min && monotonic) {
+            const ssize_t min_rows = *array_sizeinfo.min / array_num_per_row;
+            sizeinfo.min = axis0_slice_->fit(min_rows).size() * num_per_row;
+        }
+
+        return sizeinfo;
     }
 
+    auto sizeinfo = SizeInfo(array_ptr_);
+    sizeinfo.multiplier /= array_num_per_row;
+    sizeinfo.multiplier *= num_per_row;
+    sizeinfo.multiplier /= step;
+    sizeinfo.offset = -(num_dropped / step) * num_per_row;
+    // the maximum is given before the offset is applied
+    if (max_rows) sizeinfo.max = (*max_rows + step - 1) / step * num_per_row;
+
     return sizeinfo;
 }
 
-- 
2.43.0


From 90ca44a6e551a3933025110a4e81f4afae6ace51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:00 +0000
Subject: [PATCH 10/51] fix: bounds of products do not become NaN when an
 operand's bounds overflow

---
 dwave/optimization/src/nodes/mathematical.cpp | 56 ++++++++++---------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 7154191..cc2348a 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -147,6 +147,12 @@ bool BinaryOpNode<BinaryOp>::integral() const {
     unreachable();
 }
 
+// The product of two bounds. A bound may have overflowed to infinity, which stands for a very
+// large number, so unlike for IEEE 754 0 * inf is 0.
+static double bound_product(double lhs, double rhs) {
+    return (lhs == 0 || rhs == 0) ? 0 : lhs * rhs;
+}
+
 template <class BinaryOp>
 double BinaryOpNode<BinaryOp>::max() const {
     using result_type = typename std::invoke_result<BinaryOp, double&, double&>::type;
@@ -195,8 +201,8 @@ double BinaryOpNode<BinaryOp>::max() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::max(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::max({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                         bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -248,8 +254,8 @@ double BinaryOpNode<BinaryOp>::min() const {
         double rhs_low = rhs_ptr->min();
         double rhs_high = rhs_ptr->max();
 
-        return std::min(
-                {lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low, lhs_high * rhs_high});
+        return std::min({bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                         bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)});
     }
 
     assert(false && "not implemeted yet");
@@ -586,13 +592,12 @@ double NaryOpNode<BinaryOp>::max() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
-
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            const auto products = {
+                    bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                    bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)};
 
-            lhs_low = tmp;
+            lhs_low = std::min(products);
+            lhs_high = std::max(products);
         }
 
         return lhs_high;
@@ -637,13 +642,12 @@ double NaryOpNode<BinaryOp>::min() const {
             double rhs_low = rhs_ptr->min();
             double rhs_high = rhs_ptr->max();
 
-            double tmp = std::min({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                   lhs_high * rhs_high});
-
-            lhs_high = std::max({lhs_low * rhs_low, lhs_low * rhs_high, lhs_high * rhs_low,
-                                 lhs_high * rhs_high});
+            const auto products = {
+                    bound_product(lhs_low, rhs_low), bound_product(lhs_low, rhs_high),
+                    bound_product(lhs_high, rhs_low), bound_product(lhs_high, rhs_high)};
 
-            lhs_low = tmp;
+            lhs_low = std::min(products);
+            lhs_high = std::max(products);
         }
 
         return lhs_low;
@@ -1336,16 +1340,16 @@ double ReduceNode<BinaryOp>::max() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::max(init * low, init * high);
+        if (array_ptr_->size() == 1) return std::max(bound_product(init, low), bound_product(init, high));
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::max({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            bound_product(init, std::pow(low, size)),
+            bound_product(init, std::pow(high, size)),
+            bound_product(bound_product(init, low), std::pow(high, size - 1)),
+            bound_product(bound_product(init, high), std::pow(low, size - 1)),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
@@ -1423,16 +1427,16 @@ double ReduceNode<BinaryOp>::min() const {
         const double high = array_ptr_->max();
 
         // exactly one element, handle the sign of init
-        if (array_ptr_->size() == 1) return std::min(init * low, init * high);
+        if (array_ptr_->size() == 1) return std::min(bound_product(init, low), bound_product(init, high));
 
         const ssize_t size = array_ptr_->size();
 
         // more than one element
         return std::min({
-            init * std::pow(low, size),
-            init * std::pow(high, size),
-            init * low * std::pow(high, size - 1),
-            init * high * std::pow(low, size - 1),
+            bound_product(init, std::pow(low, size)),
+            bound_product(init, std::pow(high, size)),
+            bound_product(bound_product(init, low), std::pow(high, size - 1)),
+            bound_product(bound_product(init, high), std::pow(low, size - 1)),
         });
     }
     if constexpr (std::is_same<BinaryOp, std::plus<double>>::value) {
-- 
2.43.0


From f2b97298892c0c2ff27da7cb70c6a6d30b84b98f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:23:55 +0000
Subject: [PATCH 11/51] fix: bounds of min/max reductions account for an empty
 array

---
 dwave/optimization/src/nodes/mathematical.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index cc2348a..20cd4d3 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1321,7 +1321,11 @@ double ReduceNode<BinaryOp>::max() const {
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
-        if (init.has_value()) return std::min(init.value(), array_ptr_->max());
+        if (init.has_value()) {
+            // the array might not have anything in it
+            if (!array_ptr_->sizeinfo().substitute(100).min.value_or(0)) return init.value();
+            return std::min(init.value(), array_ptr_->max());
+        }
         return array_ptr_->max();
     }
     if constexpr (std::is_same<BinaryOp, std::multiplies<double>>::value) {
@@ -1404,7 +1408,11 @@ double ReduceNode<BinaryOp>::min() const {
     // These can results in inf. If we fix that in initialization/propagation we
     // should also fix it here.
     if constexpr (std::is_same<BinaryOp, functional::max<double>>::value) {
-        if (init.has_value()) return std::max(init.value(), array_ptr_->min());
+        if (init.has_value()) {
+            // the array might not have anything in it
+            if (!array_ptr_->sizeinfo().substitute(100).min.value_or(0)) return init.value();
+            return std::max(init.value(), array_ptr_->min());
+        }
         return array_ptr_->min();
     }
     if constexpr (std::is_same<BinaryOp, functional::min<double>>::value) {
-- 
2.43.0


From b346c0dfe3a58aaf43a593295c6c12c6a098cecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:09 +0000
Subject: [PATCH 12/51] fix: BasicIndexingNode with empty rows of a dynamic
 array has an empty diff

---
 dwave/optimization/src/nodes/indexing.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index aa153b5..23066a0 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -1214,8 +1214,11 @@ ssize_t BasicIndexingNode::dynamic_start(ssize_t slice_start) const {
 bool BasicIndexingNode::cached() const {
     // We can only translate the updates of a dynamic predecessor one-to-one when we're a
     // contiguous flat range that's anchored at its start.
-    return dynamic() && !(contiguous_ && array_ptr_->strides()[0] == itemsize() &&
-                          axis0_slice_.value().start >= 0);
+    if (!dynamic()) return false;
+    const auto row_shape = this->shape().subspan(1);
+    return !(contiguous_ && array_ptr_->strides()[0] == itemsize() &&
+             std::ranges::all_of(row_shape, [](const ssize_t& n) { return n == 1; }) &&
+             axis0_slice_.value().start >= 0);
 }
 
 ssize_t get_smallest_size_during_diff(ssize_t initial_size, const std::span<const Update> diff) {
-- 
2.43.0


From 7ffba0aab4fc06fe36c269fdd9ac0cc1bd407cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:06 +0000
Subject: [PATCH 13/51] fix: AdvancedIndexingNode places and removes rows of
 interleaved subspaces in order

---
 .../dwave-optimization/nodes/indexing.hpp     |  4 +-
 dwave/optimization/src/nodes/indexing.cpp     | 43 +++++++++++--------
 2 files changed, 27 insertions(+), 20 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 4e724af..b3a74ff 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -103,10 +103,10 @@ class AdvancedIndexingNode : public ArrayNode {
     void fill_subspace(State& state, ssize_t array_offset, std::vector<double>& data,
                        ssize_t index_in_arrays, std::vector<Update>& diff) const;
 
-    template <bool placement, bool removal>
+    // `diff` may be a nullptr, in which case no updates are recorded
     void fill_axis0_subspace(State& state, ssize_t axis0_index, ssize_t array_item_offset,
                              std::vector<double>& data, ssize_t index_in_arrays,
-                             std::vector<Update>& diff) const;
+                             std::vector<Update>* diff) const;
 
     template <bool fill_diff, bool placement, bool removal>
     void fill_subspace_recurse(const std::span<const ssize_t>& shape, const double* array_buffer,
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 23066a0..88dec5b 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -508,17 +508,22 @@ void AdvancedIndexingNode::fill_subspace(State& state, ssize_t array_item_offset
             index_in_arrays * subspace_stride_, starting_output_axis, &diff);
 }
 
-template <bool placement, bool removal>
 void AdvancedIndexingNode::fill_axis0_subspace(State& state, ssize_t axis0_index,
                                                ssize_t array_item_offset, std::vector<double>& data,
                                                ssize_t index_in_arrays,
-                                               std::vector<Update>& diff) const {
+                                               std::vector<Update>* diff) const {
     assert(!bullet1mode_ && "fill_axis0_subspace should only be called with bullet 2 mode");
     ssize_t array_offset = axis0_index * array_ptr_->strides()[0] + array_item_offset * itemsize();
     size_t data_offset = axis0_index * strides()[0] + index_in_arrays * subspace_stride_;
-    fill_subspace_recurse<true, placement, removal>(array_ptr_->shape(state),
-                                                    array_ptr_->buff(state), array_offset, 1, data,
-                                                    data_offset, 1, &diff);
+    if (diff) {
+        fill_subspace_recurse<true, false, false>(array_ptr_->shape(state),
+                                                  array_ptr_->buff(state), array_offset, 1, data,
+                                                  data_offset, 1, diff);
+    } else {
+        fill_subspace_recurse<false, false, false>(array_ptr_->shape(state),
+                                                   array_ptr_->buff(state), array_offset, 1, data,
+                                                   data_offset, 1, nullptr);
+    }
 }
 
 template <bool fill_diff, bool placement, bool removal>
@@ -850,26 +855,28 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
-            // Growing, so need placements
+            // Growing, so need placements. The subspaces may be interleaved, so fill in the
+            // rows first and then place their elements in order.
+            const ssize_t old_size = data.size();
+            data.resize(new_axis0_size * (strides()[0] / itemsize()));
             for (ssize_t axis0_idx = old_axis0_size; axis0_idx < new_axis0_size; ++axis0_idx) {
                 for (ssize_t offset_idx = 0; offset_idx < node_data->offsets_size(); ++offset_idx) {
-                    fill_axis0_subspace<true, false>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
+                    fill_axis0_subspace(state, axis0_idx, node_data->offsets()[offset_idx], data,
+                                        offset_idx, nullptr);
                 }
             }
+            for (ssize_t i = old_size, stop = data.size(); i < stop; ++i) {
+                diff.emplace_back(Update::placement(i, data[i]));
+            }
         }
 
         if (new_axis0_size < old_axis0_size) {
             // Shrinking, so need removals
-            for (ssize_t axis0_idx = old_axis0_size - 1; axis0_idx >= new_axis0_size; --axis0_idx) {
-                for (ssize_t offset_idx = node_data->offsets_size() - 1; offset_idx >= 0;
-                     --offset_idx) {
-                    fill_axis0_subspace<false, true>(state, axis0_idx,
-                                                     node_data->offsets()[offset_idx], data,
-                                                     offset_idx, diff);
-                }
+            const ssize_t new_size = new_axis0_size * (strides()[0] / itemsize());
+            for (ssize_t i = static_cast<ssize_t>(data.size()) - 1; i >= new_size; --i) {
+                diff.emplace_back(Update::removal(i, data[i]));
             }
+            data.resize(new_size);
         }
 
         // Now handle the changes to offsets for axis0 indices that are have not just been placed
@@ -878,8 +885,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
             for (ssize_t axis0_idx = 0; axis0_idx < unchanged_axis0_size; ++axis0_idx) {
                 assert(!offset_update.placed());
                 assert(!offset_update.removed());
-                fill_axis0_subspace<false, false>(state, axis0_idx, offset_update.value, data,
-                                                  offset_update.index, diff);
+                fill_axis0_subspace(state, axis0_idx, offset_update.value, data,
+                                    offset_update.index, &diff);
             }
             offset_idxs_updated.insert(offset_update.index);
         }
-- 
2.43.0


From c64230e8e7e9a8937bdfad7702441078b168f984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:58 +0000
Subject: [PATCH 14/51] fix: AdvancedIndexingNode keeps its shape per state and
 handles arrays with empty rows

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +-
 dwave/optimization/src/nodes/indexing.cpp     | 48 ++++++++++++-------
 2 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index b3a74ff..751751a 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -113,6 +113,8 @@ class AdvancedIndexingNode : public ArrayNode {
                                ssize_t array_offset, ssize_t array_dim, std::vector<double>& data,
                                ssize_t data_offset, size_t output_dim, std::vector<Update>*) const;
 
+    void update_dynamic_shape(State& state) const;
+
     std::span<const ssize_t> array_item_strides() const {
         return std::span(array_item_strides_.get(), array_ptr_->ndim());
     }
@@ -124,7 +126,6 @@ class AdvancedIndexingNode : public ArrayNode {
     const ssize_t ndim_;
     std::unique_ptr<ssize_t[]> strides_;
     std::unique_ptr<ssize_t[]> shape_;
-    std::unique_ptr<ssize_t[]> dynamic_shape_;
 
     std::unique_ptr<ssize_t[]> array_item_strides_;
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 88dec5b..64a71a5 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -171,6 +171,9 @@ struct AdvancedIndexingNodeData : NodeStateData {
 
     const std::vector<ssize_t>& offsets() const { return offsets_; }
 
+    // The state dependent shape, empty unless the node is dynamic
+    std::vector<ssize_t> dynamic_shape;
+
     // The array values as a contiguous dataset
     std::vector<double> data;
 
@@ -472,13 +475,6 @@ AdvancedIndexingNode::AdvancedIndexingNode(ArrayNode* array_ptr, IndexParser_&&
             add_predecessor(std::get<ArrayNode*>(index));
         }
     }
-
-    if (dynamic()) {
-        // Copy over the shape to dynamic_shape_. Then the first index of dynamic_shape_
-        // will be rewritten as the output changes size.
-        dynamic_shape_ = std::make_unique<ssize_t[]>(ndim());
-        std::copy(shape_.get(), shape_.get() + ndim(), dynamic_shape_.get());
-    }
 }
 
 double const* AdvancedIndexingNode::buff(const State& state) const {
@@ -617,7 +613,7 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
         }
     }
 
-    ssize_t array_axis0_size = array_ptr_->size(state) / array_item_strides()[0];
+    ssize_t array_axis0_size = array_ptr_->shape(state)[0];
 
     // Now get the values
     ssize_t data_size = bullet1mode_ ? size * (subspace_stride_ / itemsize())
@@ -630,8 +626,11 @@ void AdvancedIndexingNode::initialize_state(State& state) const {
 
     bool main_array_is_constant_node = dynamic_cast<const ConstantNode*>(array_ptr_) != nullptr;
 
-    state[index] = std::make_unique<AdvancedIndexingNodeData>(std::move(offsets), std::move(data),
-                                                              !main_array_is_constant_node);
+    auto node_data = std::make_unique<AdvancedIndexingNodeData>(
+            std::move(offsets), std::move(data), !main_array_is_constant_node);
+    if (dynamic()) node_data->dynamic_shape.assign(shape().begin(), shape().end());
+    state[index] = std::move(node_data);
+    update_dynamic_shape(state);
 }
 
 void AdvancedIndexingNode::commit(State& state) const {
@@ -640,6 +639,8 @@ void AdvancedIndexingNode::commit(State& state) const {
 
 void AdvancedIndexingNode::revert(State& state) const {
     data_ptr<AdvancedIndexingNodeData>(state)->revert();
+    // as for BasicIndexingNode, this relies on the indexed array having been reverted first
+    update_dynamic_shape(state);
 }
 
 ssize_t AdvancedIndexingNode::size(const State& state) const {
@@ -655,7 +656,7 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
         // our first axis is the (dynamic) first axis of the indexed array
         auto sizeinfo = SizeInfo(array_ptr_);
         sizeinfo.multiplier *= strides()[0];
-        sizeinfo.multiplier /= array_ptr_->strides()[0];
+        if (strides()[0]) sizeinfo.multiplier /= array_ptr_->strides()[0];
         return sizeinfo;
     }
 
@@ -668,8 +669,15 @@ SizeInfo AdvancedIndexingNode::sizeinfo() const {
 std::span<const ssize_t> AdvancedIndexingNode::shape(const State& state) const {
     if (!dynamic()) return shape();
     assert(this->ndim() >= 1);
-    dynamic_shape_[0] = this->size(state) / (strides()[0] / itemsize());
-    return std::span<const ssize_t>(dynamic_shape_.get(), this->ndim());
+    return data_ptr<AdvancedIndexingNodeData>(state)->dynamic_shape;
+}
+
+void AdvancedIndexingNode::update_dynamic_shape(State& state) const {
+    if (!dynamic()) return;
+    auto node_data = data_ptr<AdvancedIndexingNodeData>(state);
+    // The first axis is either that of the indexing arrays or that of the indexed array
+    node_data->dynamic_shape.front() =
+            bullet1mode_ ? node_data->offsets_size() : array_ptr_->shape(state).front();
 }
 
 std::pair<ssize_t, ssize_t> get_mapped_index(
@@ -850,8 +858,10 @@ void AdvancedIndexingNode::propagate(State& state) const {
         ssize_t old_parent_size = new_parent_size - array_ptr_->size_diff(state);
         ssize_t unchanged_parent_size = std::min(new_parent_size, old_parent_size);
 
-        ssize_t old_axis0_size = old_parent_size / array_item_strides()[0];
-        ssize_t new_axis0_size = new_parent_size / array_item_strides()[0];
+        // if the rows are empty then there's nothing to place or remove
+        const ssize_t row_size = std::max<ssize_t>(array_item_strides()[0], 1);
+        ssize_t old_axis0_size = old_parent_size / row_size;
+        ssize_t new_axis0_size = new_parent_size / row_size;
         ssize_t unchanged_axis0_size = std::min(new_axis0_size, old_axis0_size);
         // First handle any changes to the size of the parent array
         if (new_axis0_size > old_axis0_size) {
@@ -916,6 +926,8 @@ void AdvancedIndexingNode::propagate(State& state) const {
         }
     }
 
+    update_dynamic_shape(state);
+
     // Only signal successors if we actually have something to propagate
     if (diff.size()) Node::propagate(state);
 }
@@ -1560,7 +1572,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
         auto sizeinfo = SizeInfo(this, 0, std::nullopt);
 
         const auto array_sizeinfo = SizeInfo(array_ptr_).substitute(100);  // magic number
-        if (array_sizeinfo.max) {
+        if (array_sizeinfo.max && array_num_per_row) {
             max_rows = std::min(*array_sizeinfo.max / array_num_per_row, max_rows.value_or(MAX));
         }
         if (max_rows && monotonic) {
@@ -1568,7 +1580,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
         } else if (max_rows) {
             sizeinfo.max = (*max_rows + step - 1) / step * num_per_row;
         }
-        if (array_sizeinfo.min && monotonic) {
+        if (array_sizeinfo.min && array_num_per_row && monotonic) {
             const ssize_t min_rows = *array_sizeinfo.min / array_num_per_row;
             sizeinfo.min = axis0_slice_->fit(min_rows).size() * num_per_row;
         }
@@ -1577,7 +1589,7 @@ SizeInfo BasicIndexingNode::sizeinfo() const {
     }
 
     auto sizeinfo = SizeInfo(array_ptr_);
-    sizeinfo.multiplier /= array_num_per_row;
+    if (num_per_row) sizeinfo.multiplier /= array_num_per_row;
     sizeinfo.multiplier *= num_per_row;
     sizeinfo.multiplier /= step;
     sizeinfo.offset = -(num_dropped / step) * num_per_row;
-- 
2.43.0


From 9e26d295f7eed98980b216c024622f5fd2caae8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 15/51] fix: IntegerNode::default_move stays within negative
 bounds

---
 dwave/optimization/src/nodes/numbers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 674dca8..9417c34 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -140,7 +140,7 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
-    std::uniform_int_distribution<std::size_t> value_dist(lower_bound_, upper_bound_);
+    std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
 }
 
-- 
2.43.0


From 2493b0209854a21aefaf873d9ec48a29d62816a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 16/51] fix: DisjointBitSetsNode refuses an initial state that
 is not a partition

---
 dwave/optimization/src/nodes/collections.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index 6dc0ce3..db786aa 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -244,6 +244,7 @@ struct DisjointBitSetsNodeData : NodeStateData {
         data.resize(primary_set_size * num_disjoint_sets, 0);
         diffs.resize(num_disjoint_sets);
 
+        std::vector<bool> found(primary_set_size, false);
         ssize_t num_elements = 0;
 
         for (ssize_t set_index = 0; set_index < num_disjoint_sets; ++set_index) {
@@ -256,7 +257,13 @@ struct DisjointBitSetsNodeData : NodeStateData {
                     throw std::invalid_argument("provided set must be binary valued");
                 }
                 data[set_index * primary_set_size + el_index] = contents[set_index][el_index];
-                num_elements += static_cast<ssize_t>(contents[set_index][el_index]);
+                if (!contents[set_index][el_index]) continue;
+                if (found[el_index]) {
+                    throw std::invalid_argument(
+                            "disjoint set elements must be in exactly one bit-set once");
+                }
+                found[el_index] = true;
+                num_elements += 1;
             }
         }
 
-- 
2.43.0


From ee81f17876dae7db00876720bc87b133b23d2eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 17/51] fix: default_move() of an empty decision does nothing

---
 dwave/optimization/src/nodes/collections.cpp | 6 ++++++
 dwave/optimization/src/nodes/numbers.cpp     | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index db786aa..dd833c2 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -348,6 +348,8 @@ void DisjointBitSetsNode::revert(State& state) const {
 }
 
 void DisjointBitSetsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> dist_sets(0, num_disjoint_sets_ - 1);
     std::uniform_int_distribution<std::size_t> dist_el(0, primary_set_size_ - 1);
 
@@ -670,6 +672,8 @@ void DisjointListsNode::pop_to_list(State& state, ssize_t from_list_index, ssize
 }
 
 void DisjointListsNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!primary_set_size_) return;  // there is nothing to move
+
     auto data = data_ptr<DisjointListStateData>(state);
 
     // choose a list to pop from (list_i) randomly weighted by how many items are in it,
@@ -753,6 +757,8 @@ ssize_t DisjointListNode::size_diff(const State& state) const {
 }
 
 void ListNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size(state)) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> dist(0, this->size(state) - 1);
     // This might mean we're selecting the same variable twice.
     // But for large-ish lists that should be quite rare and anyway it's
diff --git a/dwave/optimization/src/nodes/numbers.cpp b/dwave/optimization/src/nodes/numbers.cpp
index 9417c34..60f332c 100644
--- a/dwave/optimization/src/nodes/numbers.cpp
+++ b/dwave/optimization/src/nodes/numbers.cpp
@@ -139,6 +139,8 @@ bool IntegerNode::set_value(State& state, ssize_t i, int value) const {
 }
 
 void IntegerNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size()) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     std::uniform_int_distribution<ssize_t> value_dist(lower_bound_, upper_bound_);
     this->set_value(state, index_dist(rng), value_dist(rng));
@@ -168,6 +170,8 @@ bool BinaryNode::unset(State& state, ssize_t i) const {
 }
 
 void BinaryNode::default_move(State& state, RngAdaptor& rng) const {
+    if (!this->size()) return;  // there is nothing to move
+
     std::uniform_int_distribution<std::size_t> index_dist(0, this->size(state) - 1);
     this->flip(state, index_dist(rng));
 }
-- 
2.43.0


From b1239753d3a222a76a5dfb1b421bd21983cc1201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:32:20 +0000
Subject: [PATCH 18/51] fix: a default-initialized ListNode keeps the elements
 beyond its maximum size

---
 dwave/optimization/src/nodes/collections.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/collections.cpp b/dwave/optimization/src/nodes/collections.cpp
index dd833c2..717c2cd 100644
--- a/dwave/optimization/src/nodes/collections.cpp
+++ b/dwave/optimization/src/nodes/collections.cpp
@@ -772,7 +772,8 @@ void ListNode::initialize_state(State& state) const {
     assert(static_cast<int>(state.size()) > index && "unexpected state length");
     assert(state[index] == nullptr && "already initialized state");
 
-    state[index] = std::make_unique<CollectionStateData>(max_size_);
+    // default to range(max_size_)
+    state[index] = std::make_unique<CollectionStateData>(max_value_, max_size_);
 }
 
 void SetNode::default_move(State& state, RngAdaptor& rng) const {
-- 
2.43.0


From c4929a7d59e97726df3f50de424a0451c500cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:04 +0000
Subject: [PATCH 19/51] fix: Graph::descendants lists every node once, whatever
 the sources

---
 dwave/optimization/src/graph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dwave/optimization/src/graph.cpp b/dwave/optimization/src/graph.cpp
index 9084ad9..2f4d876 100644
--- a/dwave/optimization/src/graph.cpp
+++ b/dwave/optimization/src/graph.cpp
@@ -202,6 +202,12 @@ bool Graph::feasible(const State& state) const {
 
 // Performs Breadth First Search and sort the nodes visited according to their topological number.
 std::vector<const Node*> Graph::descendants(State& state, std::vector<const Node*> sources) {
+    // Mark the sources so that we don't visit any of them again, even if they are listed twice or
+    // are descendants of each other
+    std::erase_if(sources, [&state](const Node* n_ptr) {
+        return std::exchange(state[n_ptr->topological_index()]->mark, true);
+    });
+
     // Perform BFS starting from the sources
     ssize_t exploration_index = 0;
 
-- 
2.43.0


From d23c42a688268ea02da5388e118bf8464c3a0e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:04 +0000
Subject: [PATCH 20/51] fix: x ** n of a NaryMultiply does not multiply it in
 place

---
 dwave/optimization/_model.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 3ffc592..42bade1 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1240,12 +1240,12 @@ cdef class ArraySymbol(Symbol):
             return Square(self)
         # check if exponent is an integer greater than 0
         elif isinstance(exponent, numbers.Real) and exponent > 0 and int(exponent) == exponent:
-            expanded = itertools.repeat(self, int(exponent))
-            out = next(expanded)  # get the first one
-            # multiply self by itself exponent times
-            for symbol in expanded:
-                out *= symbol
-            return out
+            if exponent == 1:
+                return self
+            # multiply self by itself exponent times. We don't use *= because that
+            # would add self as its own predecessor when self is a NaryMultiply
+            from dwave.optimization.symbols import NaryMultiply  # avoid circular import
+            return NaryMultiply(*itertools.repeat(self, int(exponent)))
         raise ValueError("only integer exponents of 1 or greater are supported")
 
     def __sub__(self, rhs):
-- 
2.43.0


From bf7d11a25a8c6b84c5d3673936756fddbc334f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 21/51] fix: in-place += and *= of n-ary symbols never create
 cycles or change locked or foreign models

---
 dwave/optimization/symbols.pyx | 35 ++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index ce69812..8e31083 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -32,6 +32,7 @@ from libcpp.cast cimport dynamic_cast
 from libcpp.optional cimport nullopt, optional
 from libcpp.typeindex cimport type_index
 from libcpp.unordered_map cimport unordered_map
+from libcpp.unordered_set cimport unordered_set
 from libcpp.utility cimport move
 from libcpp.vector cimport vector
 
@@ -221,6 +222,24 @@ cdef bool _empty_slice(object slice_) noexcept:
     return slice_.start is None and slice_.stop is None and slice_.step is None
 
 
+cdef bool _depends_on(Symbol symbol, Symbol other):
+    """Whether ``symbol`` is ``other`` or one of its descendants."""
+    cdef unordered_set[const cppNode*] seen
+    cdef vector[const cppNode*] stack
+    cdef const cppNode* ptr
+
+    stack.push_back(other.node_ptr)
+    while stack.size():
+        ptr = stack.back()
+        stack.pop_back()
+        if ptr == symbol.node_ptr:
+            return True
+        for i in range(ptr.successors().size()):
+            if seen.insert(ptr.successors()[i].ptr).second:
+                stack.push_back(ptr.successors()[i].ptr)
+    return False
+
+
 cdef class Absolute(ArraySymbol):
     """Absolute value element-wise on a symbol.
 
@@ -2161,6 +2180,14 @@ cdef class NaryAdd(ArraySymbol):
 
     def __iadd__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            if rhs.model is not self.model:
+                raise ValueError("all predecessors must be from the same model")
+            if self.model.is_locked():
+                raise ValueError("cannot modify a symbol of a locked model")
+            if _depends_on(rhs, self):
+                # cannot be done in place, it would create a cycle
+                return super().__iadd__(rhs)
+
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
@@ -2317,6 +2344,14 @@ cdef class NaryMultiply(ArraySymbol):
 
     def __imul__(self, rhs):
         if isinstance(rhs, ArraySymbol):
+            if rhs.model is not self.model:
+                raise ValueError("all predecessors must be from the same model")
+            if self.model.is_locked():
+                raise ValueError("cannot modify a symbol of a locked model")
+            if _depends_on(rhs, self):
+                # cannot be done in place, it would create a cycle
+                return super().__imul__(rhs)
+
             self.ptr.add_node((<ArraySymbol>rhs).array_ptr)
             return self
 
-- 
2.43.0


From 1e1a2946f637a76b9c9e97963f6114e063f303d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 22/51] fix: minimize() of a dynamically sized symbol adds no
 symbol to the model

---
 dwave/optimization/_model.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 42bade1..6062eb1 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -456,6 +456,9 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.array_ptr.dynamic():
+            # note that .size() would add a symbol to the model
+            raise ValueError("the value of an array with a dynamic size is ambiguous")
         if value.size() < 1:
             raise ValueError("the value of an empty array is ambiguous")
         if value.size() > 1:
-- 
2.43.0


From 4585f0bc7e3737d46c6b34ee3922dd84a4de7425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 23/51] fix: a[x, :][:, x] accepts index arrays that are not
 list variables

---
 dwave/optimization/symbols.pyx | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 8e31083..aec8629 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -497,7 +497,7 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [x, :][:, x] case
             if (isinstance(i0, slice) and _empty_slice(i0) and
-                    isinstance(i1, ArraySymbol) and
+                    isinstance(i1, ListVariable) and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[0]) and
                     get[cppArrayNodePtr](self.ptr.indices()[0]) == (<ArraySymbol>i1).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[1])):
@@ -506,7 +506,7 @@ cdef class AdvancedIndexing(ArraySymbol):
 
             # check the [:, x][x, :] case
             if (isinstance(i1, slice) and _empty_slice(i1) and
-                    isinstance(i0, ArraySymbol) and
+                    isinstance(i0, ListVariable) and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[1]) and
                     get[cppArrayNodePtr](self.ptr.indices()[1]) == (<ArraySymbol>i0).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[0])):
-- 
2.43.0


From 471363c0d6dd3ace03a8e3646112e933ace7fe7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:56 +0000
Subject: [PATCH 24/51] fix: QuadraticModel refuses coordinates without exactly
 two rows

---
 dwave/optimization/symbols.pyx | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index aec8629..29c9312 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2639,6 +2639,9 @@ cdef class QuadraticModel(ArraySymbol):
         cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
         cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
+        if coords.shape[0] != 2:
+            raise ValueError("coords must have a row and a column for each interaction")
+
         if data.shape[0] != coords.shape[1]:
             # SciPy's error message
             raise ValueError("row, column, and data array must all be the same length")
-- 
2.43.0


From 0a86f94f3b86ebb93651fc352a96a6251cd23ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:22 +0000
Subject: [PATCH 25/51] fix: QuadraticModel without interactions can be
 serialized

---
 dwave/optimization/symbols.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 29c9312..146bcf6 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -2788,7 +2788,8 @@ cdef class QuadraticModel(ArraySymbol):
             coords[1, i] = i
 
         # this works because each row of coords is contiguous!
-        qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
+        if num_terms > num_variables:
+            qm.get_quadratic(&coords[0, num_variables], &coords[1, num_variables], &qdata[num_variables])
 
         with zf.open(directory + "linear.npy", mode="w", force_zip64=True) as f:
             np.save(f, ldata, allow_pickle=False)
-- 
2.43.0


From d8d3019dccdb3984a52fa243874da059d36cff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:43 +0000
Subject: [PATCH 26/51] fix: unset states of disjoint sets and lists can be
 loaded from a file

---
 dwave/optimization/symbols.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 146bcf6..b017b17 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1193,6 +1193,10 @@ cdef class DisjointBitSets(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(sets))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # the state data can be sparse, only initialized states are saved
+        if directory + "set0" not in zf.NameToInfo:
+            return
+
         arrays = []
         for i in range(self.num_disjoint_sets()):
             with zf.open(directory+f"set{i}", mode="r") as f:
@@ -1446,6 +1450,10 @@ cdef class DisjointLists(Symbol):
         self.ptr.initialize_state((<States>self.model.states)._states[index], move(items))
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
+        # the state data can be sparse, only initialized states are saved
+        if directory + "list0" not in zf.NameToInfo:
+            return
+
         arrays = []
         for i in range(self.num_disjoint_lists()):
             with zf.open(directory+f"list{i}", mode="r") as f:
-- 
2.43.0


From 3acfa984c007f82e2a65926bba5763ec9aa5022a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:43 +0000
Subject: [PATCH 27/51] fix: from_file() passes check_header on when given a
 file name

---
 dwave/optimization/_model.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 6062eb1..6e85627 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -128,7 +128,7 @@ cdef class _Graph:
 
         if isinstance(file, str):
             with open(file, "rb") as f:
-                return cls.from_file(f)
+                return cls.from_file(f, check_header=check_header)
 
         prefix = b"DWNL"
 
-- 
2.43.0


From 8161feef06c8f7d0157c94aa881983d6362a7782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:04 +0000
Subject: [PATCH 28/51] fix: States.from_file() compares the decisions, in any
 order of the other symbols

---
 dwave/optimization/states.pyx | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index c05760e..1f8adb3 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -164,9 +164,11 @@ cdef class States:
         cdef States states = model.states
 
         # Check that the model is compatible
-        for n0, n1 in zip(model.iter_symbols(), self._model().iter_symbols()):
+        if model.num_decisions() > self._model().num_decisions():
+            raise ValueError("cannot load states into a model with mismatched decisions")
+        for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
             # todo: replace with proper node quality testing once we have it
-            if not isinstance(n0, type(n1)):
+            if not n0.maybe_equals(n1):
                 raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
-- 
2.43.0


From 05b5ca03cdc919a86258b128a965ae59fca2542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:38 +0000
Subject: [PATCH 29/51] fix: minimize() and add_constraint() refuse symbols of
 another model

---
 dwave/optimization/_model.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 6e85627..37b4e9a 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -88,6 +88,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         # TODO: shall we accept array valued constraints?
         self._graph.add_constraint(value.array_ptr)
         return value
@@ -456,6 +458,8 @@ cdef class _Graph:
         """
         if value is None:
             raise ValueError("value cannot be None")
+        if value.model is not self:
+            raise ValueError("value must be a symbol of this model")
         if value.array_ptr.dynamic():
             # note that .size() would add a symbol to the model
             raise ValueError("the value of an array with a dynamic size is ambiguous")
-- 
2.43.0


From 9e56706f5cb84c5c2d02e83217017da9ca9d6538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:39 +0000
Subject: [PATCH 30/51] fix: partial reductions refuse an axis out of range
 before using it

---
 dwave/optimization/src/nodes/mathematical.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 20cd4d3..f54132b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -776,6 +776,9 @@ template class NaryOpNode<std::plus<double>>;
 // PartialReduceNode *****************************************************************
 std::vector<ssize_t> partial_reduce_shape(const std::span<const ssize_t> input_shape,
                                           const ssize_t axis) {
+    if (axis < 0 || axis >= static_cast<ssize_t>(input_shape.size())) {
+        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
+    }
     std::vector<ssize_t> shape(input_shape.begin(), input_shape.end());
     shape.erase(shape.begin() + axis);
     return shape;
@@ -823,10 +826,6 @@ PartialReduceNode<BinaryOp>::PartialReduceNode(ArrayNode* node_ptr, std::span<co
     }
 
     assert(this->ndim() == array_ptr_->ndim() - 1);
-    ssize_t axis = axes_[0];
-    if (axis < 0 || axis >= array_ptr_->ndim()) {
-        throw std::invalid_argument("Axes should be integers between 0 and n_dim - 1");
-    }
 
     add_predecessor(node_ptr);
 }
-- 
2.43.0


From e5acef429715cee7b5890d1877e6b99f0eee8fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:39 +0000
Subject: [PATCH 31/51] fix: a slice with a step of zero raises instead of
 aborting the process

---
 dwave/optimization/libcpp/array.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/libcpp/array.pxd b/dwave/optimization/libcpp/array.pxd
index abea195..d9dd552 100644
--- a/dwave/optimization/libcpp/array.pxd
+++ b/dwave/optimization/libcpp/array.pxd
@@ -54,7 +54,7 @@ cdef extern from "dwave-optimization/array.hpp" namespace "dwave::optimization"
         Slice()
         Slice(optional[Py_ssize_t] stop)
         Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop)
-        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step)
+        Slice(optional[Py_ssize_t] start, optional[Py_ssize_t] stop, optional[Py_ssize_t] step) except+
 
         Py_ssize_t start
         Py_ssize_t stop
-- 
2.43.0


From 6c4341f57d7a4aa9dded54be1e0091e972c525c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:39 +0000
Subject: [PATCH 32/51] fix: __all__ of symbols only lists classes that exist

---
 dwave/optimization/symbols.pyx | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index b017b17..25c7bf8 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -109,7 +109,6 @@ __all__ = [
     "AdvancedIndexing",
     "BasicIndexing",
     "BinaryVariable",
-    "_CombinedIndexing",
     "Concatenate",
     "Constant",
     "DisjointBitSets",
-- 
2.43.0


From bf7479289eb3efa93d07749afafd705458054537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:14 +0000
Subject: [PATCH 33/51] fix: a[x, :][:, x] accepts a list shorter than the
 array

---
 dwave/optimization/symbols.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 25c7bf8..abe7242 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -497,6 +497,7 @@ cdef class AdvancedIndexing(ArraySymbol):
             # check the [x, :][:, x] case
             if (isinstance(i0, slice) and _empty_slice(i0) and
                     isinstance(i1, ListVariable) and
+                    i1.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[0]) and
                     get[cppArrayNodePtr](self.ptr.indices()[0]) == (<ArraySymbol>i1).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[1])):
@@ -506,6 +507,7 @@ cdef class AdvancedIndexing(ArraySymbol):
             # check the [:, x][x, :] case
             if (isinstance(i1, slice) and _empty_slice(i1) and
                     isinstance(i0, ListVariable) and
+                    i0.shape() == array.shape()[:1] and
                     holds_alternative[cppArrayNodePtr](self.ptr.indices()[1]) and
                     get[cppArrayNodePtr](self.ptr.indices()[1]) == (<ArraySymbol>i0).array_ptr and
                     holds_alternative[cppSlice](self.ptr.indices()[0])):
-- 
2.43.0


From 84273dde2c34eaa3d60d73252562e02dfd718e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:34 +0000
Subject: [PATCH 34/51] fix: shares_memory(None) returns False instead of
 crashing

---
 dwave/optimization/_model.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 37b4e9a..4beabdf 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1014,6 +1014,8 @@ cdef class Symbol:
             other_ = other
         except TypeError:
             return False
+        if other_ is None:
+            return False
         return not self.expired() and self.id() == other_.id()
 
     def _state_from_zipfile(self, zf, directory, Py_ssize_t state_index):
-- 
2.43.0


From 86f267cd5af8cb51c5bcc8286c7ab709714cd9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:34 +0000
Subject: [PATCH 35/51] fix: None in place of a symbol or a model raises
 instead of crashing

---
 dwave/optimization/_model.pyx  | 2 ++
 dwave/optimization/symbols.pyx | 1 +
 2 files changed, 3 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 4beabdf..30281db 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -1,3 +1,5 @@
+# cython: nonecheck=True
+
 # Copyright 2024 D-Wave Inc.
 #
 #    Licensed under the Apache License, Version 2.0 (the "License");
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index abe7242..305caf8 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -1,4 +1,5 @@
 # distutils: language = c++
+# cython: nonecheck=True
 
 # Copyright 2024 D-Wave Systems Inc.
 #
-- 
2.43.0


From 4a3fabbb9548ba9a03b3a1ee1e425ecda2416243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:47 +0000
Subject: [PATCH 36/51] fix: models with dynamically sized unary operations or
 where() can be serialized

---
 .../include/dwave-optimization/nodes/flow.hpp      |  1 +
 .../dwave-optimization/nodes/mathematical.hpp      |  1 +
 dwave/optimization/src/nodes/flow.cpp              | 14 ++++++++++++++
 dwave/optimization/src/nodes/mathematical.cpp      |  5 +++++
 4 files changed, 21 insertions(+)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
index 5004cb7..439e3c5 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/flow.hpp
@@ -44,6 +44,7 @@ class WhereNode : public ArrayOutputMixin<ArrayNode> {
     using Array::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
  private:
     // these are redundant, but convenient
diff --git a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
index 6e453ef..62fe755 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/mathematical.hpp
@@ -346,6 +346,7 @@ class UnaryOpNode : public ArrayOutputMixin<ArrayNode> {
     using ArrayOutputMixin::size;
     ssize_t size(const State& state) const override;
     ssize_t size_diff(const State& state) const override;
+    SizeInfo sizeinfo() const override;
 
     void commit(State& state) const override;
     void revert(State& state) const override;
diff --git a/dwave/optimization/src/nodes/flow.cpp b/dwave/optimization/src/nodes/flow.cpp
index 73d527f..e986a1c 100644
--- a/dwave/optimization/src/nodes/flow.cpp
+++ b/dwave/optimization/src/nodes/flow.cpp
@@ -258,4 +258,18 @@ ssize_t WhereNode::size_diff(const State& state) const {
     return data_ptr<WhereNodeData>(state)->size_diff();
 }
 
+SizeInfo WhereNode::sizeinfo() const {
+    if (!this->dynamic()) return SizeInfo(this->size());
+    if (x_ptr_ == y_ptr_) return SizeInfo(x_ptr_);
+
+    // we switch between the sizes of `x` and `y`
+    const SizeInfo x = x_ptr_->sizeinfo().substitute(100);  // magic number
+    const SizeInfo y = y_ptr_->sizeinfo().substitute(100);
+
+    SizeInfo sizeinfo(this);
+    if (x.min && y.min) sizeinfo.min = std::min(*x.min, *y.min);
+    if (x.max && y.max) sizeinfo.max = std::max(*x.max, *y.max);
+    return sizeinfo;
+}
+
 }  // namespace dwave::optimization
diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index f54132b..9a38182 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1932,6 +1932,11 @@ ssize_t UnaryOpNode<UnaryOp>::size_diff(const State& state) const {
     return data_ptr<ArrayNodeStateData>(state)->size_diff();
 }
 
+template <class UnaryOp>
+SizeInfo UnaryOpNode<UnaryOp>::sizeinfo() const {
+    return dynamic() ? SizeInfo(array_ptr_) : SizeInfo(size());
+}
+
 template class UnaryOpNode<functional::abs<double>>;
 template class UnaryOpNode<functional::logical<double>>;
 template class UnaryOpNode<functional::square<double>>;
-- 
2.43.0


From c854ba9e85d896518fc0c239f048e94a48960738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:19 +0000
Subject: [PATCH 37/51] fix: BasicIndexing of arrays without elements or with
 empty slices can be serialized

---
 .../dwave-optimization/nodes/indexing.hpp     |  3 +
 dwave/optimization/src/nodes/indexing.cpp     | 66 ++++---------------
 2 files changed, 14 insertions(+), 55 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
index 751751a..b682e97 100644
--- a/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
+++ b/dwave/optimization/include/dwave-optimization/nodes/indexing.hpp
@@ -255,6 +255,9 @@ class BasicIndexingNode : public ArrayNode {
     // is dynamic
     const std::optional<Slice> axis0_slice_;
 
+    // The indices, fitted to the shape of the array except for a dynamic axis
+    const std::vector<slice_or_int> indices_;
+
     const bool contiguous_;
 };
 
diff --git a/dwave/optimization/src/nodes/indexing.cpp b/dwave/optimization/src/nodes/indexing.cpp
index 64a71a5..a7f24eb 100644
--- a/dwave/optimization/src/nodes/indexing.cpp
+++ b/dwave/optimization/src/nodes/indexing.cpp
@@ -999,6 +999,7 @@ struct BasicIndexingNode::IndexParser_ {
                     this->strides[view_dim] = slice.step * array_strides[array_dim];
 
                     this->axis0_slice = slice;
+                    this->indices.emplace_back(slice);
 
                     // Skip start for dynamic axis 0 as it will be adjusted later with
                     // the predecessor's state
@@ -1021,6 +1022,10 @@ struct BasicIndexingNode::IndexParser_ {
                     // of bytes, so we have to be careful
                     // We
                     this->start += fitted.start * array_strides[array_dim] / array_ptr->itemsize();
+
+                    const ssize_t stop = fitted.start + this->shape[view_dim] * fitted.step;
+                    this->indices.emplace_back(
+                            Slice(fitted.start, stop, fitted.step).fit(array_shape[array_dim]));
                 }
 
                 ++view_dim;
@@ -1045,6 +1050,7 @@ struct BasicIndexingNode::IndexParser_ {
                 // Integer indices only affect the start, they drop the dimension
                 // so there is no strides/shape to worry about for this axis
                 this->start += idx * array_strides[array_dim] / array_ptr->itemsize();
+                this->indices.emplace_back(idx);
             }
 
             ++array_dim;  // we are always stepping through the array
@@ -1058,6 +1064,9 @@ struct BasicIndexingNode::IndexParser_ {
     ssize_t start = 0;
 
     std::optional<Slice> axis0_slice;
+
+    // the (fitted) indices
+    std::vector<slice_or_int> indices;
 };
 
 BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, std::vector<slice_or_int> indices)
@@ -1071,6 +1080,7 @@ BasicIndexingNode::BasicIndexingNode(ArrayNode* array_ptr, IndexParser_&& parser
           start_(parser.start),
           size_(Array::shape_to_size(ndim_, shape_.get())),
           axis0_slice_(parser.axis0_slice),
+          indices_(std::move(parser.indices)),
           contiguous_(Array::is_contiguous(ndim_, shape_.get(), strides_.get())) {
     add_predecessor(array_ptr);
 }
@@ -1148,61 +1158,7 @@ std::span<const Update> BasicIndexingNode::diff(const State& state) const {
 }
 
 std::vector<BasicIndexingNode::slice_or_int> BasicIndexingNode::infer_indices() const {
-    std::vector<slice_or_int> indices;
-
-    ssize_t view_dim = 0;
-    const ssize_t view_ndim = this->ndim();
-
-    ssize_t array_dim = 0;
-    const ssize_t array_ndim = array_ptr_->ndim();
-
-    if (dynamic()) {
-        indices.emplace_back(*axis0_slice_);
-
-        view_dim += 1;
-        array_dim += 1;
-    }
-
-    auto array_strides = array_ptr_->strides();
-    auto view_strides = this->strides();
-
-    auto array_shape = array_ptr_->shape();
-    auto view_shape = this->shape();
-
-    ssize_t flat_start = start_;
-
-    // we don't currently have support for views with a greater number of dimensions
-    // than their viewed array. Once we do, the logic here will need to be revisted
-    assert(view_ndim <= array_ndim && "not implemented yet");
-    if (view_ndim > array_ndim) throw std::logic_error("not implemented (yet)");
-
-    // ok, let's traverse the remaining dimensions to find the strides
-    for (; array_dim < array_ndim; ++array_dim) {
-        // calculate the start of this dimension.
-        const ssize_t num_per_row = array_strides[array_dim] / itemsize();
-        const ssize_t start = flat_start / num_per_row;
-        flat_start %= num_per_row;
-
-        if (view_dim >= view_ndim || view_strides[view_dim] < array_strides[array_dim]) {
-            // The strides are smaller in the view, or not present at all, which
-            // means we have a constant index.
-            assert(view_ndim < array_ndim);
-            indices.emplace_back(start);
-
-        } else {
-            // Otherwise we must be a slice
-            assert(view_dim < view_ndim);  // still within range
-
-            const ssize_t step = view_strides[view_dim] / array_strides[array_dim];
-            const ssize_t stop = start + view_shape[view_dim] * step;
-            Slice slice = Slice(start, stop, step).fit(array_shape[array_dim]);
-            indices.emplace_back(slice);
-
-            ++view_dim;
-        }
-    }
-
-    return indices;
+    return indices_;
 }
 
 void BasicIndexingNode::initialize_state(State& state) const {
-- 
2.43.0


From ec25874892dd85ebe99a1e6f29d0f0c7156a8ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:08 +0000
Subject: [PATCH 38/51] fix: abs() of a list over an empty range has bounds

---
 dwave/optimization/src/nodes/mathematical.cpp | 23 ++++---------------
 1 file changed, 4 insertions(+), 19 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 9a38182..8d2d0ce 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1792,20 +1792,8 @@ bool UnaryOpNode<UnaryOp>::integral() const {
 
 template <>
 double UnaryOpNode<functional::abs<double>>::max() const {
-    const double max = array_ptr_->max();
-    const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
-
-    if (min >= 0 && max >= 0) {
-        return max;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
-    } else if (max >= 0) {
-        return std::max<double>(max, -min);
-    } else {
-        return -min;
-    }
+    // lists and sets over an empty range have min() > max(), so we cannot rely on the order
+    return std::max<double>(std::abs(array_ptr_->min()), std::abs(array_ptr_->max()));
 }
 template <>
 double UnaryOpNode<std::negate<double>>::max() const {
@@ -1843,13 +1831,10 @@ template <>
 double UnaryOpNode<functional::abs<double>>::min() const {
     const double max = array_ptr_->max();
     const double min = array_ptr_->min();
-    assert(min <= max && "min > max");
 
-    if (min >= 0 && max >= 0) {
+    // lists and sets over an empty range have min() > max(), so we cannot rely on the order
+    if (min >= 0) {
         return min;
-    } else if (min >= 0) {
-        assert(false && "min > max");
-        unreachable();
     } else if (max >= 0) {
         return 0;
     } else {
-- 
2.43.0


From 7c9e7919a9304b39e8bca57d11b7d6e8263ca83f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:20 +0000
Subject: [PATCH 39/51] fix: the CVRPTW objective uses the distances in the
 direction of travel

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2948659..88875ae 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -646,7 +646,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
     for r in range(number_of_vehicles):
         route_costs.append(t_from_depo[routes[r][:1]].sum())
         route_costs.append(t_to_depo[routes[r][-1:]].sum())
-        route_costs.append(t_cust[routes[r][1:], routes[r][:-1]].sum())
+        route_costs.append(t_cust[routes[r][:-1], routes[r][1:]].sum())
 
     model.minimize(add(*route_costs))
 
-- 
2.43.0


From 6944f917363e3ad3d585d284a1d6ada1d9440086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 40/51] fix: the CVRPTW generator works for every number of
 vehicles

---
 dwave/optimization/generators.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 88875ae..0be2e5a 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -581,7 +581,9 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         num_clients_in_route[f'route{i}'] = routes[i].size()
 
     # Constrain the number of locations per route
-    max_loc_per_route_constant = model.constant(3 * int(num_customers / number_of_vehicles))
+    # (at least one, also when there are more vehicles than customers)
+    max_loc_per_route = 3 * max(1, num_customers // number_of_vehicles)
+    max_loc_per_route_constant = model.constant(max_loc_per_route)
     max_loc_per_route_constraints = [(num_clients_in_route[f'route{v}'] <= max_loc_per_route_constant)
                                      for v in range(number_of_vehicles)]
     for mlpr in max_loc_per_route_constraints:
@@ -599,7 +601,8 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
         this_t_windows_c = []
         this_t_serving_time = []
 
-        for client_idx in range(max_loc_per_route_constant):
+        # no route is longer than the number of customers
+        for client_idx in range(min(max_loc_per_route, num_customers + 1)):
 
             # the condition here allows us to choose whether to choose a used index or to fall back to the last one
             # that points to a zero in the extended array
-- 
2.43.0


From d761465ab7883dc740be106f2571437906c5f567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 41/51] fix: CVRPTW routes may end after 1e6 when the time
 windows do

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 0be2e5a..2724950 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -547,7 +547,7 @@ def capacitated_vehicle_routing_with_time_windows(demand: numpy.typing.ArrayLike
 
     time_close_ext = np.zeros(num_customers + 1)
     time_close_ext[:num_customers] = time_window_close[1:]
-    time_close_ext[-1] = 1e6
+    time_close_ext[-1] = max(1e6, time_close_ext.max())
     t_close = model.constant(time_close_ext)
 
     service_time_ext = np.zeros(num_customers + 1)
-- 
2.43.0


From 8fd5dd2538edbdafc91be6e72825dff52e68e2cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:16 +0000
Subject: [PATCH 42/51] fix: job_shop_scheduling() does not modify the caller's
 machines

---
 dwave/optimization/generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 2724950..54e73e9 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -818,7 +818,7 @@ def job_shop_scheduling(times: numpy.typing.ArrayLike, machines: numpy.typing.Ar
         # In that case we reindex to 0. This is OK because we know from our earlier
         # checking that we're non-negative, so combined with .all() we must be
         # strictly positive
-        machines -= 1
+        machines = machines - 1  # not in-place, it may be the caller's array
 
         # the validity will be checked in the next for-loop
 
-- 
2.43.0


From b48dae403867faf93c47a8bee1d8df7316bc1dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 43/51] fix: flow_shop_scheduling() does not add later
 machines' times to earlier end times

---
 dwave/optimization/generators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 54e73e9..22353be 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -733,8 +733,8 @@ def flow_shop_scheduling(processing_times: numpy.typing.ArrayLike) -> Model:
 
             for job_j in range(num_jobs):
                 if job_j == 0:
-                    end_job_j = end_times[machine_m - 1][job_j]
-                    end_job_j += times[machine_m, :][order[job_j]]
+                    # a new symbol, += might extend the previous machine's end time in-place
+                    end_job_j = end_times[machine_m - 1][job_j] + times[machine_m, :][order[job_j]]
                     machine_m_times.append(end_job_j)
                 else:
                     end_job_j = maximum(end_times[machine_m - 1][job_j], machine_m_times[-1])
-- 
2.43.0


From ae3617a976926060d63dda84414fa1985ae7b37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 44/51] fix: deduplicate_diff() drops updates that cancel out
 and stays within the diff

---
 dwave/optimization/src/utils.cpp | 58 ++++++--------------------------
 1 file changed, 11 insertions(+), 47 deletions(-)

diff --git a/dwave/optimization/src/utils.cpp b/dwave/optimization/src/utils.cpp
index e2ff43d..4e5c695 100644
--- a/dwave/optimization/src/utils.cpp
+++ b/dwave/optimization/src/utils.cpp
@@ -25,56 +25,20 @@ void deduplicate_diff(std::vector<Update>& diff) {
 
     std::stable_sort(diff.begin(), diff.end());
 
-    // Find the index of first non-noop Update. If there are none, leave it as -1
-    // to represent no final updates.
-    ssize_t new_index = -1;
-    for (size_t i = 0; i < diff.size(); ++i) {
-        if (!diff[i].identity()) {
-            new_index = i;
-            break;
+    // Merge the updates of each index into the first one, and keep it unless it ended up as a
+    // noop or the index was added and then removed.
+    auto out = diff.begin();
+    for (auto it = diff.cbegin(), end = diff.cend(); it != end;) {
+        Update merged = *it;
+        for (++it; it != end && it->index == merged.index; ++it) {
+            merged.value = it->value;
         }
+        if (merged.identity() || merged.null()) continue;
+        *out = merged;
+        ++out;
     }
-    ssize_t start = 1;
-    if (new_index > 0) {
-        assert(new_index < static_cast<ssize_t>(diff.size()));
-        // Move the first non-noop update into the first spot
-        diff[0] = diff[new_index];
-        start = new_index + 1;
-        new_index = 0;
-    }
-
-    if (new_index >= 0) {
-        for (size_t i = start; i < diff.size(); ++i) {
-            if (diff[i].index == diff[new_index].index) {
-                diff[new_index].value = diff[i].value;
-            } else if (diff[new_index].null()) {
-                // We have finished processing the update at that index, but both the
-                // old and new value are NaN which means it was added and then deleted,
-                // and should be discarded.
-                // At this point we are done because all updates at following indices
-                // should also have been added and deleted.
-                new_index--;
-                break;
-            } else if (!diff[i].identity()) {
-                // Move to the next update only if the final state of the update is not a noop
-                new_index++;
-                diff[new_index] = diff[i];
-            }
-        }
-
-        // In case the very last value is a place and removal, discard it
-        if (diff[new_index].null()) {
-            new_index--;
-        }
-    }
-
-    assert(new_index >= -1);
-    assert(new_index + 1 <= static_cast<ssize_t>(diff.size()));
 
-    // Shrink the final diff array if necessary. Since this is always reszing smaller,
-    // the value passed to resize doesn't matter (just to avoid implementing a
-    // construct_at method for Update)
-    diff.resize(new_index + 1, Update::placement(-666, 666));
+    diff.erase(out, diff.end());
 }
 
 bool is_integer(const double& value) {
-- 
2.43.0


From 6307adca45cbea7ed183992f3dce7981c510b14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:54 +0000
Subject: [PATCH 45/51] fix: the distance between strided array iterators does
 not move them

---
 dwave/optimization/include/dwave-optimization/array.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/include/dwave-optimization/array.hpp b/dwave/optimization/include/dwave-optimization/array.hpp
index 73d3462..a19ea7f 100644
--- a/dwave/optimization/include/dwave-optimization/array.hpp
+++ b/dwave/optimization/include/dwave-optimization/array.hpp
@@ -452,8 +452,8 @@ class Array {
             difference_type offset = 0;
             ssize_t incs_per_step = 1;  // for each step in the axis how many increment operations
             {
-                ssize_t* target_loc = a.shape_->loc.get();
-                ssize_t* source_loc = b.shape_->loc.get();
+                ssize_t* target_loc = target.shape_->loc.get();
+                ssize_t* source_loc = source.shape_->loc.get();
 
                 for (ssize_t axis = shapeinfo.ndim - 1; axis > 0; --axis) {
                     const ssize_t stride = shapeinfo.strides[axis] / itemsize;
-- 
2.43.0


From f110f4be2d1df6dcd80e4cc09e29bdeb6def2145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:17 +0000
Subject: [PATCH 46/51] fix: equals() compares the parameters of symbols

x[0].equals(x[1]), y.sum(axis=0).equals(y.sum(axis=1)), disjoint sets with
different indices and integers with different bounds were reported equal.
---
 dwave/optimization/_model.pyx  |  9 +++++++
 dwave/optimization/symbols.pyx | 47 ++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/dwave/optimization/_model.pyx b/dwave/optimization/_model.pyx
index 30281db..ee9bffa 100644
--- a/dwave/optimization/_model.pyx
+++ b/dwave/optimization/_model.pyx
@@ -707,6 +707,10 @@ cdef class Symbol:
         if maybe != 1:
             return True if maybe else False
 
+        # Symbols like x[0] and x[1] only differ in their parameters
+        if self._parameters() != other._parameters():
+            return False
+
         # todo: caching
         return all(p.equals(q) for p, q in zip(self.iter_predecessors(), other.iter_predecessors()))
 
@@ -956,6 +960,11 @@ cdef class Symbol:
 
         return MAYBE
 
+    def _parameters(self):
+        # What defines the symbol besides its type, predecessors and, for
+        # arrays, shape. Symbols with parameters must overload this method.
+        return ()
+
     def reset_state(self, Py_ssize_t index):
         """Reset the state of a symbol and any successor symbols.
 
diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 305caf8..643ef9f 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -567,6 +567,10 @@ cdef class AdvancedIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def _parameters(self):
+        # the axes that are indexed by arrays
+        return [holds_alternative[cppArrayNodePtr](variant) for variant in self.ptr.indices()]
+
     cdef cppAdvancedIndexingNode* ptr
 
 _register(AdvancedIndexing, typeid(cppAdvancedIndexingNode))
@@ -670,6 +674,9 @@ cdef class BasicIndexing(ArraySymbol):
 
         zf.writestr(directory + "indices.json", encoder.encode(indices))
 
+    def _parameters(self):
+        return self._infer_indices()
+
     cdef cppBasicIndexingNode* ptr
 
 _register(BasicIndexing, typeid(cppBasicIndexingNode))
@@ -1160,6 +1167,9 @@ cdef class DisjointBitSets(Symbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _parameters(self):
+        return (self.ptr.primary_set_size(), self.ptr.num_disjoint_sets())
+
     def set_state(self, Py_ssize_t index, state):
         r"""Set the state of the disjoint-sets symbol.
 
@@ -1323,6 +1333,9 @@ cdef class DisjointBitSet(ArraySymbol):
         """Return the index for the set."""
         return self.ptr.set_index()
 
+    def _parameters(self):
+        return (self.set_index(),)
+
     # An observing pointer to the C++ DisjointBitSetNode
     cdef cppDisjointBitSetNode* ptr
 
@@ -1420,6 +1433,9 @@ cdef class DisjointLists(Symbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _parameters(self):
+        return (self.ptr.primary_set_size(), self.ptr.num_disjoint_lists())
+
     def set_state(self, Py_ssize_t index, state):
         r"""Set the state of the disjoint-lists symbol.
 
@@ -1580,6 +1596,9 @@ cdef class DisjointList(ArraySymbol):
         """Return the index for the list."""
         return self.ptr.list_index()
 
+    def _parameters(self):
+        return (self.list_index(),)
+
     # An observing pointer to the C++ DisjointListNode
     cdef cppDisjointListNode* ptr
 
@@ -1730,6 +1749,9 @@ cdef class IntegerVariable(ArraySymbol):
         """The lowest value allowed for the integer symbol."""
         return int(self.ptr.lower_bound())
 
+    def _parameters(self):
+        return (self.lower_bound(), self.upper_bound())
+
     def set_state(self, Py_ssize_t index, state):
         """Set the state of the integer node.
 
@@ -2508,6 +2530,9 @@ cdef class PartialSum(ArraySymbol):
         encoder = json.JSONEncoder(separators=(',', ':'))
         zf.writestr(directory + "axes.json", encoder.encode(self.axes()))
 
+    def _parameters(self):
+        return self.axes()
+
     cdef cppPartialSumNode* ptr
 
 _register(PartialSum, typeid(cppPartialSumNode))
@@ -2818,6 +2843,24 @@ cdef class QuadraticModel(ArraySymbol):
         """The number of variables in the quadratic model."""
         return self.ptr.get_quadratic_model().num_variables()
 
+    def _parameters(self):
+        cdef Py_ssize_t num_variables = self.num_variables()
+        cdef Py_ssize_t num_interactions = self.num_interactions()
+        cdef double[::1] data = np.empty(num_interactions, dtype=np.double)
+        cdef int[:,::1] coords = np.empty((2, num_interactions), dtype=np.intc)
+
+        cdef cppQuadraticModel* qm = self.ptr.get_quadratic_model()
+
+        if num_interactions > 0:
+            qm.get_quadratic(&coords[0, 0], &coords[1, 0], &data[0])
+
+        cdef Py_ssize_t i
+        return (
+            [qm.get_linear(i) for i in range(num_variables)],
+            [qm.get_quadratic(i, i) for i in range(num_variables)],
+            {(coords[0, i], coords[1, i]): data[i] for i in range(num_interactions) if data[i]},
+        )
+
     cdef cppQuadraticModelNode* ptr
 
 _register(QuadraticModel, typeid(cppQuadraticModelNode))
@@ -2938,6 +2981,10 @@ cdef class SetVariable(ArraySymbol):
 
         zf.writestr(directory + "shape.json", encoder.encode(shape_info))
 
+    def _parameters(self):
+        cdef cppSizeInfo sizeinfo = self.ptr.sizeinfo()
+        return (self.ptr.max(), sizeinfo.min.value(), sizeinfo.max.value())
+
     def set_state(self, Py_ssize_t index, state):
         """Set the state of the set node.
 
-- 
2.43.0


From 7cbbb0d0582a4bb16e23a0bf40151039120c1cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:17 +0000
Subject: [PATCH 47/51] fix: refuse to load states into decisions with another
 domain

States.from_file() only compared the types and shapes of the decisions, so
that decisions could get values outside of their domain, and disjoint lists
or sets of another size caused out of bounds accesses.
---
 dwave/optimization/states.pyx | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dwave/optimization/states.pyx b/dwave/optimization/states.pyx
index 1f8adb3..fddab9f 100644
--- a/dwave/optimization/states.pyx
+++ b/dwave/optimization/states.pyx
@@ -167,8 +167,7 @@ cdef class States:
         if model.num_decisions() > self._model().num_decisions():
             raise ValueError("cannot load states into a model with mismatched decisions")
         for n0, n1 in zip(model.iter_decisions(), self._model().iter_decisions()):
-            # todo: replace with proper node quality testing once we have it
-            if not n0.maybe_equals(n1):
+            if not n0.equals(n1):
                 raise ValueError("cannot load states into a model with mismatched decisions")
 
         self.attach_states(move(states.detach_states()))
-- 
2.43.0


From 9812b55cdf78f2a4e8b19b88712ab1683980b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:55 +0000
Subject: [PATCH 48/51] fix: accept read-only arrays

Constants, quadratic models and the states of lists, sets and disjoint
lists/sets could not be given as read-only NumPy arrays, and
_from_constrained_quadratic_model() failed for all quadratic expressions.
---
 dwave/optimization/symbols.pyx | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/dwave/optimization/symbols.pyx b/dwave/optimization/symbols.pyx
index 643ef9f..937c384 100644
--- a/dwave/optimization/symbols.pyx
+++ b/dwave/optimization/symbols.pyx
@@ -899,10 +899,10 @@ cdef class Constant(ArraySymbol):
         cdef vector[Py_ssize_t] strides = array.strides  # not used because contiguous for now
 
         # Get a pointer to the first element
-        cdef double[:] flat = array.ravel()
+        cdef const double[:] flat = array.ravel()
         cdef double* start = NULL
         if flat.size:
-            start = &flat[0]
+            start = <double*>&flat[0]  # the node does not write to its data
 
         # Get an observing pointer to the C++ ConstantNode
         self.ptr = model._graph.emplace_node[cppConstantNode](start, shape)
@@ -1190,7 +1190,7 @@ cdef class DisjointBitSets(Symbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef bool[:, :] arr = np.asarray(state, dtype=np.bool_)
+        cdef const bool[:, :] arr = np.asarray(state, dtype=np.bool_)
 
         # Convert to a vector. We could skip this copy if it ever becomes
         # a performance bottleneck
@@ -1456,7 +1456,7 @@ cdef class DisjointLists(Symbol):
         cdef vector[vector[double]] items
         items.resize(len(state))
         cdef Py_ssize_t i, j
-        cdef Py_ssize_t[:] arr
+        cdef const Py_ssize_t[:] arr
         for i in range(len(state)):
             items[i].reserve(len(state[i]))
             # Convert to a numpy array for type checking, coercion, etc.
@@ -1885,7 +1885,7 @@ cdef class ListVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Reset our state, and check whether that's possible
         self.reset_state(index)
@@ -2659,7 +2659,7 @@ cdef class QuadraticModel(ArraySymbol):
         if linear is None:
             linear = []
         # Let NumPy handle type checking
-        cdef double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
+        cdef const double[::1] ldata = np.ascontiguousarray(linear, dtype=np.double)
 
         if ldata.shape[0] > num_variables:
             raise ValueError("linear index out of range of x")
@@ -2671,8 +2671,8 @@ cdef class QuadraticModel(ArraySymbol):
         if len(quadratic) != 2:
             raise ValueError("expected a length 2 tuple")
 
-        cdef double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
-        cdef int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
+        cdef const double[::1] data = np.ascontiguousarray(quadratic[0], dtype=np.double)
+        cdef const int[:, ::1] coords = np.ascontiguousarray(np.atleast_2d(quadratic[1]), dtype=np.intc)
 
         if coords.shape[0] != 2:
             raise ValueError("coords must have a row and a column for each interaction")
@@ -2996,7 +2996,7 @@ cdef class SetVariable(ArraySymbol):
         # Convert the state into something we can handle in C++.
         # This also does some type checking etc
         # We go ahead and do the translation to integer now
-        cdef Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
+        cdef const Py_ssize_t[:] arr = np.asarray(state, dtype=np.intp)
 
         # Reset our state, and check whether that's possible
         self.reset_state(index)
-- 
2.43.0


From e942448d125d443cd70ad2d8245abfd21e99de0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:21 +0000
Subject: [PATCH 49/51] fix: refuse to broadcast dynamic arrays to more
 dimensions

---
 dwave/optimization/src/nodes/mathematical.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 8d2d0ce..4e2054b 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -34,7 +34,13 @@ BinaryOpNode<BinaryOp>::BinaryOpNode(ArrayNode* a_ptr, ArrayNode* b_ptr)
     // If one size is a scalar, we also support dynamic arrays.
     // Otherwise both arrays must be the same shape and not be dynamic
     if (lhs_ptr->size() == 1 || rhs_ptr->size() == 1) {
-        // this is allowed
+        // this is allowed, except that only the first axis of an array can be dynamic so a
+        // dynamic array cannot be given additional leading axes
+        if ((lhs_ptr->dynamic() && lhs_ptr->ndim() < rhs_ptr->ndim()) ||
+            (rhs_ptr->dynamic() && rhs_ptr->ndim() < lhs_ptr->ndim())) {
+            throw std::invalid_argument(
+                    "cannot broadcast a dynamic array to a larger number of dimensions");
+        }
     } else if (lhs_ptr->dynamic() || rhs_ptr->dynamic()) {
         throw std::invalid_argument("cannot perform a binary op on two dynamic arrays");
     } else if (!std::ranges::equal(lhs_ptr->shape(), rhs_ptr->shape())) {
-- 
2.43.0


From 3b62c612eca70c4c4fcdc94757065c86b7e5059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:00 +0000
Subject: [PATCH 50/51] fix: products of integers stay integers when an element
 changes

---
 dwave/optimization/src/nodes/mathematical.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dwave/optimization/src/nodes/mathematical.cpp b/dwave/optimization/src/nodes/mathematical.cpp
index 4e2054b..5cceebf 100644
--- a/dwave/optimization/src/nodes/mathematical.cpp
+++ b/dwave/optimization/src/nodes/mathematical.cpp
@@ -1661,8 +1661,10 @@ void ReduceNode<std::multiplies<double>>::propagate(State& state) const {
             nonzero /= update.old;
             num_zero += 1;
         } else {
-            // something else to something else
-            nonzero *= (update.value / update.old);
+            // something else to something else. We divide first because the product is a
+            // multiple of the old value, whereas the quotient of the two is rounded
+            nonzero /= update.old;
+            nonzero *= update.value;
         }
     }
 
-- 
2.43.0


From 12ec3e2ea3a216174af0fb6245a9bc682c34f379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:00 +0000
Subject: [PATCH 51/51] fix: the CVRP generator computes distances with floats
 whatever the coordinates' type

---
 dwave/optimization/generators.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dwave/optimization/generators.py b/dwave/optimization/generators.py
index 22353be..d62880c 100644
--- a/dwave/optimization/generators.py
+++ b/dwave/optimization/generators.py
@@ -335,14 +335,14 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                                  f" be at least 2 when `demand[0]=0`.")
 
             customer_demand = demand[1:]
-            customer_locations_x = locations_x[1:]
-            customer_locations_y = locations_y[1:]
+            customer_locations_x = x[1:]
+            customer_locations_y = y[1:]
 
             if depot_x_y is not None:
                 raise ValueError("`depot_x_y` cannot be provided when "
                                  "`demand[0]` is zero.")
 
-            depot_x_y = np.asarray([locations_x[0], locations_y[0]])
+            depot_x_y = np.asarray([x[0], y[0]])
 
         else:
 
@@ -350,8 +350,8 @@ def capacitated_vehicle_routing(demand: numpy.typing.ArrayLike,
                 raise ValueError("`depot_x_y` must be provided when `demand[0]` is not"
                                  " 0 and `locations_x` and `locations_y` are specified.")
             customer_demand = demand
-            customer_locations_x = locations_x
-            customer_locations_y = locations_y
+            customer_locations_x = x
+            customer_locations_y = y
             depot_x_y = np.asarray([depot_x_y[0], depot_x_y[1]])
 
         customer_locations_x = customer_locations_x - depot_x_y[0]
-- 
2.43.0

