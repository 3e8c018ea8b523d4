From cfafa2663ce9f97b9e267f4b84f8e0c85f912cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:04 +0000
Subject: [PATCH 01/59] fix: contraction hierarchy must ignore arcs with weight
 inf_weight

Shortcut weights of arcs with weight inf_weight overflowed and produced
finite but wrong distances.
---
 src/contraction_hierarchy.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 794c7c6..8be75fe 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -38,7 +38,8 @@ namespace{
 
 			unsigned out = 0;
 			for(unsigned in = 0; in < arc_count; ++in){
-				if(tail[in] != head[in]){
+				// Arcs with weight inf_weight can never be part of a path. Keeping them would make the shortcut weights overflow.
+				if(tail[in] != head[in] && weight[in] < inf_weight){
 					tail[out] = tail[in];
 					head[out] = head[in];
 					weight[out] = weight[in];
-- 
2.43.0


From 627f5e4b92646bad2abd2841e2d745c1a326d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 02/59] fix: CH pin_targets/pin_sources must not overflow if
 more entries than nodes are pinned

---
 src/contraction_hierarchy.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 8be75fe..25c6428 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1872,6 +1872,10 @@ namespace{
 	){
 		target_count = external_target_list.size();
 
+		// The list may contain duplicates and can therefore be longer than the number of nodes.
+		if(target_list.size() < target_count)
+			target_list.resize(target_count);
+
 		for(unsigned i=0; i<target_count; ++i){
 			unsigned t = external_target_list[i];
 			t = external_node_to_internal_node[t];
-- 
2.43.0


From e25025d1c3f0bfa2ce2afb308ec6ac06b028c134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 03/59] fix: do not write uninitialized padding bytes into CH
 files

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 25c6428..34b2dea 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1296,6 +1296,7 @@ namespace {
 		unsigned node_count;
 		unsigned forward_arc_count;
 		unsigned backward_arc_count;
+		unsigned unused; // makes the padding explicit, always written as 0
 	};
 }
 
@@ -1405,6 +1406,7 @@ void ContractionHierarchy::write(std::function<void(const char*, unsigned long l
 	header.node_count = forward.first_out.size()-1;
 	header.forward_arc_count = forward.head.size();
 	header.backward_arc_count = backward.head.size();
+	header.unused = 0;
 
 	write_value(out, header);
 	write_vector(out, rank);
-- 
2.43.0


From ea0e1909ad27b057182d7f8436e91062c9f414cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 04/59] fix: report failed writes when saving vectors and files

---
 include/routingkit/vector_io.h | 4 ++++
 src/vector_io.cpp              | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 4de32ad..597d26a 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -19,6 +19,8 @@ void save_vector(const std::string&file_name, const std::vector<T>&vec){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	out.write(reinterpret_cast<const char*>(&vec[0]), vec.size()*sizeof(T));
+	if(!out.flush())
+		throw std::runtime_error("Writing to \""+file_name+"\" failed.");
 }
 
 template<class T>
@@ -158,6 +160,8 @@ void open_file_for_saving(const std::string&file_name, const F&f){
 	if(!out)
 		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	f(out);
+	if(!out.flush())
+		throw std::runtime_error("Writing to \""+file_name+"\" failed.");
 }
 
 template<class F>
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 331cdd3..5bad2d9 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -5,10 +5,14 @@ namespace RoutingKit{
 template<>
 void save_vector<std::string>(const std::string&file_name, const std::vector<std::string>&vec){
 	std::ofstream out(file_name, std::ios::binary);
+	if(!out)
+		throw std::runtime_error("Can not open \""+file_name+"\" for writing.");
 	for(unsigned i=0; i<vec.size(); ++i){
 		const char*x = vec[i].c_str();
 		out.write(x, vec[i].length()+1);
 	}
+	if(!out.flush())
+		throw std::runtime_error("Writing to \""+file_name+"\" failed.");
 }
 
 template<>
@@ -41,6 +45,8 @@ void save_bit_vector(const std::string&file_name, const BitVector&vec){
 	uint64_t size = vec.size();
 	out.write(reinterpret_cast<const char*>(&size), 8);
 	out.write(reinterpret_cast<const char*>(vec.data()), vec.uint512_count()*64);
+	if(!out.flush())
+		throw std::runtime_error("Writing to \""+file_name+"\" failed.");
 }
 
 BitVector load_bit_vector(const std::string&file_name){
-- 
2.43.0


From 15b2af3ce41cc73482cea57df56d0338c03a5af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:55 +0000
Subject: [PATCH 05/59] fix: load_bit_vector must reject files without a valid
 size header

---
 src/vector_io.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index 5bad2d9..c244d27 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -58,8 +58,7 @@ BitVector load_bit_vector(const std::string&file_name){
 	in.seekg(0, std::ios::beg);
 	
 	uint64_t size;
-	in.read(reinterpret_cast<char*>(&size), 8);
-	if(((size+511)/512) * 64 + 8 != file_size)
+	if(!in.read(reinterpret_cast<char*>(&size), 8) || (size/512 + (size%512 != 0)) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
 	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
-- 
2.43.0


From 872916e39e6d8b28f13deeac80ce87c473517f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:56 +0000
Subject: [PATCH 06/59] fix: perfect witness search on a CCH with filtered arcs
 must not keep shortcuts without unpacking information

---
 src/customizable_contraction_hierarchy.cpp | 33 ++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 04f29a3..297667c 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1796,6 +1796,39 @@ ContractionHierarchy CustomizableContractionHierarchyMetric::build_contraction_h
 		);
 	#endif
 
+	// If the CCH was built with filter_always_inf_arcs, then the search above can miss some witnesses. In this case,
+	// a kept shortcut can be composed of arcs that were removed. The shortcut's weight is then larger than the
+	// distance between its endpoints and the shortcut can therefore be removed too. Both arcs of a shortcut have
+	// smaller ids than the shortcut.
+	for(unsigned cch_arc=0; cch_arc<cch->cch_arc_count(); ++cch_arc){
+		if(keep_forward_arc.is_set(cch_arc) && unpack_original_forward_arc(*cch, *this, cch_arc) == invalid_id){
+			bool was_not_found = forall_lower_triangles_of_arc(
+				*cch, cch_arc,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(
+						keep_backward_arc.is_set(bottom_arc) && keep_forward_arc.is_set(mid_arc) &&
+						backward[bottom_arc] + forward[mid_arc] == forward[top_arc]
+					);
+				}
+			);
+			if(was_not_found)
+				keep_forward_arc.reset(cch_arc);
+		}
+		if(keep_backward_arc.is_set(cch_arc) && unpack_original_backward_arc(*cch, *this, cch_arc) == invalid_id){
+			bool was_not_found = forall_lower_triangles_of_arc(
+				*cch, cch_arc,
+				[&](unsigned bottom_arc, unsigned mid_arc, unsigned top_arc, unsigned, unsigned, unsigned){
+					return !(
+						keep_forward_arc.is_set(bottom_arc) && keep_backward_arc.is_set(mid_arc) &&
+						backward[mid_arc] + forward[bottom_arc] == backward[top_arc]
+					);
+				}
+			);
+			if(was_not_found)
+				keep_backward_arc.reset(cch_arc);
+		}
+	}
+
 	ContractionHierarchy ch;
 
 	ch.rank = cch->rank;
-- 
2.43.0


From 98a87072ab78f6e41f96c0ccfe717fe3376e4436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:42 +0000
Subject: [PATCH 07/59] fix: Dijkstra::reset must resize if the graph vectors
 were refilled in place

---
 include/routingkit/dijkstra.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 6a3d3e3..585f969 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -40,7 +40,7 @@ public:
 		assert(first_out.back() == tail.size());
 		assert(first_out.back() == head.size());
 
-		if(this->first_out != nullptr && first_out.size() == this->first_out->size()){
+		if(this->first_out != nullptr && first_out.size()-1 == tentative_distance.size()){
 			this->first_out = &first_out;
 			this->head = &head;
 			this->tail = &tail;
-- 
2.43.0


From 88e6e72f7e41808076ffef47ff73231d25751f45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:42 +0000
Subject: [PATCH 08/59] fix: copying a CCH must not leave id mappers pointing
 into the original

---
 .../customizable_contraction_hierarchy.h      |  6 +++++
 src/customizable_contraction_hierarchy.cpp    | 24 +++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 942d91c..845668a 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -17,6 +17,12 @@ class ContractionHierarchy;
 struct CustomizableContractionHierarchy{
 	CustomizableContractionHierarchy(){}
 
+	// The id mappers point into the bit vectors of the same object and must therefore not just be copied.
+	CustomizableContractionHierarchy(const CustomizableContractionHierarchy&);
+	CustomizableContractionHierarchy(CustomizableContractionHierarchy&&) = default;
+	CustomizableContractionHierarchy&operator=(const CustomizableContractionHierarchy&other){ return *this = CustomizableContractionHierarchy(other); }
+	CustomizableContractionHierarchy&operator=(CustomizableContractionHierarchy&&) = default;
+
 	CustomizableContractionHierarchy(std::vector<unsigned>order, std::vector<unsigned>tail, std::vector<unsigned>head, std::function<void(const std::string&)>log_message = [](const std::string&){}, bool filter_always_inf_arcs = false);
 
 	unsigned node_count()const{
diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 297667c..97177a2 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -193,6 +193,30 @@ namespace{
 	#endif
 }
 
+CustomizableContractionHierarchy::CustomizableContractionHierarchy(const CustomizableContractionHierarchy&other):
+	order(other.order),
+	rank(other.rank),
+	elimination_tree_parent(other.elimination_tree_parent),
+	up_first_out(other.up_first_out),
+	up_head(other.up_head),
+	up_tail(other.up_tail),
+	down_first_out(other.down_first_out),
+	down_head(other.down_head),
+	down_to_up(other.down_to_up),
+	input_arc_to_cch_arc(other.input_arc_to_cch_arc),
+	is_input_arc_upward(other.is_input_arc_upward),
+	does_cch_arc_have_input_arc(other.does_cch_arc_have_input_arc),
+	does_cch_arc_have_input_arc_mapper(does_cch_arc_have_input_arc),
+	forward_input_arc_of_cch(other.forward_input_arc_of_cch),
+	backward_input_arc_of_cch(other.backward_input_arc_of_cch),
+	does_cch_arc_have_extra_input_arc(other.does_cch_arc_have_extra_input_arc),
+	does_cch_arc_have_extra_input_arc_mapper(does_cch_arc_have_extra_input_arc),
+	first_extra_forward_input_arc_of_cch(other.first_extra_forward_input_arc_of_cch),
+	first_extra_backward_input_arc_of_cch(other.first_extra_backward_input_arc_of_cch),
+	extra_forward_input_arc_of_cch(other.extra_forward_input_arc_of_cch),
+	extra_backward_input_arc_of_cch(other.extra_backward_input_arc_of_cch)
+{}
+
 CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 	std::vector<unsigned>arg_order,
 	std::vector<unsigned>input_tail,
-- 
2.43.0


From a3658cf369fd0d2d608b66ec60b132bc47833b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:11 +0000
Subject: [PATCH 09/59] fix: initialize default constructed CCH objects so that
 they can be reset

---
 include/routingkit/customizable_contraction_hierarchy.h | 8 ++++----
 include/routingkit/id_set_queue.h                       | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/routingkit/customizable_contraction_hierarchy.h b/include/routingkit/customizable_contraction_hierarchy.h
index 845668a..c56a391 100644
--- a/include/routingkit/customizable_contraction_hierarchy.h
+++ b/include/routingkit/customizable_contraction_hierarchy.h
@@ -71,7 +71,7 @@ struct CustomizableContractionHierarchy{
 };
 
 struct CustomizableContractionHierarchyMetric{
-	CustomizableContractionHierarchyMetric(){}
+	CustomizableContractionHierarchyMetric():cch(nullptr), input_weight(nullptr){}
 	CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const unsigned*input_weight);
 	CustomizableContractionHierarchyMetric(const CustomizableContractionHierarchy&cch, const std::vector<unsigned>&input_weight);
 
@@ -94,7 +94,7 @@ struct CustomizableContractionHierarchyMetric{
 };
 
 struct CustomizableContractionHierarchyParallelization{
-	CustomizableContractionHierarchyParallelization(){}
+	CustomizableContractionHierarchyParallelization():cch(nullptr){}
 	explicit CustomizableContractionHierarchyParallelization(const CustomizableContractionHierarchy&cch);
 
 	CustomizableContractionHierarchyParallelization& reset(const CustomizableContractionHierarchy&cch){
@@ -114,7 +114,7 @@ struct CustomizableContractionHierarchyParallelization{
 };
 
 struct CustomizableContractionHierarchyPartialCustomization{
-	CustomizableContractionHierarchyPartialCustomization(){}
+	CustomizableContractionHierarchyPartialCustomization():cch(nullptr){}
 	explicit CustomizableContractionHierarchyPartialCustomization(const CustomizableContractionHierarchy&cch);
 
 	CustomizableContractionHierarchyPartialCustomization&reset();
@@ -129,7 +129,7 @@ struct CustomizableContractionHierarchyPartialCustomization{
 };
 
 struct CustomizableContractionHierarchyQuery{
-	CustomizableContractionHierarchyQuery(){}
+	CustomizableContractionHierarchyQuery():shortest_path_meeting_node(invalid_id), cch(nullptr), metric(nullptr), state(0){}
 	explicit CustomizableContractionHierarchyQuery(const CustomizableContractionHierarchyMetric&metric);
 
 	CustomizableContractionHierarchyQuery&reset();
diff --git a/include/routingkit/id_set_queue.h b/include/routingkit/id_set_queue.h
index fc285aa..62109bc 100644
--- a/include/routingkit/id_set_queue.h
+++ b/include/routingkit/id_set_queue.h
@@ -105,7 +105,7 @@ private:
 	}
 
 public:
-	IDSetMinQueue(){}
+	IDSetMinQueue():IDSetMinQueue(0){}
 
 	//! The queue may contain IDs from 0 to n-1.
 	explicit IDSetMinQueue(unsigned n):
-- 
2.43.0


From 89426e0b7654bd0ccf55bbfe06fdf8ed011e9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:47 +0000
Subject: [PATCH 10/59] fix: parallel CCH customization must read shared
 weights atomically

---
 src/customizable_contraction_hierarchy.cpp | 4 ++--
 src/emulate_gcc_builtin.h                  | 7 +++++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 97177a2..164f3b8 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -831,9 +831,9 @@ CustomizableContractionHierarchyMetric& CustomizableContractionHierarchyMetric::
 namespace{
 	template<class T>
 	void atomic_min_to(T&x, const T&y){
-		 T z = x;
+		 T z = __atomic_load_n(&x, __ATOMIC_RELAXED);
 		 while(y < z && !__sync_bool_compare_and_swap(&x, z, y))
-		         z = x;
+		         z = __atomic_load_n(&x, __ATOMIC_RELAXED);
 	}
 
 	struct AtomicLowerTriangleRelaxer{
diff --git a/src/emulate_gcc_builtin.h b/src/emulate_gcc_builtin.h
index 2c80d79..bc73eba 100644
--- a/src/emulate_gcc_builtin.h
+++ b/src/emulate_gcc_builtin.h
@@ -31,6 +31,11 @@ namespace RoutingKit{namespace detail{
 		return 0;
 	}
 
+	template<class T>
+	T emulated_atomic_load(const T*var){
+		return *static_cast<const volatile T*>(var);
+	}
+
 	template<class T>
 	bool emulated_sync_bool_compare_and_swap(T*var, T comp_value, T new_value){
 		static std::mutex m;
@@ -56,6 +61,8 @@ namespace RoutingKit{namespace detail{
 
 #define __builtin_ffsll(x) ::RoutingKit::detail::emulated_builtin_ffsll(x)
 
+#define __atomic_load_n(x, y) ::RoutingKit::detail::emulated_atomic_load(x)
+
 #define __sync_bool_compare_and_swap(x, y, z) ::RoutingKit::detail::emulated_sync_bool_compare_and_swap(x, y, z)
 
 #endif
-- 
2.43.0


From 148ce55eccce49eb22108f9048563a6c00c236df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:53 +0000
Subject: [PATCH 11/59] fix: nested dissection of a graph without nodes
 accessed memory out of bounds

---
 src/nested_dissection.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 7907c87..9d196a3 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -615,6 +615,9 @@ std::vector<GraphFragment>decompose_graph_fragment_into_connected_components(Gra
 	unsigned node_count = fragment.node_count();
 	unsigned arc_count = fragment.arc_count();
 
+	if(node_count == 0)
+		return std::vector<GraphFragment>();
+
 	unsigned component_count = 0;
 	std::vector<unsigned>component(node_count, invalid_id);
 	{
-- 
2.43.0


From 5b7aef353f5053a1c2e97c92d0e9ed9cf13be9d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:27 +0000
Subject: [PATCH 12/59] fix: BitVector operations must not ignore the last
 block if the size is a multiple of 512

---
 src/bit_vector.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 3d7d888..1bb837f 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -115,6 +115,9 @@ namespace {
 	v8_uint64_t get_padding_mask(uint64_t size){
 		v8_uint64_t u = {0};
 
+		if(size % 512 == 0)
+			return ~u; // there are no padding bits
+
 		uint64_t x = size % 512;
 		uint8_t i = 0;
 		while(x >= 64){
@@ -317,7 +320,7 @@ void BitVector::resize(uint64_t new_size, bool value){
 		if(new_size < size_) {
 			resize(new_size, uninitialized);
 		} else if(get_uint8_count(new_size) == get_uint8_count(size_)){
-			if(value == false){
+			if(value == false || new_size == size_){
 				size_ = new_size;
 			} else {
 				((v8_uint64_t*)data_)[size_/512] |= get_padding_mask(new_size) & ~get_padding_mask(size_);
-- 
2.43.0


From 226e6e14898f7bd06699aa49fd093f5e86a477fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:41 +0000
Subject: [PATCH 13/59] fix: resizing a copy of an empty BitVector wrote before
 its storage

---
 src/bit_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bit_vector.cpp b/src/bit_vector.cpp
index 1bb837f..2cae644 100644
--- a/src/bit_vector.cpp
+++ b/src/bit_vector.cpp
@@ -313,7 +313,7 @@ void BitVector::resize(uint64_t new_size, BitVector::Uninitialized){
 }
 
 void BitVector::resize(uint64_t new_size, bool value){
-	if(data_ == nullptr){
+	if(size_ == 0){
 		*this = BitVector(new_size, value);
 	}else{
 		assert(are_all_padding_bits_zero(*this));
-- 
2.43.0


From 64544050f97c3bd32af8e7c11455c0d80d052b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 14/59] fix: filtering a vector must not self-move its elements

---
 include/routingkit/filter.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/filter.h b/include/routingkit/filter.h
index 78990d3..a74153a 100644
--- a/include/routingkit/filter.h
+++ b/include/routingkit/filter.h
@@ -16,7 +16,8 @@ void inplace_keep_element_of_vector_if(const BitVector&keep_filter, std::vector<
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(keep_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(out != in) // self-moves may clear elements
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
@@ -31,7 +32,8 @@ void inplace_remove_element_from_vector_if(const BitVector&remove_filter, std::v
 	uint64_t in = 0, out = 0, s = vec.size();
 	while(in != s){
 		if(!remove_filter.is_set(in)){
-			vec[out] = std::move(vec[in]);
+			if(out != in) // self-moves may clear elements
+				vec[out] = std::move(vec[in]);
 			++out;
 		}
 		++in;
-- 
2.43.0


From e677c9ceab8957d349b302821879374e43630e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:25:57 +0000
Subject: [PATCH 15/59] fix: apply_permutation_to_possibly_invalid_elements_of
 must skip invalid elements

---
 include/routingkit/permutation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/routingkit/permutation.h b/include/routingkit/permutation.h
index 4863817..f476f8c 100644
--- a/include/routingkit/permutation.h
+++ b/include/routingkit/permutation.h
@@ -128,7 +128,7 @@ std::vector<unsigned> apply_permutation_to_possibly_invalid_elements_of(const st
 	assert(std::all_of(v.begin(), v.end(), [&](unsigned x){return x < p.size() || x == invalid_id;}) && "v has an out of bounds element");
 	
 	std::vector<unsigned> r = v;
-	inplace_apply_permutation_to_elements_of(p, r);
+	inplace_apply_permutation_to_possibly_invalid_elements_of(p, r);
 	return r; // NVRO
 }
 
-- 
2.43.0


From 49d6516eac01b48a244816aaa5bb832f2b612fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 16/59] fix: convert_arc_path_to_node_path must convert the
 first arc

---
 src/graph_util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph_util.cpp b/src/graph_util.cpp
index fda7e37..c98d9f7 100644
--- a/src/graph_util.cpp
+++ b/src/graph_util.cpp
@@ -69,7 +69,7 @@ std::vector<unsigned>convert_node_path_to_arc_path(const std::vector<unsigned>&f
 std::vector<unsigned>convert_arc_path_to_node_path(unsigned source, const std::vector<unsigned>&head, std::vector<unsigned>path){
 	if(!path.empty()){
 		path.resize(path.size()+1);
-		for(unsigned i=path.size()-1; i>1; --i)
+		for(unsigned i=path.size()-1; i>0; --i)
 			path[i] = head[path[i-1]];
 		path[0] = source;
 	}
-- 
2.43.0


From 71d56d1c198dad5b91447986a9dbf6b6f6c72583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:29:11 +0000
Subject: [PATCH 17/59] fix: geo_dist must not return NaN for identical or
 antipodal points

---
 include/routingkit/geo_dist.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/routingkit/geo_dist.h b/include/routingkit/geo_dist.h
index 0bf59bb..2c52d34 100644
--- a/include/routingkit/geo_dist.h
+++ b/include/routingkit/geo_dist.h
@@ -115,6 +115,11 @@ inline double geo_dist(double lat_a, double lon_a, double lat_b, double lon_b){
 
 	double len = (vec[0] + vec[1]) * vec[2] + vec[0] - vec[1];
 	len *= 0.5;
+	// Rounding may push the cosine of nearly identical or antipodal points slightly out of the domain of acos.
+	if(len > 1.0)
+		len = 1.0;
+	if(len < -1.0)
+		len = -1.0;
 	len  = acos(len);
 	len *= earth_radius;
 
-- 
2.43.0


From 1c9c5436fb847a2febb54232174fdf7616a5eeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:34:59 +0000
Subject: [PATCH 18/59] fix: build the nearest neighbor tree with the same
 distances as the queries use

---
 src/geo_position_to_node.cpp | 67 +++---------------------------------
 1 file changed, 4 insertions(+), 63 deletions(-)

diff --git a/src/geo_position_to_node.cpp b/src/geo_position_to_node.cpp
index d095f46..f81c9af 100644
--- a/src/geo_position_to_node.cpp
+++ b/src/geo_position_to_node.cpp
@@ -41,70 +41,11 @@ namespace{
 
 			construct_tree(d, begin, mid);
 
-			// Slower but simpler code			
-			// for(auto i=mid; i!=end; ++i)
-			//	d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
-
-			// Faster more complex vectorized code
-			{
-				const float pi = 3.14159265359;
-				const float R = 6371000.785; // earth radius in meter
-				const float inv_180 = 1.0 / 180;
-
-				float a_lat = d[mid].position.latitude;
-				float a_lon = d[mid].position.longitude;
-
-				a_lat *= inv_180;
-				a_lat *= pi;
-				a_lon *= inv_180;
-				a_lon *= pi;
-
-				const unsigned vector_width = 16;
-				for(unsigned i=mid; i<end; i+=vector_width){
-
-					float b_lat[vector_width];
-					float b_lon[vector_width];
-					float a_[vector_width];
-
-					unsigned element_count = vector_width;
-					if(end - i < element_count)
-						element_count = end - i;
-
-					for(unsigned j=0; j<element_count; ++j){
-						b_lat[j] = d[i+j].position.latitude;
-						b_lon[j] = d[i+j].position.longitude;
-					}
-
-					for(unsigned j=element_count; j<vector_width; ++j){
-						b_lat[j] = 0;
-						b_lon[j] = 0;
-					}
-
-					// GCC5's auto vectorizer is clever enough to vectorize this loop 
-					// OpenMP does not harm but is not needed
-					// #pragma omp simd
-					for(unsigned j=0; j<vector_width; ++j){
-						b_lat[j] *= inv_180;
-						b_lat[j] *= pi;
-						b_lon[j] *= inv_180;
-						b_lon[j] *= pi;
-
-						float dlat = b_lat[j] - a_lat;
-						float dlon = b_lon[j] - a_lon;
-
-						a_[j] = sinf(dlat*0.5) * sinf(dlat*0.5) + sinf(dlon*0.5) * sinf(dlon*0.5) * cosf(a_lat) * cosf(b_lat[j]);
-					}
-
-					for(unsigned j=0; j<element_count; ++j){
-						// GCC5 does not have vectorized versions of atan2f nor sqrtf
-						// we therefore call the sequential functions as they would prevent the vectorization of the previous loop
-						float c = 2 * atan2f(sqrtf(a_[j]), sqrtf(1-a_[j]));
-						d[i+j].distance_to_pivot = R * c;
-					}
-				}
+			// The distances must be computed in exactly the same way as in the queries. Otherwise,
+			// the queries prune the wrong subtrees.
+			for(auto i=mid; i!=end; ++i)
+				d[i].distance_to_pivot = compute_distance(d[mid].position, d[i].position);
 
-			}
-	
 			construct_tree(d, mid, end);
 		}
 	}
-- 
2.43.0


From 70793f1802ff3d14b8cddfcce21baa3a54836023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:15 +0000
Subject: [PATCH 19/59] fix: FileDataSource::size threw for every open file

---
 src/file_data_source.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 0ad4ed9..5b6a351 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -73,7 +73,7 @@ unsigned long long FileDataSource::size()const{
 		return 0;
 	else{
 		struct ::stat buf;
-		if(!::fstat(file_descriptor, &buf)){
+		if(::fstat(file_descriptor, &buf) == -1){
 			int error = errno;
 			throw std::runtime_error(std::string("Could not determine the size of a file open for reading. The errno is ")+std::to_string(error)+". strerror(errno) says the following : "+strerror(error));
 		}
-- 
2.43.0


From 127909bda83f2d6e8b30090c45dd46cb63cd578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:33 +0000
Subject: [PATCH 20/59] fix: store a source failure in the buffered
 asynchronous reader under its lock

---
 src/buffered_asynchronous_reader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/buffered_asynchronous_reader.cpp b/src/buffered_asynchronous_reader.cpp
index 9ecc5c8..e0326b5 100644
--- a/src/buffered_asynchronous_reader.cpp
+++ b/src/buffered_asynchronous_reader.cpp
@@ -131,6 +131,8 @@ BufferedAsynchronousReader::BufferedAsynchronousReader(
 					ptr->worker_thread_has_done_something.notify_one();
 				}
 			}catch(...){
+				if(!guard.owns_lock())
+					guard.lock();
 				ptr->read_exception = std::current_exception();
 				ptr->worker_thread_has_done_something.notify_one();
 			}
-- 
2.43.0


From 765db32a5ea57f6c9be3755e4bf109be3ecdfea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:40 +0000
Subject: [PATCH 21/59] fix: move assigning a FileDataSource leaked its open
 file

---
 src/file_data_source.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/file_data_source.cpp b/src/file_data_source.cpp
index 5b6a351..cfa2e2b 100644
--- a/src/file_data_source.cpp
+++ b/src/file_data_source.cpp
@@ -37,8 +37,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = -1;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = -1;
+	}
 	return *this;
 }
 
@@ -114,8 +117,11 @@ FileDataSource::FileDataSource(FileDataSource&&o):
 }
 
 const FileDataSource&FileDataSource::operator=(FileDataSource&&o){
-	file_descriptor = o.file_descriptor;
-	o.file_descriptor = nullptr;
+	if(this != &o){
+		close();
+		file_descriptor = o.file_descriptor;
+		o.file_descriptor = nullptr;
+	}
 	return *this;
 }
 
-- 
2.43.0


From 41a60f4e86d4bade4f17d7a1d583590ab9755443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:57 +0000
Subject: [PATCH 22/59] fix: reject varints that do not fit into 64 bit

---
 src/protobuf.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protobuf.cpp b/src/protobuf.cpp
index d14f799..e309d0f 100644
--- a/src/protobuf.cpp
+++ b/src/protobuf.cpp
@@ -13,7 +13,7 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 	uint8_t mask = ~high_bit;
 
 	while((*begin & high_bit) != 0){
-		if(shift == 7*9 && ((uint8_t)*begin) != (1|high_bit))
+		if(shift == 7*9)
 			throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 		n |= ((uint64_t)(((uint8_t)*begin) & mask))<<shift;
 		shift += 7;
@@ -21,6 +21,8 @@ uint64_t decode_varint_as_uint64_and_advance_first_parameter(const char*&begin,
 		if(begin == end)
 			throw std::runtime_error("Protobuf message is corrupt because varint was not terminated before the end of the message.");
 	}
+	if(shift == 7*9 && ((uint8_t)*begin) > 1)
+		throw std::runtime_error("Cannot decode varint because the value does not fit into 64 bit.");
 	n |= ((uint64_t)(((uint8_t)*begin) & mask)) << shift;
 	++begin;
 
-- 
2.43.0


From 055f6a33841138c1d311d56478adb7d2929e98ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:45:24 +0000
Subject: [PATCH 23/59] fix: misaligned access when decoding floating point
 protobuf fields

---
 src/protobuf.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/protobuf.h b/src/protobuf.h
index 33bcc7e..aee3ab9 100644
--- a/src/protobuf.h
+++ b/src/protobuf.h
@@ -4,6 +4,7 @@
 #include <cstdint>
 #include <stdexcept>
 #include <string>
+#include <string.h>
 
 namespace RoutingKit{
 
@@ -24,13 +25,21 @@ void decode_protobuf_message_with_callbacks(const char*begin, const char*end, co
 			case 1:
 				if(end - begin < 8)
 					throw std::runtime_error("Protobuf message is corrupt, the end of message was reached while parsing a 64-bit floating point.");
-				double_callback(field_id, *reinterpret_cast<const double*>(begin));
+				{
+					double x;
+					memcpy(&x, begin, sizeof(x));
+					double_callback(field_id, x);
+				}
 				begin += 8;
 				break;
 			case 5:
 				if(end - begin < 4)
 					throw std::runtime_error("Protobuf message is corrupt, the end of message was reached while parsing a 32-bit floating point.");
-				double_callback(field_id, *reinterpret_cast<const float*>(begin));
+				{
+					float x;
+					memcpy(&x, begin, sizeof(x));
+					double_callback(field_id, x);
+				}
 				begin += 4;
 				break;
 			case 2:
-- 
2.43.0


From ea9a545d1939812e76af3bb3ea846ebb305d3143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:46:08 +0000
Subject: [PATCH 24/59] fix: TagMap::clear must remove the entries that
 iteration and size report

---
 include/routingkit/tag_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2de6a27..2f1acc3 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -55,6 +55,8 @@ public:
 			entry_begin[x>>16] = 0;
 			entry_end[x>>16] = 0;
 		}
+		hash_element_list.clear();
+		entry.clear();
 	}
 
 	template<class GetKey, class GetValue>
-- 
2.43.0


From 0b43d8aa09c899831f9f4e7435eaea6e6518ca12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:48:52 +0000
Subject: [PATCH 25/59] fix: decode the ID and coordinates of sparse OSM nodes
 with the fields and encoding of the file format

---
 src/osm_decoder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b71b87e..d136ed3 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -331,10 +331,10 @@ namespace {
 					begin, end,
 					[&](uint64_t key_id, uint64_t num){
 						if(key_id == 1)
-							osm_node_id = num;
-						else if(key_id == 19)
+							osm_node_id = zigzag_convert_uint64_to_int64(num);
+						else if(key_id == 8)
 							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
-						else if(key_id == 20)
+						else if(key_id == 9)
 							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
-- 
2.43.0


From 00ab506f5a60e189fd64d41e9b703442cf80c73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:49:45 +0000
Subject: [PATCH 26/59] fix: apply the coordinate offsets of OSM blocks once,
 to the right coordinate and without zigzag decoding

---
 src/osm_decoder.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index d136ed3..df57dc6 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -285,9 +285,9 @@ namespace {
 					if(key_id == 17)
 						latlon_granularity = num;
 					else if(key_id == 19)
-						offset_of_latitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_latitude = static_cast<int64_t>(num);
 					else if(key_id == 20)
-						offset_of_longitude = zigzag_convert_uint64_to_int64(num);
+						offset_of_longitude = static_cast<int64_t>(num);
 
 				},
 				[&](uint64_t key_id, double num){},
@@ -315,8 +315,8 @@ namespace {
 			if(latlon_granularity == 0)
 				throw std::runtime_error("PBF error: latlon_granularity of a block must not be zero.");
 
-			double primblock_lon_offset = 0.000000001 * offset_of_latitude;
-			double primblock_lat_offset = 0.000000001 * offset_of_longitude;
+			double primblock_lat_offset = 0.000000001 * offset_of_latitude;
+			double primblock_lon_offset = 0.000000001 * offset_of_longitude;
 			double primblock_granularity = 0.000000001 * latlon_granularity;
 
 			auto decode_sparse_node = [&](const char*begin, const char*end){
@@ -333,9 +333,9 @@ namespace {
 						if(key_id == 1)
 							osm_node_id = zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 8)
-							latitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							latitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 						else if(key_id == 9)
-							longitude = primblock_lat_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
+							longitude = primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(num);
 					},
 					[&](uint64_t key_id, double num){},
 					[&](uint64_t key_id, const char*begin, const char*end){
@@ -418,11 +418,11 @@ namespace {
 				tag_map.clear();
 
 				uint64_t osm_node_id = 0;
-				double latitude = 0.0, longitude = 0.0;
+				double latitude = primblock_lat_offset, longitude = primblock_lon_offset;
 				while(osm_node_id_begin != osm_node_id_end){
 					osm_node_id += zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(osm_node_id_begin, osm_node_id_end));
-					latitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
-					longitude += primblock_lon_offset + primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
+					latitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(latitude_begin, latitude_end));
+					longitude += primblock_granularity * zigzag_convert_uint64_to_int64(decode_varint_as_uint64_and_advance_first_parameter(longitude_begin, longitude_end));
 					if(key_value_pairs_begin != nullptr){
 						key_list.clear();
 						value_list.clear();
-- 
2.43.0


From f5a927952e7e580110fdd4a581b18c05a84896e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:58:50 +0000
Subject: [PATCH 27/59] fix: ordered OSM PBF reading waited forever for a
 header that does not come and read the status with a data race

---
 src/osm_decoder.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index df57dc6..d4f83f8 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -77,6 +77,12 @@ namespace{
 			reader(data_source, 64<<20){
 		}
 
+		OsmPBFDecompressor&operator=(OsmPBFDecompressor&&o){
+			status = o.status.load();
+			reader = std::move(o.reader);
+			return *this;
+		}
+
 		unsigned long long minimum_read_size() const {
 			return (64 << 20);
 		}
@@ -89,6 +95,16 @@ namespace{
 			return [&](char*buffer, unsigned long long how_much_to_read)->unsigned long long{
 				assert(how_much_to_read >= minimum_read_size());
 
+				// If no header was found until the end of this function, because of
+				// a data block, the end of the file, or an exception, then there
+				// is none. A thread waiting for the header must stop waiting.
+				struct HeaderSearchGuard{
+					std::atomic<uint64_t>&status;
+					~HeaderSearchGuard(){
+						status |= is_header_info_available_bit;
+					}
+				}header_search_guard{status};
+
 				const char*blob_begin, *blob_end;
 
 				for(;;){
@@ -238,7 +254,7 @@ namespace{
 			};
 		}
 	private:
-		uint64_t status;
+		std::atomic<uint64_t> status;
 		BufferedAsynchronousReader reader;
 	};
 }
@@ -678,7 +694,6 @@ void ordered_read_osm_pbf(
 
 	if(!file_is_ordered_even_though_file_header_says_that_it_is_unordered){
 		while((decompressor.get_status() & is_header_info_available_bit) == 0){
-			std::atomic_thread_fence(std::memory_order::memory_order_seq_cst);
 			std::this_thread::yield();
 		}
 	}
-- 
2.43.0


From 29470359744809c9a9237cfb7df77ee628204e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 28/59] fix: OSM string ID bounds checks were off by one

---
 src/osm_decoder.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index d4f83f8..2017e3c 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -381,13 +381,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -454,13 +454,13 @@ namespace {
 							key_list.size(),
 							[&](uint64_t i){
 								i = key_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: key string ID is out of bounds.");
 								return string_table[i];
 							},
 							[&](uint64_t i){
 								i = value_list[i];
-								if(i > string_table.size())
+								if(i >= string_table.size())
 									throw std::runtime_error("PBF error: value string ID is out of bounds.");
 								return string_table[i];
 							}
@@ -524,13 +524,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
@@ -604,13 +604,13 @@ namespace {
 					key_list.size(),
 					[&](uint64_t i){
 						i = key_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: key string ID is out of bounds.");
 						return string_table[i];
 					},
 					[&](uint64_t i){
 						i = value_list[i];
-						if(i > string_table.size())
+						if(i >= string_table.size())
 							throw std::runtime_error("PBF error: value string ID is out of bounds.");
 						return string_table[i];
 					}
-- 
2.43.0


From 5bc1085631b420f3ff7e2008c324985d1a8dd6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:14 +0000
Subject: [PATCH 29/59] fix: leaked zlib stream if an OSM block cannot be
 decompressed

---
 src/osm_decoder.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index 2017e3c..dee1467 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -241,6 +241,7 @@ namespace{
 						throw std::runtime_error("PBF error: Failed to initialize zlib stream.");
 					}
 					if(inflate(&z, Z_FINISH) != Z_STREAM_END) {
+						inflateEnd(&z);
 						throw std::runtime_error("PBF error: Failed to completely inflate zlib stream. Probably the OSM blob decompresses to something larger than reported in the header.");
 					}
 					if(inflateEnd(&z) != Z_OK) {
-- 
2.43.0


From 4b8476e020fedc1e0d53c4f8c2b4eb3cb143100e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:36 +0000
Subject: [PATCH 30/59] fix: comparing OSM header features read past the end of
 a string literal

---
 src/osm_decoder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index dee1467..b96071c 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -162,10 +162,10 @@ namespace{
 							[&](uint64_t key_id, double num){},
 							[&](uint64_t key_id, const char*str_begin, const char*str_end){
 								if(key_id == 4){ // must support
-									if(!std::equal(str_begin, str_end, "DenseNodes"))
+									if(std::string(str_begin, str_end) != "DenseNodes")
 										throw std::runtime_error("Required OSM PBF feature \""+std::string(str_begin, str_end)+"\" is unknown");
 								}else if(key_id == 5){ // may exploit
-									if(std::equal(str_begin, str_end, "Sort.Type_then_ID"))
+									if(std::string(str_begin, str_end) == "Sort.Type_then_ID")
 										is_ordered = true;
 								}
 							}
-- 
2.43.0


From 13e22aa62daa2de082863cbfc6dcb0dd69108a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:01:02 +0000
Subject: [PATCH 31/59] fix: accept uncompressed OSM blocks without a size
 field, which is optional for them

---
 src/osm_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index b96071c..ba73850 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -209,6 +209,8 @@ namespace{
 					throw std::runtime_error("PBF error: Blob must not contain both compressed and uncompressed data");
 				if(uncompressed_begin == nullptr && compressed_begin == nullptr)
 					throw std::runtime_error("PBF error: Blob contains neither compressed nor uncompressed data");
+				if(uncompressed_begin != nullptr && uncompressed_data_size == (uint64_t)-1)
+					uncompressed_data_size = uncompressed_end - uncompressed_begin; // the size is only mandatory for compressed data
 				if(uncompressed_data_size == (uint64_t)-1)
 					throw std::runtime_error("PBF error: Blob does not contain the size of the uncompressed data");
 				if(uncompressed_begin){
-- 
2.43.0


From 30880156da13a7ee0db2c564d54b15e69796bf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:34 +0000
Subject: [PATCH 32/59] fix: infer the via node of turn restrictions if the
 to-way has two arcs leaving it

---
 src/osm_graph_builder.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/osm_graph_builder.cpp b/src/osm_graph_builder.cpp
index c5e0130..3a96d09 100644
--- a/src/osm_graph_builder.cpp
+++ b/src/osm_graph_builder.cpp
@@ -523,10 +523,10 @@ OSMRoutingGraph load_osm_routing_graph_from_pbf(
 						for(auto i=first_index_of_way[in->to_way]; i!=first_index_of_way[in->to_way+1]; ++i){
 							auto arc = index_to_arc[i];
 							if(is_head_of_from_way[tail[arc]]){
-								if(via_node != invalid_id){
-									second_via_node = tail[arc];
-								} else {
+								if(via_node == invalid_id){
 									via_node = tail[arc];
+								} else if(via_node != tail[arc]){
+									second_via_node = tail[arc];
 								}
 							}
 						}
-- 
2.43.0


From ca204fe1fce80930b6422e0911a805010d06b94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:38 +0000
Subject: [PATCH 33/59] fix: 32 bit overflow in the travel times of long arcs
 in the simple car loader

---
 src/osm_simple.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/osm_simple.cpp b/src/osm_simple.cpp
index 5410e1f..f5fc190 100644
--- a/src/osm_simple.cpp
+++ b/src/osm_simple.cpp
@@ -1,6 +1,7 @@
 #include <routingkit/osm_graph_builder.h>
 #include <routingkit/osm_profile.h>
 #include <routingkit/osm_simple.h>
+#include <routingkit/constants.h>
 
 #include <vector>
 #include <stdint.h>
@@ -51,9 +52,13 @@ SimpleOSMCarRoutingGraph simple_load_osm_car_routing_graph_from_pbf(
 
 	ret.travel_time = ret.geo_distance;
 	for(unsigned a=0; a<ret.travel_time.size(); ++a){
-		ret.travel_time[a] *= 18000;
-		ret.travel_time[a] /= way_speed[routing_graph.way[a]];
-		ret.travel_time[a] /= 5;
+		uint64_t travel_time = ret.geo_distance[a];
+		travel_time *= 18000;
+		travel_time /= way_speed[routing_graph.way[a]];
+		travel_time /= 5;
+		if(travel_time > inf_weight)
+			travel_time = inf_weight;
+		ret.travel_time[a] = travel_time;
 	}
 
 	ret.forbidden_turn_from_arc = std::move(routing_graph.forbidden_turn_from_arc);
-- 
2.43.0


From 34d66209d069a12ab4ff08e0e3ef427e46d7e8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:19 +0000
Subject: [PATCH 34/59] fix: report failed reads when loading vectors

---
 include/routingkit/vector_io.h | 3 ++-
 src/vector_io.cpp              | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/routingkit/vector_io.h b/include/routingkit/vector_io.h
index 597d26a..7a20388 100644
--- a/include/routingkit/vector_io.h
+++ b/include/routingkit/vector_io.h
@@ -35,7 +35,8 @@ std::vector<T>load_vector(const std::string&file_name){
 		throw std::runtime_error("File \""+file_name+"\" can not be a vector of the requested type because it's size is no multiple of the element type's size.");
 	in.seekg(0, std::ios::beg);
 	std::vector<T>vec(file_size / sizeof(T));
-	in.read(reinterpret_cast<char*>(&vec[0]), file_size);
+	if(!in.read(reinterpret_cast<char*>(&vec[0]), file_size))
+		throw std::runtime_error("Reading from \""+file_name+"\" failed.");
 	return vec; // NVRO
 }
 
diff --git a/src/vector_io.cpp b/src/vector_io.cpp
index c244d27..60ca8c7 100644
--- a/src/vector_io.cpp
+++ b/src/vector_io.cpp
@@ -61,7 +61,8 @@ BitVector load_bit_vector(const std::string&file_name){
 	if(!in.read(reinterpret_cast<char*>(&size), 8) || (size/512 + (size%512 != 0)) * 64 + 8 != file_size)
 		throw std::runtime_error("File \""+file_name+"\" can not be a bit vector of the requested size because the size in the header and the file size do not correspond.");
 	BitVector vec(size);
-	in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64));
+	if(!in.read(reinterpret_cast<char*>(vec.data()), (((size+511)/512) * 64)))
+		throw std::runtime_error("Reading from \""+file_name+"\" failed.");
 	return vec; // NVRO
 }
 
-- 
2.43.0


From fa8753040078f918fd0c66464e6ff31cc82d71b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 35/59] fix: building a CCH with logging for a graph without
 nodes divided by zero

---
 src/customizable_contraction_hierarchy.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 164f3b8..fbd9ffa 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -466,9 +466,11 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 			nodes_in_search_space_sum += nodes_in_search_space[x];
 			arcs_in_search_space_sum += arcs_in_search_space[x];
 		}
-		log_message("The average number of nodes in a search space is "+std::to_string(nodes_in_search_space_sum/node_count));
+		if(node_count != 0)
+			log_message("The average number of nodes in a search space is "+std::to_string(nodes_in_search_space_sum/node_count));
 		log_message("The maximum number of nodes in a search space is "+std::to_string(max_nodes_in_search_space));
-		log_message("The average number of arcs in a search space is "+std::to_string(arcs_in_search_space_sum/node_count));
+		if(node_count != 0)
+			log_message("The average number of arcs in a search space is "+std::to_string(arcs_in_search_space_sum/node_count));
 		log_message("The maximum number of arcs in a search space is "+std::to_string(max_arcs_in_search_space));
 	}
 
-- 
2.43.0


From 5964744476a623afee8bc81f81245af5755eea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:39 +0000
Subject: [PATCH 36/59] fix: building a CCH without logger called the missing
 logger

---
 src/customizable_contraction_hierarchy.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index fbd9ffa..16edd51 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -476,7 +476,10 @@ CustomizableContractionHierarchy::CustomizableContractionHierarchy(
 
 	// filter up graph
 	if(!filter_always_inf_arcs)
-		log_message("Not filtering upward arcs");
+	{
+		if(log_message)
+			log_message("Not filtering upward arcs");
+	}
 	else
 	{
 		if(log_message){
-- 
2.43.0


From 81b9292c94d110dfd4e296156ee22a16c0ea673d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:18 +0000
Subject: [PATCH 37/59] fix: building a CH with logging for a graph without
 nodes read an element of an empty vector

---
 src/contraction_hierarchy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 34b2dea..1c9e88c 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1072,11 +1072,11 @@ namespace {
 			std::vector<unsigned>deg(node_count, 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[tail[i]];
-			unsigned max_out_degree = max_element_of(deg);
+			unsigned max_out_degree = max_element_of(deg, 0u);
 			std::fill(deg.begin(), deg.end(), 0);
 			for(unsigned i=0; i<tail.size(); ++i)
 				++deg[head[i]];
-			unsigned max_in_degree = max_element_of(deg);
+			unsigned max_in_degree = max_element_of(deg, 0u);
 			log_message("The input's maximum in-degree is "+std::to_string(max_in_degree)+" and its maximum out-degree is "+std::to_string(max_out_degree)+".");
 
 		}
-- 
2.43.0


From c8e1a07dd430375d22edebaf69a109d88a5dbef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 38/59] fix: tool: decode_vector prints 8 bit numbers as
 numbers

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index ab8afe2..1a2f639 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From f418125a53296df7339eee28a39d15dbe96ce830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 39/59] fix: tool: decode_vector prints enough digits for
 floating point numbers to be restored

---
 src/decode_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode_vector.cpp b/src/decode_vector.cpp
index 1a2f639..c255180 100644
--- a/src/decode_vector.cpp
+++ b/src/decode_vector.cpp
@@ -13,7 +13,7 @@ void convert_num_data(const string&input_vector_file){
 	vector<T>v = load_vector<T>(input_vector_file);
 
 	for(auto&x:v)
-		cout << std::setprecision(std::numeric_limits<T>::digits10+1) << +x << '\n';
+		cout << std::setprecision(std::numeric_limits<T>::max_digits10) << +x << '\n';
 }
 
 string replace_all_substrings(string subject, const string& search, const string& replace) {
-- 
2.43.0


From b0212729d13e0b08da978fb30928e188d139c6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 40/59] fix: tool: encode_vector reverts the escaping done by
 decode_vector

---
 src/encode_vector.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/encode_vector.cpp b/src/encode_vector.cpp
index 4f25cb6..463f562 100644
--- a/src/encode_vector.cpp
+++ b/src/encode_vector.cpp
@@ -42,20 +42,24 @@ void convert_uint64_data(const string&output_vector_file){
 	save_vector(output_vector_file, v);
 }
 
-string replace_all_substrings(string subject, const string& search, const string& replace) {
-    size_t pos = 0;
-    while ((pos = subject.find(search, pos)) != std::string::npos) {
-         subject.replace(pos, search.length(), replace);
-         pos += replace.length();
-    }
-    return subject;
+string unescape(const string&line) {
+	string unescaped;
+	for(size_t i=0; i<line.size(); ++i){
+		if(line[i] == '\\' && i+1 < line.size() && (line[i+1] == '\\' || line[i+1] == 'n')){
+			++i;
+			unescaped += line[i] == 'n' ? '\n' : '\\';
+		}else{
+			unescaped += line[i];
+		}
+	}
+	return unescaped;
 }
 
 void convert_string_data(const string&output_vector_file){
 	string line;
 	vector<string>v;
 	while(getline(cin, line)){
-		v.push_back(replace_all_substrings(replace_all_substrings(line, "\\\\", "\\"), "\\n", "\n"));
+		v.push_back(unescape(line));
 	}
 	save_vector(output_vector_file, v);
 }
-- 
2.43.0


From 22a83b0add6cfff11d0f8e806d72b7a864b6f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 41/59] fix: tool: run_contraction_hierarchy_query rejects
 query lists of different length

---
 src/run_contraction_hierarchy_query.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index ff3ff84..de46230 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -42,6 +42,9 @@ int main(int argc, char*argv[]){
 
 		cout << "done" << endl;
 
+		if(source.size() != target.size())
+			throw runtime_error("The source and target vectors must be of the same length.");
+
 		const unsigned query_count = source.size();
 
 		cout << "Loaded " << query_count << " test queries" << endl;
-- 
2.43.0


From 808e41a606aecd8995e50f1d23a7319f68402585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 42/59] fix: tool: empty query lists are answered without a
 division by zero

---
 src/run_contraction_hierarchy_query.cpp | 2 +-
 src/run_dijkstra.cpp                    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/run_contraction_hierarchy_query.cpp b/src/run_contraction_hierarchy_query.cpp
index de46230..2103f40 100644
--- a/src/run_contraction_hierarchy_query.cpp
+++ b/src/run_contraction_hierarchy_query.cpp
@@ -70,7 +70,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		cout << "avg running time : " << (query_count == 0 ? 0 : time_sum/query_count) << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 0115a6a..7581edd 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -106,7 +106,7 @@ int main(int argc, char*argv[]){
 		cout << "done" << endl;
 
 		cout << "max running time : " << time_max << "musec" << endl;
-		cout << "avg running time : " << time_sum/query_count << "musec" << endl;
+		cout << "avg running time : " << (query_count == 0 ? 0 : time_sum/query_count) << "musec" << endl;
 
 		save_vector(distance_file, distance);
 
-- 
2.43.0


From d1e5f0cee6b20e476eb6f8c27d37e54960759f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 43/59] fix: tool: run_dijkstra accepts graphs without arcs

---
 src/run_dijkstra.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/run_dijkstra.cpp b/src/run_dijkstra.cpp
index 7581edd..c1da9fc 100644
--- a/src/run_dijkstra.cpp
+++ b/src/run_dijkstra.cpp
@@ -56,7 +56,7 @@ int main(int argc, char*argv[]){
 			throw runtime_error("The first element of first out must be 0.");
 		if(first_out.back() != arc_count)
 			throw runtime_error("The last element of first out must be the arc count.");
-		if(max_element_of(head) >= node_count)
+		if(!head.empty() && max_element_of(head) >= node_count)
 			throw runtime_error("The head vector contains an out-of-bounds node id.");
 		if(weight.size() != arc_count)
 			throw runtime_error("The weight vector must be as long as the number of arcs");
-- 
2.43.0


From 74fd18e4f5584e58b597896b2d451e324a9eb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 44/59] fix: tool: dimacs files without header are rejected

---
 src/convert_road_dimacs_coordinates.cpp | 3 +++
 src/convert_road_dimacs_graph.cpp       | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/convert_road_dimacs_coordinates.cpp b/src/convert_road_dimacs_coordinates.cpp
index 110aef3..d2337ec 100644
--- a/src/convert_road_dimacs_coordinates.cpp
+++ b/src/convert_road_dimacs_coordinates.cpp
@@ -88,6 +88,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The dimacs file has no header.");
+
 		for(unsigned i=0; i<node_count; ++i)
 			if(!seen[i])
 				throw runtime_error("Position for node "+std::to_string(i)+" is missing");
diff --git a/src/convert_road_dimacs_graph.cpp b/src/convert_road_dimacs_graph.cpp
index 0d06d2b..ca2d517 100644
--- a/src/convert_road_dimacs_graph.cpp
+++ b/src/convert_road_dimacs_graph.cpp
@@ -80,6 +80,9 @@ int main(int argc, char*argv[]){
 			}
 		}
 
+		if(!was_header_read)
+			throw std::runtime_error("The dimacs file has no header.");
+
 		if(next_arc != arc_count)
 			throw std::runtime_error("The arc count in the header ("+to_string(arc_count)+") does not correspond with the actual number of arcs ("+to_string(next_arc)+").");
 
-- 
2.43.0


From 784060cec36ba9af498a0e2f875030ad856ff70e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:52 +0000
Subject: [PATCH 45/59] fix: tool: show_path rejects the first node id that is
 out of bounds

---
 src/show_path.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/show_path.cpp b/src/show_path.cpp
index 8bc072c..edc6876 100644
--- a/src/show_path.cpp
+++ b/src/show_path.cpp
@@ -36,9 +36,9 @@ int main(int argc, char*argv[]){
 
 		unsigned source, target;
 		while(cin >> source >> target){
-			if(source > ch.node_count())
+			if(source >= ch.node_count())
 				throw runtime_error("Source out of bounds");
-			if(target > ch.node_count())
+			if(target >= ch.node_count())
 				throw runtime_error("Target out of bounds");
 
 			ch_query.reset().add_source(source).add_target(target).run();
-- 
2.43.0


From b6c6c315e9180c88f09cd13aaba0c23784b5e098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:31 +0000
Subject: [PATCH 46/59] fix: tool: travel times of long arcs overflowed in
 osm_extract

---
 src/osm_extract.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 3a46833..88eb90c 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -95,9 +95,13 @@ int main(int argc, char*argv[]){
 
 		std::vector<uint32_t>travel_time = routing_graph.geo_distance;
 		for(unsigned a=0; a<arc_count; ++a){
-			travel_time[a] *= 18000;
-			travel_time[a] /= way_speed[routing_graph.way[a]];
-			travel_time[a] /= 5;
+			uint64_t arc_travel_time = travel_time[a];
+			arc_travel_time *= 18000;
+			arc_travel_time /= way_speed[routing_graph.way[a]];
+			arc_travel_time /= 5;
+			if(arc_travel_time > inf_weight)
+				arc_travel_time = inf_weight;
+			travel_time[a] = arc_travel_time;
 		}
 
 		{
-- 
2.43.0


From 3b7c6cffe1f8dfc46ff59474267f22ba6e7f2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:31 +0000
Subject: [PATCH 47/59] fix: tool: osm_extract read past the end of an extract
 without arcs

---
 src/osm_extract.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/osm_extract.cpp b/src/osm_extract.cpp
index 88eb90c..1f39f3b 100644
--- a/src/osm_extract.cpp
+++ b/src/osm_extract.cpp
@@ -104,7 +104,7 @@ int main(int argc, char*argv[]){
 			travel_time[a] = arc_travel_time;
 		}
 
-		{
+		if(arc_count != 0){
 			unsigned max_arc = invalid_id;
 			unsigned max_travel_time = 0;
 			for(unsigned a=0; a<arc_count; ++a){
-- 
2.43.0


From 819f43ba5423d895a7f1c4b0db93720062b650e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:50 +0000
Subject: [PATCH 48/59] fix: tool: generated node ids and times stay in range
 for more than 2^31 nodes

---
 src/generate_dijkstra_rank_test_queries.cpp | 2 +-
 src/generate_random_node_list.cpp           | 2 +-
 src/generate_random_source_times.cpp        | 2 +-
 src/generate_test_queries.cpp               | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/generate_dijkstra_rank_test_queries.cpp b/src/generate_dijkstra_rank_test_queries.cpp
index 5af385f..ff5c3b3 100644
--- a/src/generate_dijkstra_rank_test_queries.cpp
+++ b/src/generate_dijkstra_rank_test_queries.cpp
@@ -64,7 +64,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating test queries ... " << flush;
 
 		std::default_random_engine gen(random_seed);
-		std::uniform_int_distribution<int> dist(0, node_count-1);
+		std::uniform_int_distribution<unsigned> dist(0, node_count-1);
 
 		Dijkstra dij(first_out, tail, head);
 
diff --git a/src/generate_random_node_list.cpp b/src/generate_random_node_list.cpp
index 06673c9..5aefaef 100644
--- a/src/generate_random_node_list.cpp
+++ b/src/generate_random_node_list.cpp
@@ -35,7 +35,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
-		uniform_int_distribution<int> dist(0, node_count-1);
+		uniform_int_distribution<unsigned> dist(0, node_count-1);
 		vector<unsigned>v(query_count);
 		for(auto&x:v)
 			x = dist(gen);
diff --git a/src/generate_random_source_times.cpp b/src/generate_random_source_times.cpp
index a65e009..ea25a51 100644
--- a/src/generate_random_source_times.cpp
+++ b/src/generate_random_source_times.cpp
@@ -35,7 +35,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating ... " << flush;
 
 		default_random_engine gen(random_seed);
-		uniform_int_distribution<int> dist(0, period-1);
+		uniform_int_distribution<unsigned> dist(0, period-1);
 		vector<unsigned>source_time(time_count);
 		for(auto&x:source_time)
 			x = dist(gen);
diff --git a/src/generate_test_queries.cpp b/src/generate_test_queries.cpp
index 8883798..a90a56e 100644
--- a/src/generate_test_queries.cpp
+++ b/src/generate_test_queries.cpp
@@ -34,7 +34,7 @@ int main(int argc, char*argv[]){
 		cout << "Generating test queries ... " << flush;
 
 		std::default_random_engine gen(random_seed);
-		std::uniform_int_distribution<int> dist(0, node_count-1);
+		std::uniform_int_distribution<unsigned> dist(0, node_count-1);
 
 		for(unsigned i=0; i<query_count; ++i){
 			source[i] = dist(gen);
-- 
2.43.0


From 996620ba4c5b4c9c920dc681a5602ff49f1591aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 49/59] fix: CCH query reset must resize if the hierarchy was
 refilled in place

---
 src/customizable_contraction_hierarchy.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index 16edd51..df7fcd8 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1966,7 +1966,7 @@ CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::re
 }
 
 CustomizableContractionHierarchyQuery& CustomizableContractionHierarchyQuery::reset(const CustomizableContractionHierarchyMetric&metric){
-	if(this->cch == metric.cch) {
+	if(this->cch == metric.cch && in_forward_search_space.size() == metric.cch->node_count()) {
 		this->metric = &metric;
 		reset();
 	} else {
-- 
2.43.0


From 3cf952ab0219ef42f8a271f23c354ac2447c06cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:55 +0000
Subject: [PATCH 50/59] fix: report relation member lists of unequal length

---
 src/osm_decoder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/osm_decoder.cpp b/src/osm_decoder.cpp
index ba73850..38f04a0 100644
--- a/src/osm_decoder.cpp
+++ b/src/osm_decoder.cpp
@@ -641,6 +641,8 @@ namespace {
 						throw std::runtime_error("PBF error: Unknown relation type.");
 					member_list.push_back({member_type, member_id, role});
 				}
+				if(member_role_begin != member_role_end || member_type_begin != member_type_end)
+					throw std::runtime_error("PBF error: relation member role, ID and type arrays do not decode to equal length.");
 				relation_callback(osm_relation_id, member_list, tag_map);
 			};
 
-- 
2.43.0


From 9b1d06c17db58bbb9b6d63da8364d5131a8ffbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:30 +0000
Subject: [PATCH 51/59] fix: CH validity check must not write out of bounds for
 a broken order

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 1c9e88c..098a2dc 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1190,6 +1190,8 @@ ContractionHierarchy ContractionHierarchy::build_given_order(
 void check_contraction_hierarchy_for_errors(const ContractionHierarchy&ch){
 	unsigned node_count = ch.rank.size();
 
+	if(!is_permutation(ch.order))
+		throw std::runtime_error("CH is invalid because: !is_permutation(ch.order)");
 	if(ch.rank != invert_permutation(ch.order))
 		throw std::runtime_error("CH is invalid because: ch.rank != invert_permutation(ch.order)");
 
-- 
2.43.0


From c975be6ff9cdaafbd501a1bcd38b4f7121341cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:26 +0000
Subject: [PATCH 52/59] fix: tag maps with more than 65536 tags

---
 include/routingkit/tag_map.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/routingkit/tag_map.h b/include/routingkit/tag_map.h
index 2f1acc3..2f12e03 100644
--- a/include/routingkit/tag_map.h
+++ b/include/routingkit/tag_map.h
@@ -52,8 +52,8 @@ public:
 
 	void clear(){
 		for(auto x:hash_element_list){
-			entry_begin[x>>16] = 0;
-			entry_end[x>>16] = 0;
+			entry_begin[x>>32] = 0;
+			entry_end[x>>32] = 0;
 		}
 		hash_element_list.clear();
 		entry.clear();
@@ -66,15 +66,15 @@ public:
 
 		hash_element_list.resize(key_value_count);
 		for(unsigned i=0; i<key_value_count; ++i)
-			hash_element_list[i] = (compute_hash(get_key(i))<<16) | i;
+			hash_element_list[i] = (static_cast<unsigned long long>(compute_hash(get_key(i)))<<32) | i;
 		
 		std::sort(hash_element_list.begin(), hash_element_list.end());
 
 		entry.resize(key_value_count);
 		unsigned prev_hash = hash_count;
 		for(unsigned i=0; i<key_value_count; ++i){
-			unsigned hash = hash_element_list[i] >> 16;
-			unsigned j = hash_element_list[i] & 0xFFFFu;
+			unsigned hash = hash_element_list[i] >> 32;
+			unsigned j = hash_element_list[i] & 0xFFFFFFFFu;
 			entry[i].key = get_key(j);
 			entry[i].value = get_value(j);
 
@@ -118,7 +118,7 @@ public:
 	}
 
 private:
-	std::vector<unsigned>hash_element_list;
+	std::vector<unsigned long long>hash_element_list;
 	std::vector<Entry>entry;
 	std::vector<unsigned>entry_begin, entry_end;
 };
-- 
2.43.0


From ef5f7c04cc181603615a77ac3a7181a6d38ffde1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:35 +0000
Subject: [PATCH 53/59] fix: size of contraction hierarchy files with more than
 2^30 arcs

---
 src/contraction_hierarchy.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 098a2dc..30eac8d 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1373,23 +1373,27 @@ namespace{
 ContractionHierarchy ContractionHierarchy::read(std::function<void(char*, unsigned long long)>in, unsigned long long file_size){
 	CHFileHeader header = read_value<CHFileHeader>(in);
 	check_header(header);
+	// The sizes of large files do not fit into 32 bits.
+	unsigned long long node_count = header.node_count;
+	unsigned long long forward_arc_count = header.forward_arc_count;
+	unsigned long long backward_arc_count = header.backward_arc_count;
 	unsigned long long expected_file_size = (
 		  sizeof(CHFileHeader)
 		+ sizeof(unsigned)*(
-			header.node_count
+			node_count
 			+ (
-				header.node_count+1 +
-				4*header.forward_arc_count
+				node_count+1 +
+				4*forward_arc_count
 
 			)
 			+ (
-				header.node_count+1 +
-				4*header.backward_arc_count
+				node_count+1 +
+				4*backward_arc_count
 
 			)
 		)
-		+ ((header.backward_arc_count+511)/512) * 64
-		+ ((header.forward_arc_count+511)/512) * 64
+		+ ((backward_arc_count+511)/512) * 64
+		+ ((forward_arc_count+511)/512) * 64
 	);
 	if(expected_file_size != file_size)
 		throw std::runtime_error("CH file has a different size than specified in the header. This file is corrupt.");
-- 
2.43.0


From a069743816db10f13d7698e3fa0783ce99c2f5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:35 +0000
Subject: [PATCH 54/59] fix: reject contraction hierarchy files whose ranks are
 not a permutation

---
 src/contraction_hierarchy.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 30eac8d..22c1b73 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1350,6 +1350,8 @@ namespace{
 	ContractionHierarchy finish_read(std::function<void(char*, unsigned long long)>in, CHFileHeader header){
 		ContractionHierarchy ch;
 		ch.rank = read_vector<unsigned>(in, header.node_count);
+		if(!is_permutation(ch.rank))
+			throw std::runtime_error("The ranks in the CH file are not a permutation. This file is corrupt.");
 		ch.order = invert_permutation(ch.rank);
 
 		ch.forward.first_out = read_vector<unsigned>(in, header.node_count+1);
-- 
2.43.0


From 5ca0d11a25f4a6815269b6b92abd8378487afc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:45 +0000
Subject: [PATCH 55/59] fix: inertial flow balance overflowed for more than
 2^32/100 nodes

---
 src/nested_dissection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nested_dissection.cpp b/src/nested_dissection.cpp
index 9d196a3..c92ace1 100644
--- a/src/nested_dissection.cpp
+++ b/src/nested_dissection.cpp
@@ -500,7 +500,7 @@ CutSide inertial_flow(
 
 	const unsigned node_count = g.node_count();
 
-	unsigned side_size = (node_count*min_balance)/100;
+	unsigned side_size = (static_cast<unsigned long long>(node_count)*min_balance)/100;
 	if(side_size == 0)
 		side_size = 1;
 
-- 
2.43.0


From 5c9840e78941602c8ad8cdb850b2cb4fcd0737f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:51 +0000
Subject: [PATCH 56/59] fix: Dijkstra distances overflowed on paths longer than
 the infinity weight

---
 include/routingkit/dijkstra.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/routingkit/dijkstra.h b/include/routingkit/dijkstra.h
index 585f969..f5e68ef 100644
--- a/include/routingkit/dijkstra.h
+++ b/include/routingkit/dijkstra.h
@@ -92,7 +92,8 @@ public:
 		for(unsigned a=(*first_out)[p.id]; a<(*first_out)[p.id+1]; ++a){
 			if(!was_popped.is_set((*head)[a])){
 				unsigned w = get_weight(a, p.key);
-				if(w < inf_weight){
+				// Paths of length inf_weight or more are as good as no path. Their sums could overflow.
+				if(p.key < inf_weight && w < inf_weight - p.key){
 					if(queue.contains_id((*head)[a])){
 						if(queue.decrease_key({(*head)[a], p.key + w})){
 							predecessor_arc[(*head)[a]] = a;
-- 
2.43.0


From cfc03e07a132671c501b98e978b986b2c9c69ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:51 +0000
Subject: [PATCH 57/59] fix: shortcut weights overflowed for paths longer than
 the infinity weight

---
 src/contraction_hierarchy.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 22c1b73..5ef16bd 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -331,6 +331,10 @@ namespace{
 
 				unsigned next_node_distance = distance_to_popped_node + graph_out(popped_node, out_arc).weight;
 
+				// Paths of this length are as good as no path. Further sums could overflow.
+				if(next_node_distance >= inf_weight)
+					continue;
+
 				if(was_forward_pushed.is_set(next_node)){
 					if(next_node_distance < forward_tentative_distance[next_node]){
 						forward_queue.decrease_key({next_node, next_node_distance});
@@ -538,6 +542,7 @@ namespace{
 				unsigned out_node = graph.out(node, out_arc).node;
 				if(in_node != out_node){
 					if(
+						graph.in(node, in_arc).weight + graph.out(node, out_arc).weight < inf_weight &&
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
 							graph.in(node, in_arc).weight + graph.out(node, out_arc).weight
@@ -572,6 +577,7 @@ namespace{
 				unsigned out_node = graph.out(node_being_contracted, out_arc).node;
 				if(in_node != out_node){
 					if(
+						graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight < inf_weight &&
 						!shorter_path_test.does_shorter_or_equal_path_to_target_exist(
 							out_node,
 							graph.in(node_being_contracted, in_arc).weight + graph.out(node_being_contracted, out_arc).weight
-- 
2.43.0


From 51ff35cd3b413586eaca1cfcc7d94b87c8466835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 58/59] fix: unpacking paths of badly ordered CCHs exhausted
 the call stack

---
 src/customizable_contraction_hierarchy.cpp | 97 +++++++++++++---------
 1 file changed, 59 insertions(+), 38 deletions(-)

diff --git a/src/customizable_contraction_hierarchy.cpp b/src/customizable_contraction_hierarchy.cpp
index df7fcd8..0fee8f2 100644
--- a/src/customizable_contraction_hierarchy.cpp
+++ b/src/customizable_contraction_hierarchy.cpp
@@ -1375,47 +1375,68 @@ namespace{
 		unsigned x, unsigned y, unsigned xy,
 		const OnNewSegment&on_new_segment
 	){
-		assert(x == cch.up_tail[xy]);
-		assert(y == cch.up_head[xy]);
+		struct PendingArc{
+			bool is_forward;
+			unsigned x, y, xy;
+		};
 
-		unsigned
-			bottom_node = invalid_id,
-			bottom_arc,
-			mid_arc;
+		// The nesting depth of the triangles can be linear in the number of nodes. Recursion could exhaust the call stack.
+		std::vector<PendingArc>stack;
 
-		auto unpacker = [&](
-			unsigned bottom_arc_,  unsigned mid_arc_,  unsigned top_arc_,
-			unsigned bottom_node_, unsigned mid_node_, unsigned top_node_
-		){
-			(void)top_node_; (void)mid_node_;
+		for(;;){
+			assert(x == cch.up_tail[xy]);
+			assert(y == cch.up_head[xy]);
 
-			bool fits;
-			if(is_forward)
-				fits = metric.forward[top_arc_] == metric.backward[bottom_arc_] + metric.forward[mid_arc_];
-			else
-				fits = metric.backward[top_arc_] == metric.forward[bottom_arc_] + metric.backward[mid_arc_];
-			if(fits){
-				bottom_node = bottom_node_;
-				bottom_arc = bottom_arc_;
-				mid_arc = mid_arc_;
-				return false;
-			}else{
-				return true;
-			}
-		};
-		forall_lower_triangles_of_arc(cch, x, y, xy, unpacker);
-		if(bottom_node == invalid_id){
-			if(is_forward)
-				on_new_segment(x, xy, true);
-			else
-				on_new_segment(y, xy, false);
-		} else {
-			if(is_forward){
-				unpack_arc(cch, metric, false, bottom_node, x, bottom_arc, on_new_segment);
-				unpack_arc(cch, metric, true, bottom_node, y, mid_arc, on_new_segment);
-			}else{
-				unpack_arc(cch, metric, false, bottom_node, y, mid_arc, on_new_segment);
-				unpack_arc(cch, metric, true, bottom_node, x, bottom_arc, on_new_segment);
+			unsigned
+				bottom_node = invalid_id,
+				bottom_arc,
+				mid_arc;
+
+			auto unpacker = [&](
+				unsigned bottom_arc_,  unsigned mid_arc_,  unsigned top_arc_,
+				unsigned bottom_node_, unsigned mid_node_, unsigned top_node_
+			){
+				(void)top_node_; (void)mid_node_;
+
+				bool fits;
+				if(is_forward)
+					fits = metric.forward[top_arc_] == metric.backward[bottom_arc_] + metric.forward[mid_arc_];
+				else
+					fits = metric.backward[top_arc_] == metric.forward[bottom_arc_] + metric.backward[mid_arc_];
+				if(fits){
+					bottom_node = bottom_node_;
+					bottom_arc = bottom_arc_;
+					mid_arc = mid_arc_;
+					return false;
+				}else{
+					return true;
+				}
+			};
+			forall_lower_triangles_of_arc(cch, x, y, xy, unpacker);
+			if(bottom_node == invalid_id){
+				if(is_forward)
+					on_new_segment(x, xy, true);
+				else
+					on_new_segment(y, xy, false);
+
+				if(stack.empty())
+					return;
+				is_forward = stack.back().is_forward;
+				x = stack.back().x;
+				y = stack.back().y;
+				xy = stack.back().xy;
+				stack.pop_back();
+			} else {
+				if(is_forward){
+					stack.push_back({true, bottom_node, y, mid_arc});
+					y = x;
+					xy = bottom_arc;
+				}else{
+					stack.push_back({true, bottom_node, x, bottom_arc});
+					xy = mid_arc;
+				}
+				is_forward = false;
+				x = bottom_node;
 			}
 		}
 	}
-- 
2.43.0


From aa67743945eef9a70a29209cc19698dd291f2d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:51:51 +0000
Subject: [PATCH 59/59] fix: unpacking paths of badly ordered CHs exhausted the
 call stack

---
 src/contraction_hierarchy.cpp | 45 +++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/src/contraction_hierarchy.cpp b/src/contraction_hierarchy.cpp
index 5ef16bd..272d77e 100644
--- a/src/contraction_hierarchy.cpp
+++ b/src/contraction_hierarchy.cpp
@@ -1734,33 +1734,38 @@ namespace{
 	// The source node of the path must be obtained by some other mean
 
 	template<class OnNewInputArc>
-	void unpack_forward_arc(const ContractionHierarchy&ch, unsigned arc, const OnNewInputArc&on_new_input_arc);
-
-	template<class OnNewInputArc>
-	void unpack_backward_arc(const ContractionHierarchy&ch, unsigned arc, const OnNewInputArc&on_new_input_arc);
+	void unpack_arc(const ContractionHierarchy&ch, bool is_forward, unsigned arc, const OnNewInputArc&on_new_input_arc){
+		// The nesting depth of the shortcuts can be linear in the number of nodes. Recursion could exhaust the call stack.
+		std::vector<unsigned>forward_stack;
+
+		for(;;){
+			const ContractionHierarchy::Side&side = is_forward ? ch.forward : ch.backward;
+			if(side.is_shortcut_an_original_arc.is_set(arc)){
+				on_new_input_arc(side.shortcut_first_arc[arc], side.shortcut_second_arc[arc]);
+				if(forward_stack.empty())
+					return;
+				// The second half of every shortcut is a forward arc
+				is_forward = true;
+				arc = forward_stack.back();
+				forward_stack.pop_back();
+			} else {
+				assert(side.shortcut_first_arc[arc] < ch.backward.head.size());
+				assert(side.shortcut_second_arc[arc] < ch.forward.head.size());
+				forward_stack.push_back(side.shortcut_second_arc[arc]);
+				is_forward = false;
+				arc = side.shortcut_first_arc[arc];
+			}
+		}
+	}
 
 	template<class OnNewInputArc>
 	void unpack_forward_arc(const ContractionHierarchy&ch, unsigned arc, const OnNewInputArc&on_new_input_arc){
-		if(ch.forward.is_shortcut_an_original_arc.is_set(arc)){
-			on_new_input_arc(ch.forward.shortcut_first_arc[arc], ch.forward.shortcut_second_arc[arc]);
-		} else {
-			assert(ch.forward.shortcut_first_arc[arc] < ch.backward.head.size());
-			assert(ch.forward.shortcut_second_arc[arc] < ch.forward.head.size());
-			unpack_backward_arc(ch, ch.forward.shortcut_first_arc[arc], on_new_input_arc);
-			unpack_forward_arc(ch, ch.forward.shortcut_second_arc[arc], on_new_input_arc);
-		}
+		unpack_arc(ch, true, arc, on_new_input_arc);
 	}
 
 	template<class OnNewInputArc>
 	void unpack_backward_arc(const ContractionHierarchy&ch, unsigned arc, const OnNewInputArc&on_new_input_arc){
-		if(ch.backward.is_shortcut_an_original_arc.is_set(arc)){
-			on_new_input_arc(ch.backward.shortcut_first_arc[arc], ch.backward.shortcut_second_arc[arc]);
-		} else {
-			assert(ch.backward.shortcut_first_arc[arc] < ch.backward.head.size());
-			assert(ch.backward.shortcut_second_arc[arc] < ch.forward.head.size());
-			unpack_backward_arc(ch, ch.backward.shortcut_first_arc[arc], on_new_input_arc);
-			unpack_forward_arc(ch, ch.backward.shortcut_second_arc[arc], on_new_input_arc);
-		}
+		unpack_arc(ch, false, arc, on_new_input_arc);
 	}
 }
 
-- 
2.43.0

