From 91dd894389c7489f8e26bf770d4282d304f83005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:54 +0000
Subject: [PATCH 01/25] fix: contract symmetric tensors whose product has
 blocks without common component

A block of the product for which one operand has no block (no segment of
the contracted edges carries that charge) made blocks.at throw; such a
block is zero.
---
 include/TAT/contract.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index fb83f36..5a1c951 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -530,8 +530,15 @@ namespace TAT {
          // m k n
          auto symmetries_1 = put_common_1_right ? symmetries : decltype(symmetries){symmetries[1], symmetries[0]};
          auto symmetries_2 = put_common_2_right ? decltype(symmetries){symmetries[1], symmetries[0]} : symmetries;
-         const auto& data_1 = tensor_1_merged.core->blocks.at(symmetries_1);
-         const auto& data_2 = tensor_2_merged.core->blocks.at(symmetries_2);
+         const auto found_1 = tensor_1_merged.core->blocks.find(symmetries_1);
+         const auto found_2 = tensor_2_merged.core->blocks.find(symmetries_2);
+         if (found_1 == tensor_1_merged.core->blocks.end() || found_2 == tensor_2_merged.core->blocks.end()) {
+            // 没有公共边的分量对应这个block
+            std::fill(data.begin(), data.end(), 0);
+            continue;
+         }
+         const auto& data_1 = found_1->second;
+         const auto& data_2 = found_2->second;
          const int m = product_result.core->edges[0].map.at(symmetries[0]);
          const int n = product_result.core->edges[1].map.at(symmetries[1]);
          const int k = common_edge.map.at(symmetries[1]);
-- 
2.43.0


From 66097be16a9d6a07487940bac1522d0b557c3988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:54 +0000
Subject: [PATCH 02/25] fix: reject paired edges of different dimension in
 dense contract

The symmetric path already reports it; the dense one read out of bounds
or returned garbage.
---
 include/TAT/contract.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index 5a1c951..f475d78 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -623,6 +623,11 @@ namespace TAT {
       if (contract_names_1.size() != common_rank || contract_names_2.size() != common_rank) {
          TAT_error("Duplicated Contract Name");
       }
+      for (const auto& [name_1, name_2] : contract_names) {
+         if (!(tensor_1.core->edges[tensor_1.name_to_index.at(name_1)] == tensor_2.core->edges[tensor_2.name_to_index.at(name_2)])) {
+            TAT_error("Different Dimension to Contract");
+         }
+      }
       // 确认fuse name即相同名称的边
       pmr::set<Name> fuse_names;
       for (const auto& name : tensor_1.names) {
-- 
2.43.0


From 2c4b1cb541a7678e1653ef912e70b20aaf4bb545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:53 +0000
Subject: [PATCH 03/25] fix: skip blocks of removed segments when edge_operator
 cuts without split or reverse

Contracting bosonic symmetric tensors whose paired edges do not have
exactly opposite charges threw out of map::at: the blocks of the cut
segments were still copied.
---
 include/TAT/edge_operator.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index f0b8117..2a84627 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -561,7 +561,19 @@ namespace TAT {
          }
       } else {
          for (const auto& [symmetries, block] : core->blocks) {
-            data_before_transpose_to_source[symmetries] = {symmetries, pmr::vector<Size>(rank_before_split, 0)};
+            bool success = true;
+            if (!edge_and_symmetries_to_cut_before_all.empty()) {
+               // 跳过含有已被cut掉的symmetry的block
+               for (Rank i = 0; i < rank_before_split; i++) {
+                  if (edge_before_split[i].map.find(symmetries[i]) == edge_before_split[i].map.end()) {
+                     success = false;
+                     break;
+                  }
+               }
+            }
+            if (success) {
+               data_before_transpose_to_source[symmetries] = {symmetries, pmr::vector<Size>(rank_before_split, 0)};
+            }
          }
       }
       auto data_after_transpose_to_destination = MapFromTransposeToSourceDestination();
-- 
2.43.0


From c6d066a5aa8620d593f0db9e1945250e91a2f39d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:20 +0000
Subject: [PATCH 04/25] fix: helpers locating the components of a merged edge
 (used by the next two fixes)

---
 include/TAT/edge_operator.hpp | 87 +++++++++++++++++++++++++++++++++++
 1 file changed, 87 insertions(+)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 2a84627..bf11d66 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -42,6 +42,93 @@ namespace TAT {
       return true;
    }
 
+   /**
+    * 一组边合并后, 各个分量在合并后的边中的位置
+    *
+    * 从每个被合并边的symmetry到(合并后的symmetry, offset, dimension)的映射, 与`edge_operator`中merge的顺序一致
+    * 对于互为共轭的两组边, 因为symmetry取反后排序不同, 对应的分量的offset不一定相同
+    */
+   template<typename Symmetry, typename VectorEdge>
+   auto get_merged_offset(const VectorEdge& edges) {
+      auto result = pmr::map<pmr::vector<Symmetry>, std::tuple<Symmetry, Size, Size>>();
+      result[pmr::vector<Symmetry>{}] = {Symmetry(), 0, 1};
+      for (const auto& edge : edges) {
+         auto next = pmr::map<pmr::vector<Symmetry>, std::tuple<Symmetry, Size, Size>>();
+         for (const auto& [symmetries, position] : result) {
+            for (const auto& [symmetry, dimension] : edge.map) {
+               auto new_symmetries = symmetries;
+               new_symmetries.push_back(symmetry);
+               next[new_symmetries] = {std::get<0>(position) + symmetry, 0, std::get<2>(position) * dimension};
+            }
+         }
+         result = std::move(next);
+      }
+      auto total = pmr::map<Symmetry, Size>();
+      for (auto& [symmetries, position] : result) {
+         auto& [symmetry, offset, dimension] = position;
+         offset = total[symmetry];
+         total[symmetry] += dimension;
+      }
+      return result;
+   }
+
+   /**
+    * 将由edges合并得到的边重排(或者恢复), 使得其各个分量的顺序和与其共轭的conjugated_edges合并得到的边一致
+    */
+   template<typename ScalarType, typename Symmetry, typename Name, typename VectorEdge>
+   void align_merged_edge(
+         Tensor<ScalarType, Symmetry, Name>& tensor,
+         const Rank position,
+         const VectorEdge& edges,
+         const VectorEdge& conjugated_edges,
+         const bool inverse) {
+      const auto offset_list = get_merged_offset<Symmetry>(edges);
+      const auto conjugated_offset_list = get_merged_offset<Symmetry>(conjugated_edges);
+      auto plan = pmr::map<Symmetry, pmr::vector<std::tuple<Size, Size, Size>>>();
+      bool changed = false;
+      for (const auto& [symmetries, item] : offset_list) {
+         const auto& [symmetry, offset, dimension] = item;
+         auto conjugated_symmetries = pmr::vector<Symmetry>();
+         for (const auto& s : symmetries) {
+            conjugated_symmetries.push_back(-s);
+         }
+         auto found = conjugated_offset_list.find(conjugated_symmetries);
+         if (found == conjugated_offset_list.end() || std::get<2>(found->second) != dimension) {
+            TAT_error("Cannot align merged edges which are not conjugated to each other");
+         }
+         const auto conjugated_offset = std::get<1>(found->second);
+         changed |= offset != conjugated_offset;
+         if (inverse) {
+            plan[symmetry].push_back({conjugated_offset, offset, dimension});
+         } else {
+            plan[symmetry].push_back({offset, conjugated_offset, dimension});
+         }
+      }
+      if (!changed) {
+         return;
+      }
+      for (auto& [symmetries, block] : tensor.core->blocks) {
+         Size left = 1;
+         Size right = 1;
+         for (Rank i = 0; i < symmetries.size(); i++) {
+            const auto dimension = tensor.core->edges[i].map.at(symmetries[i]);
+            if (i < position) {
+               left *= dimension;
+            } else if (i > position) {
+               right *= dimension;
+            }
+         }
+         const auto middle = tensor.core->edges[position].map.at(symmetries[position]);
+         const auto source = block;
+         for (Size i = 0; i < left; i++) {
+            for (const auto& [from, to, dimension] : plan.at(symmetries[position])) {
+               const auto begin = source.data() + (i * middle + from) * right;
+               std::copy(begin, begin + dimension * right, block.data() + (i * middle + to) * right);
+            }
+         }
+      }
+   }
+
    template<typename ScalarType, typename Symmetry, typename Name>
    template<
          typename MapNameName,
-- 
2.43.0


From 5dbc684a3b78c7bf5ab765e9846033434a0aae8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:06 +0000
Subject: [PATCH 05/25] fix: trace of several symmetric pairs and of tensors
 without neutral blocks

Merging several traced edges orders the components of the two sides
differently, because their charges are opposite, so wrong elements were
summed. A segment without partner or without any block made map::at
throw (or dereferenced the end iterator); it contributes nothing. Paired
edges of different dimension are rejected instead of read out of bounds.
---
 include/TAT/trace.hpp | 58 +++++++++++++++++++++++++++++++++----------
 1 file changed, 45 insertions(+), 13 deletions(-)

diff --git a/include/TAT/trace.hpp b/include/TAT/trace.hpp
index f71b71c..4b9af22 100644
--- a/include/TAT/trace.hpp
+++ b/include/TAT/trace.hpp
@@ -21,6 +21,7 @@
 #ifndef TAT_TRACE_HPP
 #define TAT_TRACE_HPP
 
+#include "edge_operator.hpp"
 #include "tensor.hpp"
 
 namespace TAT {
@@ -99,6 +100,22 @@ namespace TAT {
             }
          }
       }
+      // 被trace的各对边, 其symmetry互为相反数, 故merge后各个分量的顺序可能不同, 需要分别寻找位置
+      auto trace_1_edges = pmr::vector<BoseEdge<Symmetry>>();
+      auto trace_2_edges = pmr::vector<BoseEdge<Symmetry>>();
+      for (Rank i = 0; i < trace_1_names.size(); i++) {
+         const auto& map_1 = core->edges[name_to_index.at(trace_1_names[i])].map;
+         const auto& map_2 = core->edges[name_to_index.at(trace_2_names[i])].map;
+         for (const auto& [symmetry, dimension] : map_1) {
+            if (auto found = map_2.find(-symmetry); found != map_2.end() && found->second != dimension) {
+               TAT_error("Different Dimension to Trace");
+            }
+         }
+         trace_1_edges.push_back({map_1});
+         trace_2_edges.push_back({map_2});
+      }
+      const auto trace_1_offsets = get_merged_offset<Symmetry>(trace_1_edges);
+      const auto trace_2_offsets = get_merged_offset<Symmetry>(trace_2_edges);
       auto merged_tensor = edge_operator(
             {},
             {},
@@ -112,20 +129,35 @@ namespace TAT {
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {InternalName<Name>::Trace_1}}});
       // Trace_1和Trace_2一起merge, 而他们相连, 所以要有一个有效, Trace_3等一会会翻转回来, 所以没事
       auto traced_tensor = Tensor<ScalarType, Symmetry, Name>({InternalName<Name>::Trace_3}, {merged_tensor.core->edges[2]}).zero();
-      auto& destination_block = traced_tensor.core->blocks.begin()->second;
-      // 应该只有一个边, 所以也只有一个block
-      const Size line_size = destination_block.size();
+      // 应该只有一个边, 所以最多也只有一个block
+      if (traced_tensor.core->blocks.begin() != traced_tensor.core->blocks.end()) {
+         auto& destination_block = traced_tensor.core->blocks.begin()->second;
+         const Size line_size = destination_block.size();
 
-      for (const auto& [symmetry_1, dimension] : merged_tensor.core->edges[0].map) {
-         // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
-         auto symmetry_2 = -symmetry_1;
-         auto source_block = merged_tensor.core->blocks.at({symmetry_1, symmetry_2, Symmetry()});
-         auto dimension_plus_one = dimension + 1;
-         for (Size i = 0; i < dimension; i++) {
-            const ScalarType* __restrict source_data = source_block.data() + dimension_plus_one * i * line_size;
-            ScalarType* __restrict destination_data = destination_block.data();
-            for (Size j = 0; j < line_size; j++) {
-               destination_data[j] += source_data[j];
+         for (const auto& [symmetries_1, position_1] : trace_1_offsets) {
+            // 而source的形状应该是多个分块对角矩阵, 每个元素是一个向量, 我只需要把正对角的向量们求和
+            const auto& [symmetry_1, offset_1, dimension] = position_1;
+            auto symmetries_2 = pmr::vector<Symmetry>();
+            for (const auto& symmetry : symmetries_1) {
+               symmetries_2.push_back(-symmetry);
+            }
+            auto found = trace_2_offsets.find(symmetries_2);
+            if (found == trace_2_offsets.end()) {
+               continue;
+            }
+            const auto& [symmetry_2, offset_2, dimension_2] = found->second;
+            auto source_found = merged_tensor.core->blocks.find({symmetry_1, symmetry_2, Symmetry()});
+            if (source_found == merged_tensor.core->blocks.end()) {
+               continue;
+            }
+            const auto& source_block = source_found->second;
+            const auto row_size = merged_tensor.core->edges[1].map.at(symmetry_2);
+            for (Size i = 0; i < dimension; i++) {
+               const ScalarType* __restrict source_data = source_block.data() + ((offset_1 + i) * row_size + offset_2 + i) * line_size;
+               ScalarType* __restrict destination_data = destination_block.data();
+               for (Size j = 0; j < line_size; j++) {
+                  destination_data[j] += source_data[j];
+               }
             }
          }
       }
-- 
2.43.0


From 30b520ed73261290cb810bac3cedb9e927b40e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 06/25] fix: exponential over several symmetric pairs

The two merged edges carry opposite charges, so their components of one
block are in different order and the exponential of a column-permuted
matrix was returned. Align the columns with the rows first.
---
 include/TAT/exponential.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 606c54c..8445fa1 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -231,12 +231,26 @@ namespace TAT {
          }
       }
       auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names);
+      // 两组边的symmetry互为相反数, 故merge后各个分量的顺序可能不同, 需要将列的顺序与行对齐
+      auto merge_edges_1 = pmr::vector<BoseEdge<Symmetry>>();
+      auto merge_edges_2 = pmr::vector<BoseEdge<Symmetry>>();
+      for (const auto& [name, edge] : split_1) {
+         merge_edges_1.push_back(edge);
+      }
+      for (const auto& [name, edge] : split_2) {
+         merge_edges_2.push_back(edge);
+      }
+      const bool first_is_1 = merged_names.front() == InternalName<Name>::Exp_1;
+      const auto& row_edges = first_is_1 ? merge_edges_1 : merge_edges_2;
+      const auto& column_edges = first_is_1 ? merge_edges_2 : merge_edges_1;
+      align_merged_edge(tensor_merged, 1, column_edges, row_edges, false);
       auto result = tensor_merged.same_shape();
       for (auto& [symmetries, data_source] : tensor_merged.core->blocks) {
          auto& data_destination = result.core->blocks.at(symmetries);
          auto n = tensor_merged.core->edges[0].map.at(symmetries[0]);
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
       }
+      align_merged_edge(result, 1, column_edges, row_edges, true);
       return result.edge_operator({}, split_map_result, reverse_set, {}, result_names);
    }
 } // namespace TAT
-- 
2.43.0


From f644cf46c859f7d5e600a2bfe0c4afbe9f939c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 07/25] fix: compare the first name too before treating a
 transpose as a rename

Transposing to a list that differs from the names only in its first entry
silently renamed the first edge instead of reporting the unknown name.
---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index bf11d66..c3635fd 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -34,7 +34,7 @@ namespace TAT {
       if (size1 != size2) {
          return false;
       }
-      for (auto i = 1; i < size1; i++) {
+      for (auto i = 0; i < size1; i++) {
          if (vector1[i] != vector2[i]) {
             return false;
          }
-- 
2.43.0


From dd0fa13fbb3ea56bcb2cb3b3770d260d74319b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 08/25] fix: initialise the arrow of an edge merged from
 neutral edges or from none

The fermi arrow of such an edge was indeterminate.
---
 include/TAT/edge_operator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index c3635fd..9b0d8a7 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -486,7 +486,7 @@ namespace TAT {
                end_of_merge++;
             }
             // arrow begin
-            Arrow arrow;
+            Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
-- 
2.43.0


From ad83c402a85f0b7a2411b0470a6657dc85a06fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 09/25] fix: accumulate the total charge in expand of symmetric
 tensors

The total was always zero, so an edge with non-zero charge could not be
expanded, and incompatible expansions were not reported.
---
 include/TAT/shrink_and_expand.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/TAT/shrink_and_expand.hpp b/include/TAT/shrink_and_expand.hpp
index 0e0ef35..aa4a889 100644
--- a/include/TAT/shrink_and_expand.hpp
+++ b/include/TAT/shrink_and_expand.hpp
@@ -51,11 +51,13 @@ namespace TAT {
             new_edges.push_back({{{Symmetry(), dimension}}});
          } else if constexpr (is_fermi) {
             const auto& [arrow, symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({arrow, {{symmetry, dimension}}});
          } else {
             const auto& [symmetry, index, dimension] = information;
+            total_symmetry += symmetry;
             total_offset *= dimension;
             total_offset += index;
             new_edges.push_back({{{symmetry, dimension}}});
-- 
2.43.0


From 02116561bdbfae98571d4e4cfaae83fa49c755d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:09 +0000
Subject: [PATCH 10/25] fix: cut in svd when the remaining singular values are
 zero

With only zero singular values left, no segment was selected and the
neutral one was enlarged, even beyond its size or when it does not exist.
---
 include/TAT/svd.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/TAT/svd.hpp b/include/TAT/svd.hpp
index 3d0acb9..8cbe170 100644
--- a/include/TAT/svd.hpp
+++ b/include/TAT/svd.hpp
@@ -367,9 +367,11 @@ namespace TAT {
          for (Size i = 0; i < cut; i++) {
             Symmetry maximum_position;
             real_base_t<ScalarType> maximum_singular = 0;
+            bool found = false;
             for (const auto& [symmetry, vector_s] : result_s) {
                if (auto& this_remain = remain_dimension_u.at(symmetry); this_remain != vector_s.size()) {
-                  if (auto this_singular = vector_s[this_remain]; this_singular > maximum_singular) {
+                  if (auto this_singular = vector_s[this_remain]; !found || this_singular > maximum_singular) {
+                     found = true;
                      maximum_singular = this_singular;
                      maximum_position = symmetry;
                   }
-- 
2.43.0


From 440d577b42c4b271fcc62b675d9acef1cbcc679f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:28 +0000
Subject: [PATCH 11/25] fix: identity of symmetric tensors with several pairs,
 of rank 0 and with empty edges

Ones were also put into blocks where the charges of a pair do not cancel,
with strides that do not fit them; rank 0 and zero dimensions ran out of
bounds.
---
 include/TAT/tensor_miscellaneous.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/TAT/tensor_miscellaneous.hpp b/include/TAT/tensor_miscellaneous.hpp
index 8d95a45..9fb3503 100644
--- a/include/TAT/tensor_miscellaneous.hpp
+++ b/include/TAT/tensor_miscellaneous.hpp
@@ -188,6 +188,9 @@ namespace TAT {
       auto current_index = VectorSize(rank, 0);
       while (true) {
          *pointer = 1;
+         if (rank == 0) {
+            return;
+         }
          Rank active_position = rank - 1;
 
          current_index[active_position]++;
@@ -242,6 +245,16 @@ namespace TAT {
       auto result = same_shape().zero();
 
       for (auto& [symmetries, block] : result.core->blocks) {
+         // 只有每一对边的symmetry都互为相反数的block才有非零元
+         bool on_diagonal = !block.empty();
+         for (const auto& [index_1, index_2] : ordered_pair_index) {
+            if (symmetries[index_1] != -symmetries[index_2]) {
+               on_diagonal = false;
+            }
+         }
+         if (!on_diagonal) {
+            continue;
+         }
          auto dimension = pmr::vector<Size>(rank);
          auto leading = pmr::vector<Size>(rank);
          for (Rank i = rank; i-- > 0;) {
-- 
2.43.0


From 84e5af39c2bcf5b98b9a453dbe96692de15852ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:52 +0000
Subject: [PATCH 12/25] fix: keep the arrow when merging edges that hold only
 neutral segments

Otherwise the edges merged on two contractible tensors both get the
default arrow and can no longer be contracted with each other.
---
 include/TAT/edge_operator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/edge_operator.hpp b/include/TAT/edge_operator.hpp
index 9b0d8a7..8d5231b 100644
--- a/include/TAT/edge_operator.hpp
+++ b/include/TAT/edge_operator.hpp
@@ -489,6 +489,10 @@ namespace TAT {
             Arrow arrow = false;
             bool arrow_fixed = false;
             if constexpr (is_fermi) {
+               if (start_of_merge < end_of_merge) {
+                  // 如果所有边都没有有效的方向, 取第一个边的方向
+                  arrow = edge_before_merge[start_of_merge].arrow;
+               }
                for (auto merge_group_position = start_of_merge; merge_group_position < end_of_merge; merge_group_position++) {
                   if (edge_before_merge[merge_group_position].arrow_valid()) {
                      if (arrow_fixed) {
-- 
2.43.0


From c5092d50844aceebfbd812580d5eb7bdb1dc255d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:44:07 +0000
Subject: [PATCH 13/25] fix: keep zero blocks of a contraction whose paired
 edges have no matching segment

The blocks of the result whose free edges lost their segment while merging
were missing from the product, so contracting to a scalar, or over two
edges that match only in total charge, threw out of map::at.
---
 include/TAT/contract.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/TAT/contract.hpp b/include/TAT/contract.hpp
index f475d78..fa30702 100644
--- a/include/TAT/contract.hpp
+++ b/include/TAT/contract.hpp
@@ -510,6 +510,26 @@ namespace TAT {
             false,
             std::array<pmr::set<Name>, 4>{{{}, {}, {}, {}}},
             delete_2);
+      if constexpr (!is_no_symmetry) {
+         // merge时公共边没有对应分量的自由边分量被自动删掉了, 但它们仍然可能出现在结果中, 对应的值为零
+         auto restore_free_edge = [&](auto& edge, const Name& name) {
+            auto free_map = std::map<Symmetry, Size>{{Symmetry(), 1}};
+            for (const auto& [free_name, free_edge] : split_map_result.at(name)) {
+               auto next_map = std::map<Symmetry, Size>();
+               for (const auto& [merged_symmetry, merged_dimension] : free_map) {
+                  for (const auto& [symmetry, dimension] : free_edge.map) {
+                     next_map[merged_symmetry + symmetry] += merged_dimension * dimension;
+                  }
+               }
+               free_map = std::move(next_map);
+            }
+            for (const auto& [symmetry, dimension] : free_map) {
+               edge.map[symmetry] = dimension;
+            }
+         };
+         restore_free_edge(tensor_1_merged.core->edges[!put_common_1_right], InternalName<Name>::Contract_1);
+         restore_free_edge(tensor_2_merged.core->edges[!put_common_2_right], InternalName<Name>::Contract_2);
+      }
       // calculate_product
       auto product_result = Tensor<ScalarType, Symmetry, Name>(
             {InternalName<Name>::Contract_1, InternalName<Name>::Contract_2},
-- 
2.43.0


From 9ae7fed6574154f93302f65c83a395d5d187413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:41 +0000
Subject: [PATCH 14/25] fix: exponential of tensors with edges of dimension
 zero

---
 include/TAT/exponential.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 8445fa1..2e0495d 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -93,6 +93,9 @@ namespace TAT {
 
    template<typename ScalarType>
    void matrix_exponential(Size n, ScalarType* A, ScalarType* F, int q) {
+      if (n == 0) {
+         return;
+      }
       int int_n = n;
       // j = max(0, 1+floor(log2(|A|_inf)))
       auto j = std::max(0, 1 + int(std::log2(max_of_abs(A, n))));
-- 
2.43.0


From 7159b3772cc3d05945f6cb3bad81011701fac490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:04:33 +0000
Subject: [PATCH 15/25] fix: put the half signs of merging and reversing on one
 side in the exponential of fermionic tensors

---
 include/TAT/exponential.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/include/TAT/exponential.hpp b/include/TAT/exponential.hpp
index 2e0495d..58f941e 100644
--- a/include/TAT/exponential.hpp
+++ b/include/TAT/exponential.hpp
@@ -233,7 +233,18 @@ namespace TAT {
             result_names.push_back(i);
          }
       }
-      auto tensor_merged = edge_operator({}, {}, reverse_set, merge_map, merged_names);
+      // 反转和合并产生的半个符号只应用在矩阵的行上, 这样矩阵乘积和张量缩并才一致
+      const auto& row_merge = merged_names.front() == InternalName<Name>::Exp_1 ? merge_1 : merge_2;
+      const auto row_names = pmr::set<Name>(row_merge.begin(), row_merge.end());
+      const auto row_merged_name = pmr::set<Name>{merged_names.front()};
+      auto tensor_merged = edge_operator(
+            {},
+            {},
+            reverse_set,
+            merge_map,
+            merged_names,
+            false,
+            std::array<pmr::set<Name>, 4>{{{}, row_names, {}, row_merged_name}});
       // 两组边的symmetry互为相反数, 故merge后各个分量的顺序可能不同, 需要将列的顺序与行对齐
       auto merge_edges_1 = pmr::vector<BoseEdge<Symmetry>>();
       auto merge_edges_2 = pmr::vector<BoseEdge<Symmetry>>();
@@ -254,7 +265,14 @@ namespace TAT {
          matrix_exponential(n, data_source.data(), data_destination.data(), step);
       }
       align_merged_edge(result, 1, column_edges, row_edges, true);
-      return result.edge_operator({}, split_map_result, reverse_set, {}, result_names);
+      return result.edge_operator(
+            {},
+            split_map_result,
+            reverse_set,
+            {},
+            result_names,
+            false,
+            std::array<pmr::set<Name>, 4>{{row_merged_name, row_names, {}, {}}});
    }
 } // namespace TAT
 #endif
-- 
2.43.0


From 7239ede168814f8c21563aead40a2183ae126cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:59 +0000
Subject: [PATCH 16/25] fix: read back the text of symmetric tensors and
 singular values with its colour codes

---
 include/TAT/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 2d30575..8755f4e 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -63,6 +63,13 @@ namespace TAT {
       in.ignore(std::numeric_limits<std::streamsize>::max(), end);
    }
 
+   // 跳过输出时插入的控制屏幕字体色彩的字符
+   inline void ignore_color(std::istream& in) {
+      if (in.peek() == '\x1B') {
+         ignore_util(in, 'm');
+      }
+   }
+
    template<typename ScalarType>
    std::istream& scan_complex(std::istream& in, std::complex<ScalarType>& value) {
       ScalarType part;
@@ -492,6 +499,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                std::vector<Symmetry> symmetries;
+               ignore_color(in);
                in >> symmetries;
                ignore_util(in, ':');
                in >> tensor.core->blocks[std::move(symmetries)];
@@ -536,6 +544,7 @@ namespace TAT {
          if (in.peek() != '}') {
             do {
                Symmetry symmetry;
+               ignore_color(in);
                in >> symmetry;
                ignore_util(in, ':');
                in >> value[symmetry];
-- 
2.43.0


From 56a0fb171d40cffbece8660380c8a97917eb6c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:00 +0000
Subject: [PATCH 17/25] fix: read names of 256 characters and more

---
 include/TAT/io.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 8755f4e..0d8b96c 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -128,13 +128,10 @@ namespace TAT {
 
    // inline std::istream& operator>>(std::istream& in, std::string& name) {
    inline std::istream& scan_string_for_name(std::istream& in, std::string& name) {
-      char buffer[256]; // max name length = 256
-      Size length = 0;
+      name.clear();
       while (valid_name_character(in.peek())) {
-         buffer[length++] = in.get();
+         name.push_back(in.get());
       }
-      buffer[length] = '\x00';
-      name = (const char*)buffer;
       return in;
    }
 
-- 
2.43.0


From 0f4269f65d59f09aff27fde97266da91b738294a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:36 +0000
Subject: [PATCH 18/25] fix: restoring a lazy graph resets nodes made after the
 snapshot

---
 include/lazy.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lazy.hpp b/include/lazy.hpp
index 702c833..ebdc495 100644
--- a/include/lazy.hpp
+++ b/include/lazy.hpp
@@ -127,6 +127,7 @@ namespace lazy {
       }
 
       void load(std::any v) override {
+         unset();
          value = std::any_cast<std::shared_ptr<const Type>>(v);
       }
 
@@ -188,6 +189,7 @@ namespace lazy {
       node& operator=(node<Type>&&) = delete;
 
       void load(std::any v) override {
+         unset();
          value = std::any_cast<std::shared_ptr<const RealType>>(v);
       }
 
-- 
2.43.0


From 85f47e31942b3fdd51923573105c983fdf9dd5cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:17 +0000
Subject: [PATCH 19/25] fix: allocation of no bytes at the end of a scratch
 buffer

---
 include/TAT/pmr_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/TAT/pmr_resource.hpp b/include/TAT/pmr_resource.hpp
index 720134e..7e72eff 100644
--- a/include/TAT/pmr_resource.hpp
+++ b/include/TAT/pmr_resource.hpp
@@ -150,7 +150,7 @@ namespace TAT {
 
          void* do_allocate(std::size_t bytes, std::size_t alignment) override {
             std::size_t aligner = 0u;
-            if (remaining_storage(alignment, aligner) < bytes) {
+            if (remaining_storage(alignment, aligner) < bytes || m_current_buffer_size < aligner) {
                aligner = 0u;
                increase_next_size_to(bytes);
                m_current_buffer = m_upstream->allocate(m_next_buffer_size, alignof(std::max_align_t));
-- 
2.43.0


From 36ae5b0b14bbc6e2301341ddda61b1fae24b8123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:59 +0000
Subject: [PATCH 20/25] fix: operators with a row of zeros in lattice sampling

Looking up a spin configuration whose row in the operator is zero threw std::out_of_range, for example the particle number of
an empty site or the hopping of hard core bosons between empty sites.
---
 include/square/sampling_gradient_lattice.hpp | 46 ++++++++++----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 09111b4..27196f1 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -481,16 +481,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使这一行全为零, 也应当存在
+            auto& row = result[std::move(spins_in)];
             if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               result[std::move(spins_in)][std::move(spins_out)] = value;
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
@@ -530,20 +532,18 @@ namespace square {
                map[names[i]] = index[i];
             }
             auto value = tensor.const_at(map);
-            if (value != T(0)) {
-               auto spins_in = std::vector<int>();
-               auto spins_out = std::vector<int>();
-               for (auto i = 0; i < body; i++) {
-                  spins_in.push_back(index[i]);
-               }
-               for (auto i = body; i < 2 * body; i++) {
-                  spins_out.push_back(index[i]);
-               }
-               if (spins_in != spins_out) {
-                  result[std::move(spins_in)][std::move(spins_out)] = value;
-               } else {
-                  result[std::move(spins_in)];
-               }
+            auto spins_in = std::vector<int>();
+            auto spins_out = std::vector<int>();
+            for (auto i = 0; i < body; i++) {
+               spins_in.push_back(index[i]);
+            }
+            for (auto i = body; i < 2 * body; i++) {
+               spins_out.push_back(index[i]);
+            }
+            // 即使这一行全为零, 也应当存在
+            auto& row = result[spins_in];
+            if (value != T(0) && spins_in != spins_out) {
+               row[std::move(spins_out)] = value;
             }
             int active_position = 0;
             index[active_position] += 1;
-- 
2.43.0


From ffcb4aab7362ae355b087dba18590df31dfaeeb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:03 +0000
Subject: [PATCH 21/25] fix: elements of a destroyed operator used for another
 one at its address

Lattice sampling caches the elements of operators by address; an operator created where another one was destroyed was sampled
with the elements of the old one. The cache now keeps the tensor it describes.
---
 include/square/sampling_gradient_lattice.hpp | 29 ++++++++++++++------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/square/sampling_gradient_lattice.hpp b/include/square/sampling_gradient_lattice.hpp
index 27196f1..9a0df19 100644
--- a/include/square/sampling_gradient_lattice.hpp
+++ b/include/square/sampling_gradient_lattice.hpp
@@ -456,15 +456,24 @@ namespace square {
          return ws;
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_element_map = {};
+      // 缓存中保留张量本身, 因为张量销毁后地址可能被另一个张量使用
+      struct CachedElement {
+         Tensor<T> tensor;
+         std::map<std::vector<int>, std::map<std::vector<int>, T>> element;
+      };
+      inline static std::map<const Tensor<T>*, CachedElement> tensor_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_element(const Tensor<T>& tensor) const {
          auto tensor_id = &tensor;
-         if (auto found = tensor_element_map.find(tensor_id); found != tensor_element_map.end()) {
-            return found->second;
+         if (auto found = tensor_element_map.find(tensor_id);
+             found != tensor_element_map.end() && found->second.tensor.core == tensor.core && found->second.tensor.names == tensor.names) {
+            return found->second.element;
          }
          int body = tensor.names.size() / 2;
-         auto& result = tensor_element_map[tensor_id];
+         auto& cache = tensor_element_map[tensor_id];
+         cache.tensor = tensor;
+         auto& result = cache.element;
+         result.clear();
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
@@ -507,15 +516,19 @@ namespace square {
          }
       }
 
-      inline static std::map<const Tensor<T>*, std::map<std::vector<int>, std::map<std::vector<int>, T>>> tensor_hopping_element_map = {};
+      inline static std::map<const Tensor<T>*, CachedElement> tensor_hopping_element_map = {};
 
       const std::map<std::vector<int>, std::map<std::vector<int>, T>>& _find_hopping_element(const Tensor<T>& tensor) const {
          auto tensor_id = &tensor;
-         if (auto found = tensor_hopping_element_map.find(tensor_id); found != tensor_hopping_element_map.end()) {
-            return found->second;
+         if (auto found = tensor_hopping_element_map.find(tensor_id);
+             found != tensor_hopping_element_map.end() && found->second.tensor.core == tensor.core && found->second.tensor.names == tensor.names) {
+            return found->second.element;
          }
          int body = tensor.names.size() / 2;
-         auto& result = tensor_hopping_element_map[tensor_id];
+         auto& cache = tensor_hopping_element_map[tensor_id];
+         cache.tensor = tensor;
+         auto& result = cache.element;
+         result.clear();
          auto names = std::vector<Name>();
          auto index = std::vector<int>();
          for (auto i = 0; i < body; i++) {
-- 
2.43.0


From e84ecfd6bc662fffa52e75903774e55349f105d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:35 +0000
Subject: [PATCH 22/25] fix: expectation values of a complex exact state

The bra of a complex state is the conjugate of its ket.
---
 include/square/exact_lattice.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/square/exact_lattice.hpp b/include/square/exact_lattice.hpp
index a5e7097..663686e 100644
--- a/include/square/exact_lattice.hpp
+++ b/include/square/exact_lattice.hpp
@@ -90,7 +90,7 @@ namespace square {
       }
 
       real<T> denominator() const {
-         return vector.contract_all_edge(vector).template to<real<T>>();
+         return vector.contract_all_edge(vector.conjugate()).template to<real<T>>();
       }
 
       template<typename C>
@@ -108,7 +108,7 @@ namespace square {
          }
          auto numerator = common_vector.contract_all_edge(common_observer.edge_rename(map_in))
                                 .edge_rename(map_out)
-                                .contract_all_edge(common_vector)
+                                .contract_all_edge(common_vector.conjugate())
                                 .template to<real<T>>();
          if (calculate_denominator) {
             return real<T>(numerator) / denominator();
-- 
2.43.0


From 86922e8656faa543ff014acfbfe8f45d40e5c45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:35 +0000
Subject: [PATCH 23/25] fix: simple update of a bond whose sites are given in
 reverse order

The operator was applied with its two sites exchanged.
---
 include/square/simple_update_lattice.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 4120730..5de2e3c 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -206,7 +206,7 @@ namespace square {
             const auto& position_2 = positions[1];
             if (std::get<0>(position_1) == std::get<0>(position_2)) {
                if (std::get<1>(position_1) == std::get<1>(position_2) + 1) {
-                  _single_term_simple_update_horizontal_bond(position_2, updater);
+                  _single_term_simple_update_horizontal_bond(position_2, _exchange_site(updater));
                   return;
                }
                if (std::get<1>(position_1) + 1 == std::get<1>(position_2)) {
@@ -216,7 +216,7 @@ namespace square {
             }
             if (std::get<1>(position_1) == std::get<1>(position_2)) {
                if (std::get<0>(position_1) == std::get<0>(position_2) + 1) {
-                  _single_term_simple_update_vertical_bond(position_2, updater);
+                  _single_term_simple_update_vertical_bond(position_2, _exchange_site(updater));
                   return;
                }
                if (std::get<0>(position_1) + 1 == std::get<0>(position_2)) {
@@ -228,6 +228,11 @@ namespace square {
          throw NotImplementedError("Unsupported simple update style");
       }
 
+      // 交换两体算符的两个格点
+      static Tensor<T> _exchange_site(const Tensor<T>& updater) {
+         return updater.edge_rename({{"I0", "I1"}, {"I1", "I0"}, {"O0", "O1"}, {"O1", "O0"}});
+      }
+
       void _single_term_simple_update_single_site(const std::tuple<int, int>& position, const Tensor<T>& updater) {
          auto [i, j] = position;
          lattice[i][j] = lattice[i][j].contract(updater, {{"P", "I0"}}).edge_rename({{"O0", "P"}});
-- 
2.43.0


From 385f115f5342fa853f58bf1a489c6c195a8fa3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:56 +0000
Subject: [PATCH 24/25] fix: parallel simple update of a bond given in both
 orders

Both terms were in one group, whose terms are updated in parallel, so that one of them was lost.
---
 include/square/simple_update_lattice.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/square/simple_update_lattice.hpp b/include/square/simple_update_lattice.hpp
index 5de2e3c..668fa8c 100644
--- a/include/square/simple_update_lattice.hpp
+++ b/include/square/simple_update_lattice.hpp
@@ -21,6 +21,7 @@
 #ifndef SQUARE_SIMPLE_UPDATE_LATTICE_HPP
 #define SQUARE_SIMPLE_UPDATE_LATTICE_HPP
 
+#include <algorithm>
 #include <iostream>
 #include <map>
 #include <memory>
@@ -185,6 +186,14 @@ namespace square {
                }
             }
          }
+         // 同一条边可能以两种次序出现, 它们之间有依赖, 所以两种次序分开
+         auto exchanged = std::vector<std::vector<std::vector<std::tuple<int, int>>>>();
+         for (auto& group : result) {
+            auto middle = std::stable_partition(group.begin(), group.end(), [](const auto& positions) { return positions.front() <= positions.back(); });
+            exchanged.emplace_back(middle, group.end());
+            group.erase(middle, group.end());
+         }
+         result.insert(result.end(), exchanged.begin(), exchanged.end());
          // 其他类型和更多的格点暂时不支持
          auto total_size = 0;
          for (const auto& group : result) {
-- 
2.43.0


From ab6fda0c281f8917bf346718dda2f9c847e6552c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:50 +0000
Subject: [PATCH 25/25] fix: loading data into a tensor no longer changes
 tensors sharing its storage

---
 include/TAT/io.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/TAT/io.hpp b/include/TAT/io.hpp
index 0d8b96c..a9b0771 100644
--- a/include/TAT/io.hpp
+++ b/include/TAT/io.hpp
@@ -626,6 +626,10 @@ namespace TAT {
 
    template<typename ScalarType, typename Symmetry, typename Name>
    Tensor<ScalarType, Symmetry, Name>& Tensor<ScalarType, Symmetry, Name>::data_get(std::istream& in) {
+      if (core.use_count() != 1) {
+         core = std::make_shared<Core<ScalarType, Symmetry>>(*core);
+         TAT_warning_or_error_when_copy_shared("Load data into tensor shared, copy happened here");
+      }
       if constexpr (std::is_same_v<Symmetry, NoSymmetry>) {
          core->blocks.clear(); // vector的长度不一定相同, 所以还是要clear一下
          in > core->blocks[std::vector<NoSymmetry>(names.size(), NoSymmetry())];
-- 
2.43.0

