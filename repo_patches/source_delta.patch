From f07ad176d427604ff5c6354b7824937cd9b4d45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 01/25] fix: join_t reports the length of the joined dimension
 under its new name

---
 include/noarr/structures/structs/views.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index eaf336f..6fb37a4 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -660,14 +660,26 @@ public:
 	requires IsDim<decltype(QDim)>
 	[[nodiscard]]
 	static consteval bool has_length() noexcept {
-		return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		if constexpr (QDim == Dim) {
+			// both of the joined dimensions have the same length
+			return sub_structure_t::template has_length<DimA, sub_state_t<State>>();
+		} else if constexpr (QDim == DimA || QDim == DimB) {
+			// consumed by the join
+			return false;
+		} else {
+			return sub_structure_t::template has_length<QDim, sub_state_t<State>>();
+		}
 	}
 
 	template<auto QDim, IsState State>
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(sub_state(state));
+		if constexpr (QDim == Dim) {
+			return sub_structure().template length<DimA>(sub_state(state));
+		} else {
+			return sub_structure().template length<QDim>(sub_state(state));
+		}
 	}
 };
 
-- 
2.43.0


From 4336be08225f9c3fc9347d3d7d10a7707747a64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 02/25] fix: span_t signature has the length of the span, not
 its end

---
 include/noarr/structures/structs/slice.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 4a62f74..6aa50d1 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -386,7 +386,17 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<EndT>, RetSig>;
+		template<class S, class E>
+		struct subtract {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t S, std::size_t E>
+		struct subtract<std::integral_constant<std::size_t, S>, std::integral_constant<std::size_t, E>> {
+			using type = static_arg_length<E - S>;
+		};
+
+		using type = function_sig<Dim, typename subtract<StartT, EndT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From 00c8769698d7508525f898793d87d445f10a4065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:32 +0000
Subject: [PATCH 03/25] fix: step_t signature has the number of steps as its
 length, not the stride

---
 include/noarr/structures/structs/slice.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 6aa50d1..864c511 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -549,7 +549,18 @@ private:
 
 	template<class ArgLength, class RetSig>
 	struct dim_replacement<function_sig<Dim, ArgLength, RetSig>> {
-		using type = function_sig<Dim, arg_length_from_t<StrideT>, RetSig>;
+		template<class L, class Start, class Stride>
+		struct divide {
+			using type = dynamic_arg_length;
+		};
+
+		template<std::size_t L, std::size_t Start, std::size_t Stride>
+		struct divide<static_arg_length<L>, std::integral_constant<std::size_t, Start>,
+		              std::integral_constant<std::size_t, Stride>> {
+			using type = static_arg_length<(L + Stride - Start - 1) / Stride>;
+		};
+
+		using type = function_sig<Dim, typename divide<ArgLength, StartT, StrideT>::type, RetSig>;
 	};
 
 	template<class... RetSigs>
-- 
2.43.0


From f913c823cf9cb188067dd7f5503e7c56d935998a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 04/25] fix: merge_zcurve with a large MaxLen no longer
 overflows the tile volume

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 969296f..05878ea 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -78,7 +78,8 @@ constexpr std::tuple<SizeTs...> zc_general(std::size_t z, SizeTs... sizes) noexc
 				}
 			});
 			const std::size_t half_volume = facet << level::v;
-			if (z >= half_volume) {
+			// if the upper half is empty, the lower half contains everything (and its nominal volume may not be representable)
+			if (std::get<i::v>(size) - std::get<i::v>(result) > small_tile_size::v && z >= half_volume) {
 				z -= half_volume;
 				std::get<i::v>(result) += small_tile_size::v;
 			}
-- 
2.43.0


From 12adcfb72226ecc4d56efbf73b5230aeb75717ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:40 +0000
Subject: [PATCH 05/25] fix: merge_zcurve with a large Alignment does not shift
 a 32-bit constant out of range

---
 include/noarr/structures/structs/zcurve.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/zcurve.hpp b/include/noarr/structures/structs/zcurve.hpp
index 05878ea..ffd3233 100644
--- a/include/noarr/structures/structs/zcurve.hpp
+++ b/include/noarr/structures/structs/zcurve.hpp
@@ -196,7 +196,8 @@ private:
 			if constexpr (state_contains<State, index_in<Dim>>) {
 				const std::size_t index = state.template get<index_in<Dim>>();
 				const auto index_general = index >> SpecialLevel * sizeof...(Dims);
-				const auto index_special = index & ((1U << SpecialLevel * sizeof...(Dims)) - 1U);
+				const auto index_special =
+					index & ((static_cast<std::size_t>(1U) << SpecialLevel * sizeof...(Dims)) - 1U);
 				const auto indices = helpers::zc_general<GeneralLevel - SpecialLevel>(
 					index_general, (sub_structure.template length<Dims>(tmp_state) >> SpecialLevel)...);
 				return tmp_state.template with<index_in<Dims>...>(
-- 
2.43.0


From 6ff2b91fdeb61ab6451c0ca08358a52617ef6d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:19 +0000
Subject: [PATCH 06/25] fix: alignment of a tuple whose elements have different
 alignments is computed

---
 include/noarr/structures/structs/layouts.hpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4dc6a86..4a9ac40 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -188,7 +188,18 @@ private:
 	template<IsState State, std::size_t I, std::size_t... IS>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I, IS...> /*is*/, State sub_state) const noexcept {
-		return std::max(sub_structure<I>().align(sub_state), align_inner(std::index_sequence<IS...>(), sub_state));
+		const auto head = sub_structure<I>().align(sub_state);
+		const auto tail = align_inner(std::index_sequence<IS...>(), sub_state);
+		using head_t = decltype(head);
+		using tail_t = decltype(tail);
+		if constexpr (requires {
+						  head_t::value;
+						  tail_t::value;
+					  }) {
+			return constexpr_arithmetic::make_const<std::max<std::size_t>(head_t::value, tail_t::value)>();
+		} else {
+			return std::max<std::size_t>(head, tail);
+		}
 	}
 };
 
-- 
2.43.0


From 25a78b366ef49ace62bcc8bf8294cc87936109f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:00 +0000
Subject: [PATCH 07/25] fix: join_t signature no longer contains the second of
 the joined dimensions

---
 include/noarr/structures/structs/views.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/views.hpp b/include/noarr/structures/structs/views.hpp
index 6fb37a4..8a96a72 100644
--- a/include/noarr/structures/structs/views.hpp
+++ b/include/noarr/structures/structs/views.hpp
@@ -600,7 +600,8 @@ private:
 
 public:
 	using signature = function_sig<Dim, typename dim_a::arg_length,
-	                               typename T::signature::template replace<sig_remove_first, DimA, DimB>>;
+	                               typename T::signature::template replace<sig_remove_first, DimA>::template replace<
+									   sig_remove_first, DimB>>;
 
 	template<IsState State>
 	[[nodiscard]]
-- 
2.43.0


From 2f4e8501011e77f923c73fe9ce2c15cea5119783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:46 +0000
Subject: [PATCH 08/25] fix: planner_std_execute uses the existing
 begin()/end() of planners (did not compile)

---
 include/noarr/structures/interop/std_para.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/std_para.hpp b/include/noarr/structures/interop/std_para.hpp
index 1da5d63..af3f15a 100644
--- a/include/noarr/structures/interop/std_para.hpp
+++ b/include/noarr/structures/interop/std_para.hpp
@@ -27,7 +27,7 @@ constexpr planner_std_execute_t planner_std_execute() noexcept { return {}; }
 
 template<IsPlanner Planner>
 inline void operator|(const Planner &planner, planner_std_execute_t /*unused*/) {
-	std::for_each(std::execution::par, planner.begin(), planner.end(),
+	std::for_each(std::execution::par, begin(planner), end(planner),
 	              [](const auto &inner_planner) { inner_planner.execute(); });
 }
 
-- 
2.43.0


From c674e4df0e1f73692e9e4c57574c157e6bd17cf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:05:19 +0000
Subject: [PATCH 09/25] fix: planner_range_t is splittable by TBB, as
 planner_tbb_execute requires (did not compile)

---
 include/noarr/structures/interop/planner_iter.hpp |  4 ++++
 include/noarr/structures/interop/tbb.hpp          | 10 ++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/noarr/structures/interop/planner_iter.hpp b/include/noarr/structures/interop/planner_iter.hpp
index b6ad63e..ae19e6b 100644
--- a/include/noarr/structures/interop/planner_iter.hpp
+++ b/include/noarr/structures/interop/planner_iter.hpp
@@ -190,6 +190,10 @@ struct planner_range_t<Dim, union_t<Structs...>, Order, Ending> : flexible_conta
 	constexpr planner_range_t(const planner_t<union_t<Structs...>, Order, Ending> &planner, std::size_t length)
 		: base(static_cast<const base &>(planner)), begin_idx(0), end_idx(length) {}
 
+	// TBB splitting constructor
+	template<class Split>
+	constexpr planner_range_t(planner_range_t &, Split) noexcept; // defined in tbb.hpp
+
 	template<class NewOrder>
 	[[nodiscard("Returns a new planner")]]
 	constexpr auto order(NewOrder new_order) const noexcept {
diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index e0ed07e..f0fd295 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -27,6 +27,16 @@ constexpr traverser_range_t<Dim, Struct, Order>::traverser_range_t(traverser_ran
 	orig.end_idx = begin_idx;
 }
 
+// declared in planner_iter.hpp
+template<IsDim auto Dim, class... Structs, class Order, class Ending>
+template<class Split>
+constexpr planner_range_t<Dim, union_t<Structs...>, Order, Ending>::planner_range_t(planner_range_t &orig,
+                                                                                    Split /*unused*/) noexcept
+	: base(orig), begin_idx(orig.begin_idx + (orig.end_idx - orig.begin_idx) / 2), end_idx(orig.end_idx) {
+	static_assert(std::is_same_v<Split, tbb::split>, "Invalid constructor call");
+	orig.end_idx = begin_idx;
+}
+
 template<IsTraverser Traverser, class F>
 inline void tbb_for_each(const Traverser &t, const F &f) {
 	tbb::parallel_for(t.range(), [&f](const auto &subrange) { subrange.for_each(f); });
-- 
2.43.0


From 5aa20bce8c3d344f1d8bab476aa3eedbdad79bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:12:28 +0000
Subject: [PATCH 10/25] fix: tbb_reduce shares the output only if the order
 keeps the meaning of the topmost dimension (data race)

---
 include/noarr/structures/interop/tbb.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/tbb.hpp b/include/noarr/structures/interop/tbb.hpp
index f0fd295..cdf195a 100644
--- a/include/noarr/structures/interop/tbb.hpp
+++ b/include/noarr/structures/interop/tbb.hpp
@@ -1,6 +1,7 @@
 #ifndef NOARR_STRUCTURES_TBB_HPP
 #define NOARR_STRUCTURES_TBB_HPP
 
+#include <cstddef>
 #include <cstdlib>
 
 #include <type_traits>
@@ -14,6 +15,7 @@
 #include "../interop/bag.hpp"
 #include "../interop/planner_iter.hpp"
 #include "../interop/traverser_iter.hpp"
+#include "../structs/setters.hpp"
 
 namespace noarr {
 
@@ -55,7 +57,13 @@ inline void tbb_reduce(const Traverser &t, const FNeut &f_neut, const FAcc &f_ac
                        const OutStruct &out_struct, void *out_ptr) {
 	constexpr auto top_dim = helpers::traviter_top_dim<decltype(t.get_struct() ^ t.get_order())>;
 	using range_t = decltype(t.range());
-	if constexpr (OutStruct::signature::template all_accept<top_dim>) {
+	// the order may have given the name of a dimension of the input to something else (e.g. by rename or merge_blocks),
+	// so check that an index in `top_dim` is just an index in the dimension of the same name in the input
+	using state_t = decltype(t.state());
+	using top_state_t = decltype(t.order(fix<top_dim>(std::size_t())).state());
+	constexpr bool top_dim_preserved = state_contains<top_state_t, index_in<top_dim>> &&
+	                                   std::is_same_v<state_remove_t<top_state_t, index_in<top_dim>>, state_t>;
+	if constexpr (top_dim_preserved && OutStruct::signature::template all_accept<top_dim>) {
 		// parallel writes will go to different offsets => out_ptr may be shared
 		tbb::parallel_for(t.range(), [&f_acc, out_ptr](const range_t &subrange) {
 			subrange.for_each([f_acc, out_ptr](auto state) { f_acc(state, out_ptr); });
-- 
2.43.0


From bd1dac37bc8bbc338cb1c466bd787d016dac9520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:39 +0000
Subject: [PATCH 11/25] fix: planner can be executed over tuple dimensions
 (missing end of recursion)

---
 include/noarr/structures/extra/planner.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/noarr/structures/extra/planner.hpp b/include/noarr/structures/extra/planner.hpp
index 5c2a1e2..0acde65 100644
--- a/include/noarr/structures/extra/planner.hpp
+++ b/include/noarr/structures/extra/planner.hpp
@@ -391,6 +391,9 @@ public:
 	}
 
 private:
+	template<auto Dim>
+	constexpr void for_each_impl_dep(auto /*state*/, std::index_sequence<> /*is*/) const noexcept {}
+
 	template<auto Dim, class Branch, class... Branches, std::size_t I, std::size_t... Is>
 	constexpr void for_each_impl_dep(auto state, std::index_sequence<I, Is...> /*is*/) const {
 		for_each_impl(Branch(), state.template with<index_in<Dim>>(std::integral_constant<std::size_t, I>()));
-- 
2.43.0


From 46498bfcaf34b6239985c907fe892661b5e5e521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:49 +0000
Subject: [PATCH 12/25] fix: a proto-structure can be applied to an rvalue
 unique bag, as documented (did not compile)

---
 include/noarr/structures/interop/bag.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/bag.hpp b/include/noarr/structures/interop/bag.hpp
index 61df9e5..a7a496b 100644
--- a/include/noarr/structures/interop/bag.hpp
+++ b/include/noarr/structures/interop/bag.hpp
@@ -245,7 +245,8 @@ public:
 	[[nodiscard("Returns a new bag")]]
 	friend constexpr auto operator^(bag_t &&s, ProtoStruct p) {
 		using new_structure_t = std::remove_cvref_t<decltype(s.structure() ^ p)>;
-		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(std::move(s).template get<1>()));
+		// contain::get() only gives const access, but s is not const and it gives its data up
+		return bag_t<new_structure_t, BagPolicy>(s.structure() ^ p, std::move(const_cast<data_t &>(s.template get<1>())));
 	}
 
 	template<IsProtoStruct ProtoStruct>
-- 
2.43.0


From f2880d642ebd2d5f7d2e23146a8c9cdee13bac83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:33:11 +0000
Subject: [PATCH 13/25] fix: deserialize_data accepts a temporary (reference)
 bag, as documented (did not compile)

---
 include/noarr/structures/interop/serialize_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/serialize_data.hpp b/include/noarr/structures/interop/serialize_data.hpp
index 794495f..3d2c375 100644
--- a/include/noarr/structures/interop/serialize_data.hpp
+++ b/include/noarr/structures/interop/serialize_data.hpp
@@ -13,7 +13,7 @@ constexpr decltype(auto) deserialize_data(Istream &&in, Struct s, void *data) no
 }
 
 template<class Istream, class Bag>
-constexpr decltype(auto) deserialize_data(Istream &&in, Bag &bag) noexcept {
+constexpr decltype(auto) deserialize_data(Istream &&in, Bag &&bag) noexcept {
 	return deserialize_data(std::forward<Istream>(in), bag.structure(), bag.data());
 }
 
-- 
2.43.0


From fd0b99cd0bbfb64e4991d59ea6c302742c3d7f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 14/25] fix: lower_bound_at of shift_t looks at the whole
 shifted range, not at a part of it

---
 include/noarr/structures/introspection/lower_bound_along.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 21fd02e..6efdd4c 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -595,7 +595,7 @@ public:
 			const auto sub_state = structure.sub_state(state);
 			const auto start = structure.start();
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state) - start) -
+					   sub_structure, sub_state, start, sub_structure.template length<Dim>(sub_state)) -
 			       start;
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(
-- 
2.43.0


From 71228e3be8d4a8aa78ab31e8a5863d8583f35977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:41 +0000
Subject: [PATCH 15/25] fix: lower bound of reverse_t in a range does not skip
 the last element of the range

---
 .../noarr/structures/introspection/lower_bound_along.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/introspection/lower_bound_along.hpp b/include/noarr/structures/introspection/lower_bound_along.hpp
index 6efdd4c..466c776 100644
--- a/include/noarr/structures/introspection/lower_bound_along.hpp
+++ b/include/noarr/structures/introspection/lower_bound_along.hpp
@@ -827,12 +827,11 @@ public:
 
 		if constexpr (QDim == Dim) {
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
-			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state,
-			                                                                             in_min, in_max);
+			                                                                             in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound(sub_structure, sub_state, min,
 			                                                                              end);
@@ -867,10 +866,10 @@ public:
 			const auto sub_length = sub_structure.template length<Dim>(sub_state);
 			const auto sub_last = sub_length - make_const<1>();
 			const auto in_min = sub_length - end;
-			const auto in_max = sub_last - min;
+			const auto in_end = sub_length - min;
 
 			return sub_last - has_lower_bound_along<Dim, sub_structure_t, sub_state_t>::lower_bound_at(
-								  sub_structure, sub_state, in_min, in_max);
+								  sub_structure, sub_state, in_min, in_end);
 		} else {
 			return has_lower_bound_along<QDim, sub_structure_t, sub_state_t>::lower_bound_at(sub_structure, sub_state,
 			                                                                                 min, end);
-- 
2.43.0


From 88684c71637e86ad61651bf87837cdd158e88ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:15 +0000
Subject: [PATCH 16/25] fix: mangle_expr does not drop the last digit of
 negative numbers

---
 include/noarr/structures/extra/mangle.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 0a6b74a..e37b67e 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -178,6 +178,7 @@ struct mangle_expr_helpers {
 		} while (u /= 10);
 		if (neg) {
 			*--ptr = '-';
+			sz++;
 		}
 		out.append(ptr, sz);
 	}
-- 
2.43.0


From b81c93636d26789f97c847777a947472cb235cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:15 +0000
Subject: [PATCH 17/25] fix: mangle handles compile-time constants beyond the
 range of int (did not compile)

---
 include/noarr/structures/extra/mangle.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index e37b67e..7aaf250 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -110,13 +110,13 @@ struct scalar_name<std::integral_constant<std::size_t, L>> {
 		integer_sequence_concat<std::integer_sequence<char, 's', 't', 'd', ':', ':', 'i', 'n', 't', 'e', 'g', 'r', 'a',
 	                                                  'l', '_', 'c', 'o', 'n', 's', 't', 'a', 'n', 't', '<'>,
 	                            typename scalar_name<std::size_t>::type, std::integer_sequence<char, ','>,
-	                            mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                            mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 template<std::size_t L>
 struct scalar_name<lit_t<L>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, 'l', 'i', 't', '_', 't', '<'>,
-	                                     mangle_value<int, L>, std::integer_sequence<char, '>'>>;
+	                                     mangle_value<std::size_t, L>, std::integer_sequence<char, '>'>>;
 };
 
 /**
-- 
2.43.0


From d762c793689fd065c8b9bd1bc48f0d3bd7784a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:25 +0000
Subject: [PATCH 18/25] fix: alignment of cuda_striped_t is the larger of the
 structure's and the bank's (did not compile)

---
 include/noarr/structures/interop/cuda_striped.cuh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 7af3f9f..92af2fe 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -139,7 +139,12 @@ public:
 	[[nodiscard]]
 	constexpr auto align(State state) const noexcept {
 		using namespace constexpr_arithmetic;
-		return std::max(sub_structure().align(sub_state(state), make_const<BankWidth>()));
+		const auto sub_align = sub_structure().align(sub_state(state));
+		if constexpr (requires { decltype(sub_align)::value; }) {
+			return make_const<std::max<std::size_t>(decltype(sub_align)::value, BankWidth)>();
+		} else {
+			return std::max<std::size_t>(sub_align, BankWidth);
+		}
 	}
 
 	template<class Sub, IsState State>
-- 
2.43.0


From ab1608a6d046aa3e2256a631fd4b757a3323a983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:51 +0000
Subject: [PATCH 19/25] fix: cuda_striped begins every stripe at an offset
 aligned for its elements

---
 include/noarr/structures/interop/cuda_striped.cuh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/interop/cuda_striped.cuh b/include/noarr/structures/interop/cuda_striped.cuh
index 92af2fe..99f508c 100644
--- a/include/noarr/structures/interop/cuda_striped.cuh
+++ b/include/noarr/structures/interop/cuda_striped.cuh
@@ -4,6 +4,7 @@
 #include <cstddef>
 
 #include <algorithm>
+#include <numeric>
 
 #include "../base/contain.hpp"
 #include "../base/signature.hpp"
@@ -84,8 +85,12 @@ struct cuda_striped_t : strict_contain<T> {
 
 private:
 	static constexpr std::size_t elem_size = decltype(std::declval<ElemType>().size(state<>()))::value;
+	static constexpr std::size_t elem_align = decltype(std::declval<ElemType>().align(state<>()))::value;
+	// each stripe begins at a multiple of this, so that no two stripes share a bank cell and all elements are aligned
+	static constexpr std::size_t stripe_align = std::lcm(BankWidth, elem_align);
 	// the stripe width in bytes, forbidding bank conflicts
-	static constexpr std::size_t tmp_stripe_padded_width = (BankCount / NumStripes) * BankWidth;
+	static constexpr std::size_t tmp_stripe_padded_width =
+		(BankCount / NumStripes) * BankWidth / stripe_align * stripe_align;
 	// if the stripe is too narrow for even a single element, enlarge stripe just enough (at the cost of conflicts)
 	static constexpr std::size_t stripe_padded_width =
 		(tmp_stripe_padded_width < elem_size ? helpers::pad_to_multiple<elem_size, BankWidth>
-- 
2.43.0


From 7a2a5d02a2fa8f7bbaaa8e0230c9140e77c9b7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:13 +0000
Subject: [PATCH 20/25] fix: reverse_t asks for lengths with the reversed index
 (wrong field of a reversed tuple)

---
 include/noarr/structures/structs/slice.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/slice.hpp b/include/noarr/structures/structs/slice.hpp
index 864c511..2213b42 100644
--- a/include/noarr/structures/structs/slice.hpp
+++ b/include/noarr/structures/structs/slice.hpp
@@ -812,7 +812,7 @@ public:
 	requires (has_length<QDim, State>())
 	[[nodiscard]]
 	constexpr auto length(State state) const noexcept {
-		return sub_structure().template length<QDim>(state);
+		return sub_structure().template length<QDim>(sub_state(state));
 	}
 };
 
-- 
2.43.0


From f5ce1682196b83af2566165b6f4e5def7e6ec8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:06 +0000
Subject: [PATCH 21/25] fix: every field of a tuple starts at an offset aligned
 for it, in arrays of tuples too

---
 include/noarr/structures/structs/layouts.hpp | 23 +++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 4a9ac40..d8292ef 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -80,7 +80,8 @@ struct tuple_t : strict_contain<TS...> {
 	requires (has_size<State>())
 	[[nodiscard]]
 	constexpr auto size(State state) const noexcept {
-		return size_inner(is, sub_state(state));
+		// padded, so that the fields are aligned also in the consecutive elements of an array of tuples
+		return align_up(size_inner(is, sub_state(state)), align(state));
 	}
 
 	template<IsState State>
@@ -112,8 +113,9 @@ struct tuple_t : strict_contain<TS...> {
 		constexpr std::size_t index = state_get_t<State, index_in<Dim>>::value;
 		const auto sub_stat = sub_state(state);
 
-		return offset_of<Sub>(sub_structure<index>(), sub_stat,
-		                      size_inner(std::make_index_sequence<index>(), sub_stat) + start);
+		const auto field_start = align_up(size_inner(std::make_index_sequence<index>(), sub_stat),
+		                                  sub_structure<index>().align(sub_stat));
+		return offset_of<Sub>(sub_structure<index>(), sub_stat, field_start + start);
 	}
 
 	template<auto QDim, IsState State>
@@ -157,6 +159,12 @@ private:
 						   sub_state_t<State>>());
 	}
 
+	[[nodiscard]]
+	static constexpr auto align_up(auto start, auto alignment) noexcept {
+		using namespace constexpr_arithmetic;
+		return (start + alignment - make_const<1>()) / alignment * alignment;
+	}
+
 	template<IsState State>
 	[[nodiscard]]
 	constexpr auto size_accumulator(std::index_sequence<> /*is*/, auto start, State /*sub_state*/) const noexcept {
@@ -167,8 +175,7 @@ private:
 	[[nodiscard]]
 	constexpr auto size_accumulator(std::index_sequence<I, IS...> /*is*/, auto start, State sub_state) const noexcept {
 		using namespace constexpr_arithmetic;
-		const auto alignment = sub_structure<I>().align(sub_state);
-		const auto safe_start = (start + alignment - make_const<1>()) / alignment * alignment;
+		const auto safe_start = align_up(start, sub_structure<I>().align(sub_state));
 		return size_accumulator(std::index_sequence<IS...>(), safe_start + sub_structure<I>().size(sub_state),
 		                        sub_state);
 	}
@@ -179,6 +186,12 @@ private:
 		return size_accumulator(std::index_sequence<IS...>(), constexpr_arithmetic::make_const<0>(), sub_state);
 	}
 
+	template<IsState State>
+	[[nodiscard]]
+	constexpr auto align_inner(std::index_sequence<> /*is*/, State /*sub_state*/) const noexcept {
+		return constexpr_arithmetic::make_const<1>();
+	}
+
 	template<IsState State, std::size_t I>
 	[[nodiscard]]
 	constexpr auto align_inner(std::index_sequence<I> /*is*/, State sub_state) const noexcept {
-- 
2.43.0


From ad7d6f89194c42c9e80f284abd011c29f7861287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 22/25] fix: a tuple claims to know an offset only if it knows
 the sizes of the preceding fields

---
 include/noarr/structures/structs/layouts.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index d8292ef..06e65dc 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -98,7 +98,9 @@ struct tuple_t : strict_contain<TS...> {
 			static_assert(
 				requires { state_get_t<State, index_in<Dim>>::value; },
 				"Tuple index must be set statically, wrap it in lit<> (e.g. replace 42 with lit<42>)");
-			return has_offset_of<Sub, sub_structure_t<State>, sub_state_t<State>>();
+			// the preceding fields have to be skipped, so their sizes are needed as well
+			return has_offset_of<Sub, sub_structure_t<State>, sub_state_t<State>>() &&
+			       has_size_inner<State>(std::make_index_sequence<state_get_t<State, index_in<Dim>>::value + 1>());
 		} else {
 			return false;
 		}
-- 
2.43.0


From ee331e8c9b506d67bf618adfd29ac725d6465c51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:17 +0000
Subject: [PATCH 23/25] fix: asking an incompletely known block split whether
 it knows an offset is answered, not rejected

---
 include/noarr/structures/structs/blocks.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/noarr/structures/structs/blocks.hpp b/include/noarr/structures/structs/blocks.hpp
index a960de7..00ca6dd 100644
--- a/include/noarr/structures/structs/blocks.hpp
+++ b/include/noarr/structures/structs/blocks.hpp
@@ -293,6 +293,8 @@ private:
 				} else {
 					return clean_state(state);
 				}
+			} else if constexpr (!T::template has_length<Dim, clean_state_t<State>>()) {
+				return clean_state(state);
 			} else if constexpr (state_contains<State, length_in<DimMajor>>) {
 				if constexpr (have_indices) {
 					const auto cs = clean_state(state);
@@ -558,6 +560,8 @@ private:
 				if constexpr (is_body<State>()) {
 					const auto major_index = state.template get<index_in<DimMajor>>();
 					return clean_state(state).template with<index_in<Dim>>(major_index * minor_length + minor_index);
+				} else if constexpr (!T::template has_length<Dim, clean_state_t<State>>()) {
+					return clean_state(state);
 				} else /*border*/ {
 					const auto cs = clean_state(state);
 					const auto major_length = sub_structure.template length<Dim>(cs) / minor_length;
-- 
2.43.0


From 422a3a59f534376e5e2bf1c59ef9fcd9a4c438a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:05 +0000
Subject: [PATCH 24/25] fix: mangle escapes the quote and the backslash in
 names of dimensions

---
 include/noarr/structures/extra/mangle.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/noarr/structures/extra/mangle.hpp b/include/noarr/structures/extra/mangle.hpp
index 7aaf250..cf08b39 100644
--- a/include/noarr/structures/extra/mangle.hpp
+++ b/include/noarr/structures/extra/mangle.hpp
@@ -148,6 +148,13 @@ struct mangle_param<dim_param<Dim>> {
 	using type = integer_sequence_concat<std::integer_sequence<char, '\'', Dim, '\''>>;
 };
 
+// the quote and the backslash must be escaped in a character literal
+template<char Dim>
+requires (Dim == '\'' || Dim == '\\')
+struct mangle_param<dim_param<Dim>> {
+	using type = integer_sequence_concat<std::integer_sequence<char, '\'', '\\', Dim, '\''>>;
+};
+
 template<const char Name[], std::size_t... Indices, class... Params>
 struct mangle_desc<Name, std::index_sequence<Indices...>, struct_params<Params...>> {
 	using type = integer_sequence_concat<
-- 
2.43.0


From 3d875f933f9bd031bd6c78affc9cfac058b4f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:30 +0000
Subject: [PATCH 25/25] fix: a vector claims to know an offset only if it knows
 the size of its elements

---
 include/noarr/structures/structs/layouts.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/noarr/structures/structs/layouts.hpp b/include/noarr/structures/structs/layouts.hpp
index 06e65dc..9e6b999 100644
--- a/include/noarr/structures/structs/layouts.hpp
+++ b/include/noarr/structures/structs/layouts.hpp
@@ -309,7 +309,10 @@ struct vector_t : strict_contain<T> {
 	[[nodiscard]]
 	static consteval bool has_strict_offset_of() noexcept {
 		if constexpr (state_contains<State, index_in<Dim>, length_in<Dim>>) {
-			return has_offset_of<Sub, sub_structure_t, sub_state_t<State>>();
+			// the preceding elements have to be skipped, so their size is needed as well (unless there are none)
+			return has_offset_of<Sub, sub_structure_t, sub_state_t<State>>() &&
+			       (std::is_same_v<state_get_t<State, length_in<Dim>>, std::integral_constant<std::size_t, 1>> ||
+			        sub_structure_t::template has_size<sub_state_t<State>>());
 		} else {
 			return false;
 		}
-- 
2.43.0

