From 5dc588a4e40959909f2c999089e138191d84f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:29 +0000
Subject: [PATCH 1/8] fix: run parts without a result in parse, not only in
 lookahead

A sequence or choice only looked ahead in the parts that have no result, so
the predicate of a void filter and the function of a void map were skipped:
filter<false>(ign<"a">) >> "b"_all accepted "ab".
---
 include/k3/tok3n/detail/helpers.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..5092968 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,13 +152,16 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P>
 	constexpr bool execute()
 	{
-		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
-		else
-			return execute_element<P, I>();
+		return execute_lookahead<P>();
+	}
+
+	template <parser P, std::size_t I>
+	constexpr bool execute()
+	{
+		return execute_element<P, I>();
 	}
 
 private:
@@ -178,7 +181,11 @@ private:
 			return false;
 
 		input = res.remaining();
-		if constexpr (unwrapped)
+		if constexpr (I == static_cast<std::size_t>(-1))
+		{
+			// No result to store, but it must still be parsed, to run the functions in maps and filters
+		}
+		else if constexpr (unwrapped)
 		{
 			if constexpr (std::is_move_assignable_v<ResultType>)
 				builder.assign(std::move(res));
-- 
2.43.0


From 718b5225b972bba4f7ec3d8b436b5f3eb8770ea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:21 +0000
Subject: [PATCH 2/8] fix: index repeated result types of a choice by their own
 variant slot

The lookup walked the deduplicated types and the index sequence in lockstep,
so for result types such as A, A, B, B it found a wrong slot.
---
 include/k3/tok3n/detail/filter.h | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..8826841 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -63,20 +63,14 @@ using filter_out_void = impl::filter_with_index<impl::is_not_void, impl::list<>,
 
 namespace impl {
 
-template <class ListOfDone, class Seq, class T>
+template <class ListOfDone, class T>
 struct index_lookup;
 
-template <class Head, class... Tail, std::size_t I, std::size_t... Is, class T>
-struct index_lookup<list<Head, Tail...>, std::index_sequence<I, Is...>, T>
-{
-	static constexpr std::size_t value = std::conditional_t<std::is_same_v<T, Head>,
-		std::integral_constant<std::size_t, I>,
-		std::conditional_t<sizeof...(Tail) == 0,
-			std::integral_constant<std::size_t, 0>,
-			index_lookup<list<Tail...>, std::index_sequence<Is...>, T>
-		>
-	>::value;
-};
+template <class... Tail, class T>
+struct index_lookup<list<T, Tail...>, T> : std::integral_constant<std::size_t, 0> {};
+
+template <class Head, class... Tail, class T>
+struct index_lookup<list<Head, Tail...>, T> : std::integral_constant<std::size_t, 1 + index_lookup<list<Tail...>, T>::value> {};
 
 template <class Pred, class ListOfDone, class Seq, std::size_t Next, class Head, class... Tail>
 struct filter_deduplicate_with_index;
@@ -87,7 +81,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +101,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From ef499681b09511b0bbcd3fbae6b054da4d412048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 3/8] fix: a failed result stays failed when converted to one
 of an optional

Converting through the optional's own constructor made a failed result<X>
a successful result<optional<X>> that holds an empty optional.
---
 include/k3/tok3n/detail/result.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..a181428 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,19 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		if (other._result)
+			_result.emplace(*other._result);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _remaining(other._remaining)
+	{
+		if (other._result)
+			_result.emplace(*std::move(other)._result);
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From b70ac5fcf233dc914d108b972b04139357f16894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 4/8] fix: initialise a default-constructed void result as
 failed

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index a181428..2b097e4 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -91,7 +91,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From b8e033a15b5592eabfe4435e8b5cadce5417ed75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:11 +0000
Subject: [PATCH 5/8] fix: convert further elements of a static_array to its
 element type

---
 include/k3/tok3n/detail/static_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/static_array.h b/include/k3/tok3n/detail/static_array.h
index d9471c4..3e75538 100644
--- a/include/k3/tok3n/detail/static_array.h
+++ b/include/k3/tok3n/detail/static_array.h
@@ -23,7 +23,7 @@ struct static_array
 	template <class... Ts>
 	requires (sizeof...(Ts) == N - 1) and (... and std::convertible_to<Ts, T>)
 	constexpr static_array(T t, Ts... ts)
-		: data{{t, static_cast<Ts>(ts)...}}
+		: data{{t, static_cast<T>(ts)...}}
 	{}
 
 	constexpr static_array(const T(&input)[N + 1]) noexcept requires character<T>
-- 
2.43.0


From 44918727520ea07325e5db50246c06dd826776d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 6/8] fix: compare a span with an array by the array's size,
 not by strlen

A literal was cut at its first NUL, an array without a terminator was read
past its end, and arrays of non-character types did not compile.
---
 include/k3/tok3n/detail/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 7a1e351..0ea9dac 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -141,7 +141,7 @@ struct span_equal_to
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
 	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
 	{
-		if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>)
+		if constexpr (std::is_pointer_v<std::remove_cvref_t<RHS>>)
 		{
 			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));
 		}
-- 
2.43.0


From 2b0636f87785960ae5263c0503d1d5a378dd152f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 7/8] fix: substitute below a part whose name has another
 character type

A name that cannot be compared with the substituted one was left out of both
specialisations, so the named parts inside it were not visited.
---
 include/k3/tok3n/detail/modifiers/sub.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/k3/tok3n/detail/modifiers/sub.h b/include/k3/tok3n/detail/modifiers/sub.h
index a496abd..ca3fb71 100644
--- a/include/k3/tok3n/detail/modifiers/sub.h
+++ b/include/k3/tok3n/detail/modifiers/sub.h
@@ -27,7 +27,6 @@ struct substitute_one<named_parser<P, str>, Sub>
 };
 
 template <parser P, static_array str, substitution Sub>
-requires (Sub::name != str)
 struct substitute_one<named_parser<P, str>, Sub>
 {
 	using type = named_parser<typename substitute_one<P, Sub>::type, str>;
-- 
2.43.0


From bcf718ba837824a5a1e3c744490b1a1f46551f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:59 +0000
Subject: [PATCH 8/8] fix: do not cut an input literal at an embedded NUL

The pointer constructor took precedence over the one for literals, so
"a\0b" was one element long, and an array without a terminator was read
past its end.
---
 include/k3/tok3n/detail/span.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 0ea9dac..d85e09c 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -77,7 +77,9 @@ public:
 		: _value(value)
 	{}
 	
-	constexpr span(const T* data)
+	template <std::convertible_to<const T*> Ptr>
+	requires std::is_pointer_v<Ptr> // A literal must not decay, it ends where the array does
+	constexpr span(const Ptr& data)
 		: _value(std::basic_string_view<T>(data))
 	{}
 
-- 
2.43.0

