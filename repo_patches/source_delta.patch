From 96625f4a46f50953e6e04a46f42c4c69fd180eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 01/11] fix: choice stores each alternative's value at the
 index of its own type

---
 include/k3/tok3n/detail/filter.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/k3/tok3n/detail/filter.h b/include/k3/tok3n/detail/filter.h
index e4368af..9139eeb 100644
--- a/include/k3/tok3n/detail/filter.h
+++ b/include/k3/tok3n/detail/filter.h
@@ -63,17 +63,17 @@ using filter_out_void = impl::filter_with_index<impl::is_not_void, impl::list<>,
 
 namespace impl {
 
-template <class ListOfDone, class Seq, class T>
+template <class ListOfDone, std::size_t I, class T>
 struct index_lookup;
 
-template <class Head, class... Tail, std::size_t I, std::size_t... Is, class T>
-struct index_lookup<list<Head, Tail...>, std::index_sequence<I, Is...>, T>
+template <class Head, class... Tail, std::size_t I, class T>
+struct index_lookup<list<Head, Tail...>, I, T>
 {
 	static constexpr std::size_t value = std::conditional_t<std::is_same_v<T, Head>,
 		std::integral_constant<std::size_t, I>,
 		std::conditional_t<sizeof...(Tail) == 0,
 			std::integral_constant<std::size_t, 0>,
-			index_lookup<list<Tail...>, std::index_sequence<Is...>, T>
+			index_lookup<list<Tail...>, I + 1, T>
 		>
 	>::value;
 };
@@ -87,7 +87,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, 0, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
@@ -107,7 +107,7 @@ struct filter_deduplicate_with_index<Pred, list<Done...>, std::index_sequence<Is
 private:
 	static constexpr std::size_t next_index = std::conditional_t<Pred::template fn<Head>::value,
 		std::conditional_t<(... or std::is_same_v<Done, Head>),
-			index_lookup<list<Done...>, std::index_sequence<Is...>, Head>,
+			index_lookup<list<Done...>, 0, Head>,
 			std::integral_constant<std::size_t, Next>
 		>,
 		std::integral_constant<std::size_t, static_cast<std::size_t>(-1)>
-- 
2.43.0


From 6d62184d1ba50d52d195a8720ee0d8de363af86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 02/11] fix: sequence and choice parse their void elements
 instead of looking ahead

---
 include/k3/tok3n/detail/helpers.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/helpers.h b/include/k3/tok3n/detail/helpers.h
index 075f7ab..c0e06a1 100644
--- a/include/k3/tok3n/detail/helpers.h
+++ b/include/k3/tok3n/detail/helpers.h
@@ -152,16 +152,30 @@ struct compound_executor
 		: input(input_)
 	{}
 
-	template <parser P, std::size_t I = static_cast<std::size_t>(-1)>
+	template <parser P>
+	constexpr bool execute()
+	{
+		return execute_lookahead<P>();
+	}
+
+	template <parser P, std::size_t I>
 	constexpr bool execute()
 	{
 		if constexpr (I == static_cast<std::size_t>(-1))
-			return execute_lookahead<P>();
+			return execute_void<P>();
 		else
 			return execute_element<P, I>();
 	}
 
 private:
+	template <parser P>
+	constexpr bool execute_void()
+	{
+		auto res = P::parse(input);
+		input = res.remaining();
+		return res.has_value();
+	}
+
 	template <parser P>
 	constexpr bool execute_lookahead()
 	{
-- 
2.43.0


From b2766b03d42edecc81db47c8969cc405ce37e85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 03/11] fix: converting a failed result never yields a
 successful one

---
 include/k3/tok3n/detail/result.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index 863c4b2..d5b6dab 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -32,11 +32,19 @@ public:
 
 	template <class T2>
 	constexpr result(const result<T2, U>& other)
-		: _result(other._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other.has_value())
+			_result.emplace(*other);
+	}
 
 	template <class T2>
 	constexpr result(result<T2, U>&& other)
-		: _result(std::move(other)._result), _remaining(other._remaining) {}
+		: _result(), _remaining(other._remaining)
+	{
+		if (other.has_value())
+			_result.emplace(*std::move(other));
+	}
 
 	constexpr explicit operator bool() const noexcept { return _result.operator bool(); }
 	constexpr bool has_value() const noexcept         { return _result.has_value(); }
-- 
2.43.0


From fe98ae4f0379e3bb818cf1199ecea4d09ddcd04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 04/11] fix: a default-constructed result<void> is a failure,
 like every other result

---
 include/k3/tok3n/detail/result.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/result.h b/include/k3/tok3n/detail/result.h
index d5b6dab..3e190e7 100644
--- a/include/k3/tok3n/detail/result.h
+++ b/include/k3/tok3n/detail/result.h
@@ -91,7 +91,7 @@ public:
 	constexpr input_span<U> remaining() const noexcept { return _remaining; }
 
 private:
-	bool _successful;
+	bool _successful = false;
 	input_span<U> _remaining;
 };
 
-- 
2.43.0


From 8de80157789c4277a9aac2dda3126ce4df054cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:24 +0000
Subject: [PATCH 05/11] fix: parsing a character array does not stop at an
 embedded null

---
 include/k3/tok3n/detail/span.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index 7a1e351..a108461 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -77,7 +77,10 @@ public:
 		: _value(value)
 	{}
 	
-	constexpr span(const T* data)
+	// This is a template so that arrays choose the constructor below
+	template <class P>
+	requires std::is_pointer_v<std::remove_cvref_t<P>> and std::convertible_to<P, const T*>
+	constexpr span(P&& data)
 		: _value(std::basic_string_view<T>(data))
 	{}
 
-- 
2.43.0


From 7ec2d7826e79768e36e630b628137a944e976500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:50 +0000
Subject: [PATCH 06/11] fix: a join over a gap is usable in constant
 expressions with clang

---
 include/k3/tok3n/detail/parsers/join.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/parsers/join.h b/include/k3/tok3n/detail/parsers/join.h
index a8c7476..9b679fc 100644
--- a/include/k3/tok3n/detail/parsers/join.h
+++ b/include/k3/tok3n/detail/parsers/join.h
@@ -32,7 +32,10 @@ public:
 
 	constexpr std::optional<output_span<ValueType>> get_joined() const
 	{
-		return joined;
+		// Copying an `optional` that was reset is not a constant expression everywhere, so make a new empty one
+		if (joined)
+			return *joined;
+		return std::nullopt;
 	}
 
 private:
-- 
2.43.0


From 8185c9151bf2cf20c85de5be795fcc9ca1cf5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:04 +0000
Subject: [PATCH 07/11] fix: a span of non-character elements compares with an
 array of its elements

---
 include/k3/tok3n/detail/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index a108461..cb28571 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -144,7 +144,7 @@ struct span_equal_to
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
 	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
 	{
-		if constexpr (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>)
+		if constexpr (character<T> and (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>))
 		{
 			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));
 		}
-- 
2.43.0


From c90cb92973d218cc4c17a3bf04fba8f84cd328fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:02 +0000
Subject: [PATCH 08/11] fix: a mutable character array parses like a constant
 one

---
 include/k3/tok3n/detail/span.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index cb28571..cf2377f 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -84,8 +84,9 @@ public:
 		: _value(std::basic_string_view<T>(data))
 	{}
 
-	template <std::size_t N>
-	constexpr span(const T(&arr)[N])
+	template <class U, std::size_t N>
+	requires std::same_as<const U, const T>
+	constexpr span(U(&arr)[N])
 		: _value(arr, N - 1)
 	{}
 
-- 
2.43.0


From e085482212fadd3645fc18a757452e4359687b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:13 +0000
Subject: [PATCH 09/11] fix: a span compares with every character of a string
 literal

---
 include/k3/tok3n/detail/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index cf2377f..f4b1299 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -145,7 +145,7 @@ struct span_equal_to
 	requires (not impl::is_span<std::remove_cvref_t<RHS>>)
 	[[nodiscard]] constexpr bool operator()(const span<T>& lhs, RHS&& rhs)
 	{
-		if constexpr (character<T> and (std::is_bounded_array_v<std::remove_cvref_t<RHS>> or std::is_pointer_v<std::remove_cvref_t<RHS>>))
+		if constexpr (character<T> and std::is_pointer_v<std::remove_cvref_t<RHS>>)
 		{
 			return lhs.operator std::basic_string_view<T>() == std::basic_string_view<T>(std::forward<RHS>(rhs));
 		}
-- 
2.43.0


From f7dc8c1da3e3ce7e5b3c072a864ad7dac4be5a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 10/11] fix: substitution reaches inside a parser named with
 another character type

---
 include/k3/tok3n/detail/modifiers/sub.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/k3/tok3n/detail/modifiers/sub.h b/include/k3/tok3n/detail/modifiers/sub.h
index a496abd..ca3fb71 100644
--- a/include/k3/tok3n/detail/modifiers/sub.h
+++ b/include/k3/tok3n/detail/modifiers/sub.h
@@ -27,7 +27,6 @@ struct substitute_one<named_parser<P, str>, Sub>
 };
 
 template <parser P, static_array str, substitution Sub>
-requires (Sub::name != str)
 struct substitute_one<named_parser<P, str>, Sub>
 {
 	using type = named_parser<typename substitute_one<P, Sub>::type, str>;
-- 
2.43.0


From 83b9cf762c568515cb0cf7a9b0dbeb58706ecbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 11/11] fix: a temporary mutable character array parses like a
 constant one

---
 include/k3/tok3n/detail/span.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/k3/tok3n/detail/span.h b/include/k3/tok3n/detail/span.h
index f4b1299..bb3c3d8 100644
--- a/include/k3/tok3n/detail/span.h
+++ b/include/k3/tok3n/detail/span.h
@@ -90,6 +90,12 @@ public:
 		: _value(arr, N - 1)
 	{}
 
+	template <class U, std::size_t N>
+	requires std::same_as<const U, const T>
+	constexpr span(U(&&arr)[N])
+		: _value(arr, N - 1)
+	{}
+
 	constexpr operator std::basic_string_view<T>() const
 	{
 		return { _value.data(), _value.size() };
-- 
2.43.0

