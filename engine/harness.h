// Everything the generated programs need: instrumented user types and functions, conversion of
// results into canonical form, adapters.  Uses only tok3n's public surface (and the names the
// test-suite itself uses from tok3n::detail: static_array, anything_parser).
#pragma once
#include <k3/tok3n.h>
#include <array>
#include <concepts>
#include <cstdio>
#include <cstring>
#include <limits>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include "shared.h"

namespace vh {

// ------------------------------------------------------------------ element types
enum class En : short {};
constexpr bool operator<(En a, En b) { return static_cast<short>(a) < static_cast<short>(b); }
struct St
{
	int a; short b;
	short noise = 0; // not part of the value
	friend constexpr bool operator==(const St& x, const St& y) { return x.a == y.a && x.b == y.b; }
	friend constexpr auto operator<=>(const St& x, const St& y) { return x.a != y.a ? x.a <=> y.a : x.b <=> y.b; }
};
constexpr St mkst(i64 c) { return St{ static_cast<int>(c >> 8), static_cast<short>(c & 255) }; }
// comparable with char, but not arithmetic
struct Box
{
	int v;
	friend constexpr bool operator==(const Box& x, const Box& y) { return x.v == y.v; }
	friend constexpr bool operator==(const Box& x, char y) { return x.v == y; }
	friend constexpr bool operator==(const Box& x, int y) { return x.v == y; }
};

template <class V> constexpr V from_code(i64 c)
{
	if constexpr (std::same_as<V, St>) return mkst(c);
	else if constexpr (std::same_as<V, Box>) return Box{ static_cast<int>(c) };
	else if constexpr (std::floating_point<V>)
	{
		// inputs only: elements equal to nothing, beyond everything, and between the integers
		if (c == odd_element) return std::numeric_limits<V>::quiet_NaN();
		if (c == odd_element + 1) return std::numeric_limits<V>::infinity();
		if (c == odd_element + 2) return -std::numeric_limits<V>::infinity();
		if (c > odd_element + (odd_element >> 1)) return static_cast<V>(c - 2 * odd_element) + V(0.5);
		return static_cast<V>(c);
	}
	else return static_cast<V>(c);
}
template <class V> constexpr i64 to_code(const V& v)
{
	if constexpr (std::same_as<V, St>) return (static_cast<i64>(v.a) << 8) | (v.b & 255);
	else if constexpr (std::same_as<V, Box>) return v.v;
	else if constexpr (std::floating_point<V>)
	{
		if (v != v) return odd_element;
		if (v > std::numeric_limits<V>::max()) return odd_element + 1;
		if (v < std::numeric_limits<V>::lowest()) return odd_element + 2;
		if (v != static_cast<V>(static_cast<i64>(v))) return static_cast<i64>(v - V(0.5)) + 2 * odd_element; // (integers and a half only)
		return static_cast<i64>(v);
	}
	else return static_cast<i64>(v);
}
template <class V> void fill_elems(void* dst, const i64* codes, std::size_t n)
{
	V* p = static_cast<V*>(dst);
	for (std::size_t i = 0; i != n; ++i) ::new (static_cast<void*>(p + i)) V(from_code<V>(codes[i]));
	if constexpr (std::same_as<V, St>) for (std::size_t i = 0; i != n; ++i) p[i].noise = static_cast<short>(i * 7919 + 13); // equal elements need not be the same
	if constexpr (std::floating_point<V>) for (std::size_t i = 1; i < n; i += 2) if (codes[i] == 0) p[i] = -p[i];
}
template <class V> bool same_elems(const void* src, const i64* codes, std::size_t n)
{
	const V* p = static_cast<const V*>(src);
	for (std::size_t i = 0; i != n; ++i) if (to_code<V>(p[i]) != codes[i]) return false;
	return true;
}
template <class V> inline constexpr const char* elem_name = "?";
#define VH_EN(T) template <> inline constexpr const char* elem_name<T> = #T;
VH_EN(char) VH_EN(wchar_t) VH_EN(char8_t) VH_EN(char16_t) VH_EN(char32_t) VH_EN(signed char) VH_EN(unsigned char)
VH_EN(short) VH_EN(unsigned short) VH_EN(int) VH_EN(unsigned) VH_EN(long) VH_EN(unsigned long) VH_EN(En) VH_EN(St) VH_EN(Box) VH_EN(double) VH_EN(bool)
template <class V> inline const ElemOps elem_ops = { elem_name<V>, sizeof(V), &fill_elems<V>, &same_elems<V> };

// ------------------------------------------------------------------ type classification
template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};
template <class T> struct is_vec : std::false_type {};
template <class T, class A> struct is_vec<std::vector<T, A>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, std::size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <class T> struct is_var : std::false_type {};
template <class... T> struct is_var<std::variant<T...>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> struct is_sv : std::false_type {};
template <class C> struct is_sv<std::basic_string_view<C>> : std::true_type {};
template <class T> struct is_str : std::false_type {};
template <class C> struct is_str<std::basic_string<C>> : std::true_type {};
template <class T> concept user_obj = requires { T::vh_kind; };
struct Big // a structural constant
{
	int x; short y;
	friend constexpr bool operator==(const Big&, const Big&) = default;
};

// ------------------------------------------------------------------ content digest (constexpr)
template <class T> constexpr u64 dig(const T& t)
{
	if constexpr (user_obj<T>)
		return t.moved ? 0xdeadull : mix(mix(T_OBJ, T::vh_id), t.d);
	else if constexpr (is_opt<T>::value)
		return t.has_value() ? mix(mix(T_OPT, 1), dig(*t)) : mix(T_OPT, 0);
	else if constexpr (is_vec<T>::value || is_arr<T>::value)
	{
		u64 h = mix(is_vec<T>::value ? T_VEC : T_ARR, t.size());
		for (const auto& e : t) h = mix(h, dig(e));
		return h;
	}
	else if constexpr (is_tup<T>::value)
		return std::apply([](const auto&... es) { u64 h = mix(T_TUP, sizeof...(es)); ((h = mix(h, dig(es))), ...); return h; }, t);
	else if constexpr (is_pair<T>::value)
		return mix(mix(T_PAIR, dig(t.first)), dig(t.second));
	else if constexpr (is_var<T>::value)
		return mix(mix(T_VAR, t.index()), std::visit([](const auto& e) { return dig(e); }, t));
	else if constexpr (is_str<T>::value)
	{
		u64 h = mix(T_STR, t.size());
		for (auto c : t) h = mix(h, static_cast<u64>(to_code(c)));
		return h;
	}
	else if constexpr (std::same_as<T, Big>)
		return mix(mix(T_INT, static_cast<u64>(static_cast<i64>(t.x))), static_cast<u64>(static_cast<i64>(t.y)));
	else if constexpr (std::is_arithmetic_v<T> || std::is_enum_v<T>)
		return mix(T_INT, static_cast<u64>(static_cast<i64>(t)));
	else if constexpr (std::same_as<T, std::nullptr_t>)
		return mix(T_INT, 0);
	else // a span or a string view
	{
		u64 h = mix(T_SPAN, t.size());
		for (std::size_t i = 0; i != t.size(); ++i) h = mix(h, static_cast<u64>(to_code(*(t.data() + i))));
		return h;
	}
}

// ------------------------------------------------------------------ canonical form (run time)
inline void put(std::string& s, i64 v) { char b[32]; std::snprintf(b, sizeof b, "%lld", static_cast<long long>(v)); s += b; }
inline void puthex(std::string& s, u64 v) { char b[32]; std::snprintf(b, sizeof b, "%llx", static_cast<unsigned long long>(v)); s += b; }
inline void put_piece(std::string& s, char kind, const void* p, std::size_t len)
{
	const char* q = static_cast<const char*>(p);
	s += kind;
	if (len == 0)
	{
		const std::size_t before = s.size();
		// an empty piece lies within the input, too, unless nobody made it from the input at all
		if (q == nullptr && ctx.base != nullptr) s += "~null";
		else if (q == nullptr) s += "0:0";
		else if (q < ctx.base || q > ctx.base + ctx.n * ctx.elem || (q - ctx.base) % static_cast<i64>(ctx.elem)) s += "~outside!";
		else { put(s, (q - ctx.base) / static_cast<i64>(ctx.elem)); s += ":0"; }
		ctx.slack += s.size() - before;
		return;
	}
	i64 byte = q - ctx.base;
	if (byte < 0 || byte % static_cast<i64>(ctx.elem) || byte / static_cast<i64>(ctx.elem) + static_cast<i64>(len) > static_cast<i64>(ctx.n))
	{ s += "outside!"; return; }
	put(s, byte / static_cast<i64>(ctx.elem)); s += ':'; put(s, static_cast<i64>(len));
}

template <class T> void canon(std::string& s, const T& t)
{
	if constexpr (user_obj<T>)
	{
		s += T::vh_kind; put(s, T::vh_id); s += t.moved ? ":MOVED" : ":"; if (!t.moved) puthex(s, t.d);
	}
	else if constexpr (is_opt<T>::value)
	{
		if (t.has_value()) { s += "O("; canon(s, *t); s += ')'; } else s += "O-";
	}
	else if constexpr (is_vec<T>::value || is_arr<T>::value)
	{
		s += is_vec<T>::value ? "L[" : "A[";
		bool first = true;
		for (const auto& e : t) { if (!first) s += ','; first = false; canon(s, e); }
		s += ']';
	}
	else if constexpr (is_tup<T>::value)
	{
		s += "T(";
		std::apply([&](const auto&... es) { bool first = true; ((first ? void() : void(s += ','), first = false, canon(s, es)), ...); }, t);
		s += ')';
	}
	else if constexpr (is_pair<T>::value)
	{ s += "P("; canon(s, t.first); s += ','; canon(s, t.second); s += ')'; }
	else if constexpr (is_var<T>::value)
	{
		s += 'V'; put(s, static_cast<i64>(t.index())); s += '(';
		std::visit([&](const auto& e) { canon(s, e); }, t); s += ')';
	}
	else if constexpr (is_str<T>::value)
	{
		s += "s\"";
		for (auto c : t) { put(s, to_code(c)); s += ' '; }
		s += '"';
	}
	else if constexpr (std::same_as<T, Big>)
	{ s += "b"; put(s, t.x); s += '/'; put(s, t.y); }
	else if constexpr (std::is_enum_v<T>)
	{ s += 'e'; put(s, static_cast<i64>(t)); }
	else if constexpr (std::is_arithmetic_v<T>)
	{ s += 'i'; put(s, static_cast<i64>(t)); }
	else if constexpr (std::same_as<T, std::nullptr_t>)
		s += "i0";
	else if constexpr (is_sv<T>::value)
		put_piece(s, 'W', t.data(), t.size());
	else
		put_piece(s, 'S', t.data(), t.size());
}

// ------------------------------------------------------------------ type descriptors
template <class T> inline constexpr const char* scalar_name = nullptr;
template <> inline constexpr const char* scalar_name<int> = "int";
template <> inline constexpr const char* scalar_name<long> = "long";
template <> inline constexpr const char* scalar_name<bool> = "bool";
template <> inline constexpr const char* scalar_name<char> = "char";
template <> inline constexpr const char* scalar_name<u64> = "u64";
template <> inline constexpr const char* scalar_name<unsigned> = "uns";
template <> inline constexpr const char* scalar_name<short> = "shrt";
template <> inline constexpr const char* scalar_name<unsigned char> = "uchr";
template <> inline constexpr const char* scalar_name<double> = "dbl";
template <> inline constexpr const char* scalar_name<En> = "en";
template <> inline constexpr const char* scalar_name<Big> = "big";
template <> inline constexpr const char* scalar_name<std::nullptr_t> = "null";

template <class T, class V> std::string tdesc();
template <class V, class... Ts> std::string tdescs() { std::string s; ((s += ' ', s += tdesc<Ts, V>()), ...); return s; }
template <class T, class V> struct TD
{
	static std::string get()
	{
		if constexpr (std::same_as<T, void>) return "v";
		else if constexpr (scalar_name<T> != nullptr) return scalar_name<T>;
		else if constexpr (user_obj<T>) return std::string("(") + T::vh_kind + " " + std::to_string(T::vh_id) + ")";
		else if constexpr (is_sv<T>::value) return std::same_as<T, std::basic_string_view<V>> ? "sv" : "sv?";
		else if constexpr (is_str<T>::value) return std::same_as<T, std::basic_string<V>> ? "str" : "str?";
		else if constexpr (requires(const T& t) { { t.data() } -> std::same_as<const V*>; { t.size() } -> std::convertible_to<std::size_t>; }) return "S";
		else return "?";
	}
};
template <class T, class V> struct TD<std::optional<T>, V> { static std::string get() { return "(opt" + tdescs<V, T>() + ")"; } };
template <class T, class V> struct TD<std::vector<T>, V> { static std::string get() { return "(vec" + tdescs<V, T>() + ")"; } };
template <class T, std::size_t N, class V> struct TD<std::array<T, N>, V> { static std::string get() { return "(arr " + std::to_string(N) + tdescs<V, T>() + ")"; } };
template <class... Ts, class V> struct TD<std::tuple<Ts...>, V> { static std::string get() { return "(tup" + tdescs<V, Ts...>() + ")"; } };
template <class... Ts, class V> struct TD<std::variant<Ts...>, V> { static std::string get() { return "(var" + tdescs<V, Ts...>() + ")"; } };
template <class A, class B, class V> struct TD<std::pair<A, B>, V> { static std::string get() { return "(pair" + tdescs<V, A, B>() + ")"; } };
template <class T, class V> std::string tdesc() { return TD<T, V>::get(); }

// ------------------------------------------------------------------ user calls
// A call is traced with its identity and the full canonical form of its arguments; it may be told to throw.
template <class... A>
constexpr void called(const char* kind, i64 id, const A&... as)
{
	if (std::is_constant_evaluated()) return;
	Ctx& c = ctx;
	++c.calls;
	if (c.trace)
	{
		std::string& s = *c.trace;
		if (s.size() - c.slack < 200000)
		{
			s += kind; put(s, id); s += '(';
			bool first = true;
			((first ? void() : void(s += ','), first = false, canon(s, as)), ...);
			s += ");";
		}
	}
	if (c.throw_at && c.calls == c.throw_at) throw Injected{ c.calls };
}
template <class... A> constexpr u64 digest_args(u64 salt, u64 k, const A&... as)
{
	u64 h = mix(mix(salt, k), sizeof...(as));
	((h = mix(h, dig(as))), ...);
	return h;
}

// ------------------------------------------------------------------ instrumented value types
struct Counted
{
	constexpr Counted() { if (!std::is_constant_evaluated()) ++live; }
	constexpr Counted(const Counted&) { if (!std::is_constant_evaluated()) ++live; }
	constexpr Counted& operator=(const Counted&) = default;
	constexpr ~Counted() { if (!std::is_constant_evaluated()) --live; }
};
struct Raw { u64 d; }; // construct with a given digest

template <int K> struct Ob : Counted // copyable and movable; moves are visible
{
	static constexpr const char* vh_kind = "ob"; static constexpr int vh_id = K;
	u64 d = 0; bool moved = false;
	constexpr Ob() = default;
	constexpr explicit Ob(Raw r) : d(r.d) {}
	constexpr Ob(const Ob& o) : Counted(o), d(o.d), moved(o.moved) {}
	constexpr Ob(Ob&& o) noexcept : Counted(o), d(o.d), moved(o.moved) { o.moved = true; o.d = 0; }
	constexpr Ob& operator=(const Ob& o) { d = o.d; moved = o.moved; return *this; }
	constexpr Ob& operator=(Ob&& o) noexcept { if (this != &o) { d = o.d; moved = o.moved; o.moved = true; o.d = 0; } return *this; }
	constexpr u64 get() const { called("g", K, *this); return d; }
	constexpr ~Ob() = default;
};
template <int K> struct Mo : Counted // move-only
{
	static constexpr const char* vh_kind = "mo"; static constexpr int vh_id = K;
	u64 d = 0; bool moved = false;
	constexpr Mo() = default;
	constexpr explicit Mo(Raw r) : d(r.d) {}
	constexpr Mo(Mo&& o) noexcept : Counted(o), d(o.d), moved(o.moved) { o.moved = true; o.d = 0; }
	constexpr Mo& operator=(Mo&& o) noexcept { if (this != &o) { d = o.d; moved = o.moved; o.moved = true; o.d = 0; } return *this; }
	constexpr ~Mo() = default;
};
template <int K> struct Co : Counted // copy-only: no move operations, so everything copies
{
	static constexpr const char* vh_kind = "co"; static constexpr int vh_id = K;
	static constexpr bool moved = false;
	u64 d = 0;
	constexpr Co() = default;
	constexpr explicit Co(Raw r) : d(r.d) {}
	constexpr Co(const Co& o) : Counted(o), d(o.d) {}
	constexpr Co& operator=(const Co& o) { d = o.d; return *this; }
	constexpr ~Co() = default;
};
template <int K> struct Ho : Counted // heap-owning, move-only; run time only
{
	static constexpr const char* vh_kind = "ho"; static constexpr int vh_id = K;
	u64 d = 0; bool moved = false; std::unique_ptr<u64> p = std::make_unique<u64>(0);
	Ho() = default;
	explicit Ho(Raw r) : d(r.d), p(std::make_unique<u64>(r.d)) {}
	Ho(Ho&& o) noexcept : Counted(o), d(o.d), moved(o.moved || !o.p || *o.p != o.d), p(std::move(o.p)) { o.moved = true; }
	Ho& operator=(Ho&& o) noexcept { if (this != &o) { d = o.d; moved = o.moved || !o.p || *o.p != o.d; p = std::move(o.p); o.moved = true; } return *this; }
};
struct Listed // an element of an initializer list, made of anything but a target of into
{
	template <class A> requires (not user_obj<std::remove_cvref_t<A>> and not std::same_as<std::remove_cvref_t<A>, Raw>)
	constexpr Listed(const A&) {}
	template <class A> requires (user_obj<A>) and (std::string_view(A::vh_kind) != "in")
	constexpr Listed(const A&) {}
};
template <int K> struct In : Counted // target of into / apply_into
{
	static constexpr const char* vh_kind = "in"; static constexpr int vh_id = K;
	u64 d = 0; bool moved = false;
	constexpr In() = default;
	template <class... A>
	requires (sizeof...(A) > 0) and (not (sizeof...(A) == 1 and (... and std::same_as<std::remove_cvref_t<A>, In>)))
	constexpr explicit In(A&&... as) : d(digest_args(T_INTO, K, as...)) { called("in", K, as...); sink(std::forward<A>(as)...); }
	constexpr In(std::initializer_list<Listed> l) requires (K % 2 == 1) : d(mix(77, l.size())) { called("il", K); } // what braces would mean
	constexpr In(const In& o) : Counted(o), d(o.d), moved(o.moved) {}
	constexpr In(In&& o) noexcept : Counted(o), d(o.d), moved(o.moved) { o.moved = true; o.d = 0; }
	constexpr In& operator=(const In& o) { d = o.d; moved = o.moved; return *this; }
	constexpr In& operator=(In&& o) noexcept { if (this != &o) { d = o.d; moved = o.moved; o.moved = true; o.d = 0; } return *this; }
	constexpr ~In() = default;
private:
	template <class... A> static constexpr void sink(A&&... as) { ((void)std::remove_cvref_t<A>(std::forward<A>(as)), ...); } // consumes its arguments
};

// ------------------------------------------------------------------ user functions
template <class R, int K> struct Fn // digests its arguments (by forwarding reference) into an R
{
	template <class... A> constexpr R operator()(A&&... as) const
	{
		u64 h = digest_args(T_FN, K, as...);
		called("f", K, as...);
		if constexpr (std::same_as<R, int>) return static_cast<int>(h % 1000);
		else if constexpr (std::same_as<R, u64>) return h;
		else return R(Raw{ h });
	}
};
template <class R, int K> struct FnV // the same, taking its arguments by value
{
	template <class... A> constexpr R operator()(A... as) const
	{
		u64 h = digest_args(T_FN, K, as...);
		called("f", K, as...);
		if constexpr (std::same_as<R, int>) return static_cast<int>(h % 1000);
		else if constexpr (std::same_as<R, u64>) return h;
		else return R(Raw{ h });
	}
};
template <int K, class V> struct Dep // answers an input of the parser's own elements with one type, and any other input with another
{
	template <class S> constexpr auto operator()(S s) const
	{
		u64 h = digest_args(T_FN, K, s);
		called("f", K, s);
		if constexpr (std::same_as<std::remove_cvref_t<decltype(*s.data())>, V>) return static_cast<int>(h % 1000);
		else return h;
	}
};
template <int K> struct Ident { template <class T> constexpr T operator()(T t) const { called("f", K, t); return t; } };
template <int K> struct VoidFn { template <class... A> constexpr void operator()(A&&... as) const { called("f", K, as...); } };
template <int K> struct Pred
{
	template <class... A> constexpr bool operator()(const A&... as) const
	{
		called("p", K, as...);
		if constexpr (sizeof...(A) == 0) return void_predicate(K);
		else return predicate(K, digest_args(T_FN, K, as...));
	}
};
struct Truthy { bool b; constexpr operator bool() const { return b; } };
template <int K> struct PredT // predicate whose answer merely converts to bool
{
	template <class... A> constexpr Truthy operator()(const A&... as) const { return Truthy{ Pred<K>{}(as...) }; }
};
template <int K> struct PredI // answers with a number, as C functions do: any but zero is a yes
{
	template <class... A> constexpr int operator()(const A&... as) const { return Pred<K>{}(as...) ? 2 + K % 5 * 256 : 0; }
};
template <int K> struct PredN
{
	template <class... A> constexpr signed char operator()(const A&... as) const { return Pred<K>{}(as...) ? -1 : 0; }
};
template <int K> struct PredD
{
	template <class... A> constexpr double operator()(const A&... as) const { return Pred<K>{}(as...) ? 0.25 : -0.0; }
};
template <int K> struct PredM // has an overload of its own for what it may change, and changes it
{
	template <class... A> constexpr bool operator()(const A&... as) const { return Pred<K>{}(as...); }
	template <class... A> requires (sizeof...(A) > 0) and (... and not std::is_const_v<A>) constexpr bool operator()(A&... as) const
	{
		bool b = Pred<K>{}(std::as_const(as)...);
		(spoil(as), ...);
		return b;
	}
private:
	template <class T> static constexpr void spoil(T& t)
	{
		if constexpr (std::is_default_constructible_v<T> and std::is_move_assignable_v<T>) t = T{};
		else [[maybe_unused]] T taken(std::move(t));
	}
};
inline constexpr int pointed_at = 0;
template <int K> struct PredP
{
	template <class... A> constexpr const int* operator()(const A&... as) const { return Pred<K>{}(as...) ? &pointed_at : nullptr; }
};
template <int K> struct PredF // predicate taking its arguments by forwarding reference, consuming what it is given to consume
{
	template <class... A> constexpr bool operator()(A&&... as) const
	{
		bool b = Pred<K>{}(std::as_const(as)...);
		((void)consume(std::forward<A>(as)), ...);
		return b;
	}
private:
	template <class T> static constexpr void consume(T& ) {}
	template <class T> requires (not std::is_lvalue_reference_v<T>) and (not std::is_const_v<T>) static constexpr void consume(T&& t) { [[maybe_unused]] T taken(std::move(t)); }
};
template <int K> struct Dup { template <class S> constexpr std::tuple<S, S> operator()(S s) const { called("f", K, s); return { s, s }; } };
template <int K> struct Halves { template <class S> constexpr std::array<S, 2> operator()(S s) const { called("f", K, s); return { S(s.data(), s.size() / 2), S(s.data() + s.size() / 2, s.size() - s.size() / 2) }; } };
template <int K> struct Chips { template <class S> constexpr std::vector<S> operator()(S s) const { called("f", K, s); std::vector<S> v; for (std::size_t i = 0; i != s.size(); ++i) v.push_back(S(s.data() + i, std::size_t{ 1 })); return v; } };
template <int K> struct Overlap { template <class S> constexpr std::tuple<S, S> operator()(S s) const { called("f", K, s); return { s, s.size() == 0 ? s : S(s.data() + 1, s.size() - 1) }; } };
template <int K> struct Swap2 { template <class A, class B> constexpr std::tuple<B, A> operator()(std::tuple<A, B> t) const { called("f", K, t); return { std::get<1>(std::move(t)), std::get<0>(std::move(t)) }; } };
template <int K> struct Rev
{
	template <class C> constexpr C operator()(C c) const
	{
		called("f", K, c);
		for (std::size_t i = 0, j = c.size(); i + 1 < j; ++i) { --j; if (i < j) { auto t = std::move(c[i]); c[i] = std::move(c[j]); c[j] = std::move(t); } }
		return c;
	}
};
template <int K> struct DropF { template <class S> constexpr S operator()(S s) const { called("f", K, s); return s.size() == 0 ? s : S(s.data() + 1, s.size() - 1); } };
template <int K> struct DropL { template <class S> constexpr S operator()(S s) const { called("f", K, s); return s.size() == 0 ? s : S(s.data(), s.size() - 1); } };
template <int K> struct Empt { template <class S> constexpr S operator()(S s) const { called("f", K, s); return S(s.data(), std::size_t{ 0 }); } };
template <int K> struct Len { template <class S> constexpr int operator()(const S& s) const { called("f", K, s); return static_cast<int>(s.size()); } };
template <int K> constexpr int free_fn(int x) { called("f", K, x); return x * 3 + K; }

// ------------------------------------------------------------------ evaluation
template <class V, class Res> void record(Res&& r, Out& o)
{
	o.ok = static_cast<bool>(r);
	if (o.ok != r.has_value()) { o.value = "bool/has_value disagree"; }
	auto rem = r.remaining();
	const char* p = reinterpret_cast<const char*>(rem.data());
	i64 byte = p - ctx.base;
	if (p == nullptr && ctx.n == 0) byte = 0;
	if (byte < 0 || byte % static_cast<i64>(ctx.elem) || static_cast<std::size_t>(byte) > ctx.n * ctx.elem) { o.rem_bad = true; }
	else o.rem_off = static_cast<std::size_t>(byte) / ctx.elem;
	o.rem_len = rem.size();
	if (o.value.empty())
	{
		if constexpr (std::same_as<typename std::remove_cvref_t<Res>::value_type, void>) o.value = "v";
		else if (o.ok) canon(o.value, *r);
	}
}
template <class P, class V> void do_parse(const void* data, std::size_t n, Out& o)
{
	const V* p = static_cast<const V*>(data);
	ctx.base = reinterpret_cast<const char*>(p); ctx.n = n; ctx.elem = sizeof(V); ctx.calls = 0; ctx.slack = 0; ctx.trace = &o.trace;
	try { record<V>(P::parse(std::span<const V>(p, n)), o); }
	catch (const Injected& e) { o.threw = true; o.throw_id = e.id; }
	ctx.trace = nullptr;
}
template <class P, class V> void do_look(const void* data, std::size_t n, Out& o)
{
	const V* p = static_cast<const V*>(data);
	ctx.base = reinterpret_cast<const char*>(p); ctx.n = n; ctx.elem = sizeof(V); ctx.calls = 0; ctx.slack = 0; ctx.trace = &o.trace;
	try { record<V>(P::lookahead(std::span<const V>(p, n)), o); }
	catch (const Injected& e) { o.threw = true; o.throw_id = e.id; }
	ctx.trace = nullptr;
}
template <class P, class V> using value_of = typename decltype(P::parse(std::span<const V>{}))::value_type;
template <class P, class V> std::string do_type()
{
	using R = value_of<P, V>;
	std::string s = tdesc<R, V>();
	if (!std::same_as<R, typename P::template result_for<V>>) s += " <> result_for";
	if (!std::same_as<void, typename decltype(P::lookahead(std::span<const V>{}))::value_type>) s += " lookahead has a value";
	return s;
}
template <class P, class V> u64 do_digest(const void* data, std::size_t n)
{
	const V* p = static_cast<const V*>(data);
	auto r = P::parse(std::span<const V>(p, n));
	if (!r) return 1;
	if constexpr (std::same_as<value_of<P, V>, void>) return 2;
	else return dig(*r);
}
struct CE { bool ok; std::size_t rem; u64 digest; bool look_ok; std::size_t look_rem; };
template <class P, class V> constexpr CE const_eval(std::span<const V> in)
{
	CE c{};
	{
		auto r = P::parse(in);
		c.ok = r.has_value(); c.rem = r.remaining().size(); c.digest = 1;
		if (c.ok) { if constexpr (std::same_as<value_of<P, V>, void>) c.digest = 2; else c.digest = dig(*r); }
	}
	auto l = P::lookahead(in);
	c.look_ok = l.has_value(); c.look_rem = l.remaining().size();
	return c;
}
inline ConstCase const_case(std::vector<i64> in, CE c) { return { std::move(in), c.ok, c.rem, c.digest, c.look_ok, c.look_rem }; }

// ------------------------------------------------------------------ input forms
template <class V> concept character = std::same_as<V, char> or std::same_as<V, wchar_t> or std::same_as<V, char8_t> or std::same_as<V, char16_t> or std::same_as<V, char32_t>;
template <class V> struct OwnRange // a user's own contiguous range
{
	const V* b; const V* e;
	constexpr const V* begin() const { return b; }
	constexpr const V* end() const { return e; }
};
template <class V> struct MutRange // only iterable when not const
{
	V* b; V* e;
	V* begin() { return b; }
	V* end() { return e; }
};
template <class V> struct OwnAlloc : std::allocator<V>
{
	using value_type = V;
	template <class W> struct rebind { using other = OwnAlloc<W>; };
	OwnAlloc() = default;
	template <class W> OwnAlloc(const OwnAlloc<W>&) {}
};
template <class V> struct ConvRange // a contiguous range that also has an operator of its own
{
	const V* b; const V* e;
	const V* begin() const { return b; }
	const V* end() const { return e; }
	V operator[](std::size_t i) const { return b[i]; }
	std::size_t capacity() const { return static_cast<std::size_t>(e - b) + 3; }
};
template <class P, class V> struct forms
{
	template <class R> static void eval_on(R&& range, const V* data, std::size_t n, bool look, Out& o)
	{
		ctx.base = reinterpret_cast<const char*>(data); ctx.n = n; ctx.elem = sizeof(V); ctx.calls = 0; ctx.slack = 0; ctx.trace = &o.trace;
		try
		{
			if (look)
			{
				auto r = P::lookahead(std::forward<R>(range));
				record<V>(r, o);
				if (!std::same_as<typename decltype(r)::span_type, V>) o.value = "remainder of another element type";
			}
			else
			{
				auto r = P::parse(std::forward<R>(range));
				record<V>(r, o);
				if (!std::same_as<typename decltype(r)::span_type, V>) o.value = "remainder of another element type";
				if (!std::same_as<typename decltype(r)::value_type, value_of<P, V>>) o.value = "value of another type: " + tdesc<typename decltype(r)::value_type, V>();
			}
		}
		catch (const Injected& e) { o.threw = true; o.throw_id = e.id; }
		ctx.trace = nullptr;
	}
	// calls f with the size as a constant
	template <std::size_t Max, class F> static bool sized(std::size_t n, F f)
	{
		return [&]<std::size_t... Is>(std::index_sequence<Is...>) { return ((n == Is ? (f(std::integral_constant<std::size_t, Is>{}), true) : false) || ...); }(std::make_index_sequence<Max + 1>{});
	}
	static constexpr int count = 49;
	static const char* name(int f)
	{
		static const char* names[count] = { "std::vector", "const std::vector", "std::span<const V>", "std::span<V>", "user range", "mutable user range", "std::ranges::subrange", "remainder of an earlier parse",
			"value of an earlier parse", "std::array", "const C array", "std::span of fixed extent", "initializer_list", "std::basic_string", "const std::basic_string", "std::basic_string_view", "null-terminated pointer", "string literal", "rvalue span of input", "mutable C array", "mutable character array",
			"const std::array", "rvalue std::array", "rvalue std::vector", "const rvalue std::vector", "const std::span<const V>", "const std::span<V>", "const std::span of fixed extent", "const user range",
			"lvalue user range", "const std::ranges::subrange", "const remainder", "remainder of a const result", "rvalue std::basic_string", "const std::basic_string_view", "lvalue std::basic_string_view",
			"const pointer", "rvalue C array", "rvalue character array", "const rvalue string literal", "class derived from std::vector", "class derived from std::basic_string", "std::ranges::ref_view",
			"std::vector with an allocator", "const value of an earlier parse", "range with a conversion to another one", "std::array of const", "const rvalue std::array", "std::span<V> of fixed extent" };
		return names[f];
	}
	static bool run(int f, const i64* codes, std::size_t n, bool look, Out& o)
	{
		std::vector<V> v; v.reserve(n + 3);
		for (std::size_t i = 0; i != n; ++i) v.push_back(from_code<V>(codes[i]));
		const std::vector<V>& cv = v;
		const V* d = v.data();
		switch (f)
		{
		case 0: eval_on(v, d, n, look, o); return true;
		case 1: eval_on(cv, d, n, look, o); return true;
		case 2: eval_on(std::span<const V>(v), d, n, look, o); return true;
		case 3: eval_on(std::span<V>(v), d, n, look, o); return true;
		case 4: eval_on(OwnRange<V>{ d, d + n }, d, n, look, o); return true;
		case 5: { MutRange<V> m{ v.data(), v.data() + n }; eval_on(m, d, n, look, o); return true; }
		case 6: eval_on(std::ranges::subrange(v.begin(), v.end()), d, n, look, o); return true;
		case 7:
		{
			v.insert(v.begin(), from_code<V>(7));
			auto before = k3::tok3n::detail::anything_parser<V>::parse(v);
			eval_on(before.remaining(), v.data() + 1, n, look, o);
			return true;
		}
		case 8:
		{
			auto whole = (*k3::tok3n::detail::anything_parser<V>{} % k3::tok3n::join).parse(v);
			if (n == 0) return false;
			eval_on(*whole, d, n, look, o);
			return true;
		}
		case 9: return sized<8>(n, [&](auto N) { std::array<V, N> a{}; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(a, a.data(), N, look, o); });
		case 10:
			if constexpr (character<V>) return false;
			else
			{
				if (n == 0) return false;
				return sized<8>(n, [&](auto N) { if constexpr (N != 0) { V a[N]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; const V (&ca)[N] = a; eval_on(ca, a, N, look, o); } });
			}
		case 11: return sized<8>(n, [&](auto N) { std::span<const V, N> sp(d, N); eval_on(sp, d, N, look, o); });
		case 12: if (n != 3) return false; else { std::initializer_list<V> il = { v[0], v[1], v[2] }; eval_on(il, il.begin(), 3, look, o); return true; }
		case 13: case 14: case 15:
			if constexpr (character<V>)
			{
				std::basic_string<V> s(v.begin(), v.end()); const std::basic_string<V>& cs = s;
				if (f == 13) eval_on(s, s.data(), n, look, o);
				else if (f == 14) eval_on(cs, s.data(), n, look, o);
				else eval_on(std::basic_string_view<V>(s), s.data(), n, look, o);
				return true;
			}
			else return false;
		case 16:
			if constexpr (character<V>)
			{
				for (const V& c : v) if (c == V{}) return false;
				v.push_back(V{}); const V* p = v.data();
				eval_on(p, p, n, look, o);
				return true;
			}
			else return false;
		case 17:
			if constexpr (character<V>)
				return sized<8>(n, [&](auto N) { V a[N + 1]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; a[N] = V{}; const V (&ca)[N + 1] = a; eval_on(ca, a, N, look, o); });
			else return false;
		case 19:
			if constexpr (character<V>) return false;
			else
			{
				if (n == 0) return false;
				return sized<8>(n, [&](auto N) { if constexpr (N != 0) { V a[N]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(a, a, N, look, o); } });
			}
		case 20:
			if constexpr (character<V>)
				return sized<8>(n, [&](auto N) { V a[N + 1]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; a[N] = V{}; eval_on(a, a, N, look, o); });
			else return false;
		case 18: eval_on(k3::tok3n::detail::input_span<V>(std::span<const V>(v)), d, n, look, o); return true;
		case 21: return sized<4>(n, [&](auto N) { std::array<V, N> a{}; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(std::as_const(a), a.data(), N, look, o); });
		case 22: return sized<4>(n, [&](auto N) { std::array<V, N> a{}; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(std::move(a), a.data(), N, look, o); });
		case 23: eval_on(std::move(v), d, n, look, o); return true;
		case 24: eval_on(std::move(cv), d, n, look, o); return true;
		case 25: { const std::span<const V> s(v); eval_on(s, d, n, look, o); return true; }
		case 26: { const std::span<V> s(v); eval_on(s, d, n, look, o); return true; }
		case 27: return sized<4>(n, [&](auto N) { const std::span<const V, N> sp(d, N); eval_on(sp, d, N, look, o); });
		case 28: { const OwnRange<V> r{ d, d + n }; eval_on(r, d, n, look, o); return true; }
		case 29: { OwnRange<V> r{ d, d + n }; eval_on(r, d, n, look, o); return true; }
		case 30: { const std::ranges::subrange r(v.begin(), v.end()); eval_on(r, d, n, look, o); return true; }
		case 31: { const k3::tok3n::detail::input_span<V> r{ std::span<const V>(v) }; eval_on(r, d, n, look, o); return true; }
		case 32:
		{
			v.insert(v.begin(), from_code<V>(7));
			const auto before = k3::tok3n::detail::anything_parser<V>::lookahead(std::as_const(v));
			eval_on(before.remaining(), v.data() + 1, n, look, o);
			return true;
		}
		case 33: case 34: case 35: case 41:
			if constexpr (character<V>)
			{
				std::basic_string<V> s(v.begin(), v.end()); std::basic_string_view<V> w(s);
				if (f == 33) eval_on(std::move(s), s.data(), n, look, o);
				else if (f == 34) eval_on(std::as_const(w), s.data(), n, look, o);
				else if (f == 35) eval_on(w, s.data(), n, look, o);
				else { struct Own : std::basic_string<V> { using std::basic_string<V>::basic_string; }; const Own own(v.begin(), v.end()); eval_on(own, own.data(), n, look, o); }
				return true;
			}
			else return false;
		case 36:
			if constexpr (character<V>)
			{
				for (const V& c : v) if (c == V{}) return false;
				v.push_back(V{}); const V* const p = v.data();
				eval_on(p, p, n, look, o);
				return true;
			}
			else return false;
		case 37:
			if constexpr (character<V>) return false;
			else
			{
				if (n == 0) return false;
				return sized<4>(n, [&](auto N) { if constexpr (N != 0) { V a[N]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(std::move(a), a, N, look, o); } });
			}
		case 38: case 39:
			if constexpr (character<V>)
				return sized<4>(n, [&](auto N)
				{
					V a[N + 1]; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; a[N] = V{};
					if (f == 38) eval_on(std::move(a), a, N, look, o); else { const V (&ca)[N + 1] = a; eval_on(std::move(ca), a, N, look, o); }
				});
			else return false;
		case 40: { struct Own : std::vector<V> { using std::vector<V>::vector; }; const Own own(v.begin(), v.end()); eval_on(own, own.data(), n, look, o); return true; }
		case 42: { std::ranges::ref_view<std::vector<V>> r(v); eval_on(r, d, n, look, o); return true; }
		case 43: { const std::vector<V, OwnAlloc<V>> w(v.begin(), v.end()); eval_on(w, w.data(), n, look, o); return true; }
		case 44:
		{
			const auto whole = (*k3::tok3n::detail::anything_parser<V>{} % k3::tok3n::join).parse(v);
			if (n == 0) return false;
			eval_on(*whole, d, n, look, o);
			return true;
		}
		case 45: { ConvRange<V> r{ d, d + n }; eval_on(r, d, n, look, o); return true; }
		case 46: return false;
		case 47: return sized<4>(n, [&](auto N) { std::array<V, N> a{}; for (std::size_t i = 0; i != N; ++i) a[i] = v[i]; eval_on(std::move(std::as_const(a)), a.data(), N, look, o); });
		case 48: return sized<4>(n, [&](auto N) { std::span<V, N> sp(v.data(), N); eval_on(sp, d, N, look, o); });
		}
		return false;
	}
};

} // namespace vh
