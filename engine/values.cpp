// C18: random histories over result and span objects, against a model of their value semantics.
// A history is a list of operations (op,a,b,x); every operation is followed by a full check of every object.
#include <k3/tok3n.h>
#include <any>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdint>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <span>
#include <string>
#include <string_view>
#include <utility>
#include <variant>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>

namespace d = k3::tok3n::detail;
using u64 = std::uint64_t;
static u64 mix(u64 a, u64 b) { u64 z = a * 0x9e3779b97f4a7c15ull + b + 0x632be59bd9b4e019ull; z ^= z >> 30; z *= 0xbf58476d1ce4e5b9ull; z ^= z >> 27; z *= 0x94d049bb133111ebull; return z ^ (z >> 31); }
struct Rng { u64 s; Rng(u64 x) : s(mix(x, 17)) {} u64 next() { s += 0x9e3779b97f4a7c15ull; return mix(s, 1); } u64 below(u64 n) { return next() % n; } };

struct Op { int op, a, b, x; };
using History = std::vector<Op>;
struct Bad { std::string why; };
#define WANT(c, msg) do { if (!(c)) throw Bad{ std::string(msg) + "  [" #c "]" }; } while (0)

static long live = 0;
static long transfers_ok = 0, transfers_fail = 0, conversions = 0;

// ---------------------------------------------------------------- value types
struct Tracked
{
	int* p; int moved = 0;
	explicit Tracked(int v) : p(new int(v)) { ++live; }
	Tracked(const Tracked& o) : p(new int(o.p ? *o.p : -999)) { ++live; }
	Tracked(Tracked&& o) noexcept : p(o.p) { o.p = nullptr; o.moved = 1; ++live; }
	Tracked& operator=(const Tracked& o) { if (this != &o) { delete p; p = new int(o.p ? *o.p : -999); moved = 0; } return *this; }
	Tracked& operator=(Tracked&& o) noexcept { if (this != &o) { delete p; p = o.p; o.p = nullptr; o.moved = 1; moved = 0; } return *this; }
	~Tracked() { delete p; --live; }
};
struct TrackedSource // converts to Tracked differently as lvalue and rvalue
{
	int v; bool gone = false;
	explicit operator Tracked() const& { return Tracked(v); }
	explicit operator Tracked() && { gone = true; return Tracked(v); }
};
struct MoveOnly
{
	std::unique_ptr<int> p; struct L { L() { ++live; } L(L&&) { ++live; } L& operator=(L&&) { return *this; } ~L() { --live; } } l;
	explicit MoveOnly(int v) : p(new int(v)) {}
	explicit MoveOnly(std::unique_ptr<int> q) : p(std::move(q)) {}
	MoveOnly(MoveOnly&&) = default;
	MoveOnly& operator=(MoveOnly&&) = default;
};
struct CopyOnly
{
	int v;
	CopyOnly(int x) : v(x) { ++live; }
	CopyOnly(const CopyOnly& o) : v(o.v) { ++live; }
	CopyOnly& operator=(const CopyOnly& o) { v = o.v; return *this; }
	~CopyOnly() { --live; }
};
struct Greedy // constructible from anything; remembers from what
{
	int v, how;
	template <class X> requires (!std::same_as<std::remove_cvref_t<X>, Greedy>)
	explicit Greedy(X&& x) : v(0), how(2) { if constexpr (std::convertible_to<X, int>) { v = (int)x; how = 1; } }
	Greedy(const Greedy&) = default; Greedy& operator=(const Greedy&) = default;
};
struct NoDefault { int v; NoDefault() = delete; NoDefault(int x) : v(x) {} };
struct alignas(64) Aligned { int v; Aligned(int x) : v(x) {} };
struct Explicit { long v; explicit Explicit(int x) : v(x * 3L) {} explicit Explicit(const std::string& s) : v((long)s.size()) {} };

static std::string dg(int v) { return "i" + std::to_string(v); }
static std::string dg(bool v) { return v ? "b1" : "b0"; }
static std::string dg(long v) { return "l" + std::to_string(v); }
static std::string dg(short v) { return "h" + std::to_string(v); }
static std::string dg(double v) { return "d" + std::to_string(v); }
static std::string dg(const std::string& s) { return "s" + s; }
static std::string dg(std::string_view s) { return "v" + std::string(s); }
static std::string dg(const char* s) { return std::string("p") + s; }
static std::string dg(const Tracked& t) { return "T" + (t.p ? std::to_string(*t.p) : std::string("gone")); }
static std::string dg(const TrackedSource& t) { return "S" + std::to_string(t.v); }
static std::string dg(const MoveOnly& t) { return "M" + (t.p ? std::to_string(*t.p) : std::string("gone")); }
static std::string dg(const std::unique_ptr<int>& t) { return "U" + (t ? std::to_string(*t) : std::string("gone")); }
static std::string dg(const CopyOnly& t) { return "C" + std::to_string(t.v); }
static std::string dg(const Greedy& t) { return "G" + std::to_string(t.v) + "/" + std::to_string(t.how); }
static std::string dg(const NoDefault& t) { return "N" + std::to_string(t.v); }
static std::string dg(const Aligned& t) { return "A" + std::to_string(t.v) + ((std::uintptr_t)&t % 64 ? "misaligned" : ""); }
static std::string dg(const Explicit& t) { return "E" + std::to_string(t.v); }
template <class T> std::string dg(const std::optional<T>& o) { return o ? "O(" + dg(*o) + ")" : "O()"; }
template <class T> std::string dg(const std::vector<T>& o) { std::string s = "L["; for (auto& x : o) s += dg(x) + ","; return s + "]"; }
template <class... T> std::string dg(const std::variant<T...>& o) { return "V" + std::to_string(o.index()) + std::visit([](auto& x) { return dg(x); }, o); }
template <class A, class B> std::string dg(const std::pair<A, B>& o) { return "P" + dg(o.first) + "," + dg(o.second); }
static std::string dg(const std::any& a) { if (auto* p = std::any_cast<int>(&a)) return "any:" + dg(*p); if (auto* p = std::any_cast<std::string>(&a)) return "any:" + dg(*p); return "any:?"; }
template <class T, class U> std::string dg(const d::result<T, U>& r) { return r.has_value() ? "R(" + dg(*r) + ")" : "R()"; }

template <class T> struct Make;
#define MAKE(T, e) template <> struct Make<T> { static T of(int x) { return e; } };
MAKE(int, x) MAKE(bool, bool(x & 1)) MAKE(long, long(x) * 70000) MAKE(short, short(x)) MAKE(double, x / 2.0)
static std::string words(int x) { static const char* w[] = { "", "a", "hello", "a rather long string that does not fit a small buffer", "\xff" "x", "0" }; return x % 7 == 6 ? std::string("nul\0inside", 10) : w[x % 7]; }
static const std::string& word_store(int x) { static const std::string s[7] = { words(0), words(1), words(2), words(3), words(4), words(5), words(6) }; return s[x % 7]; }
MAKE(std::string, words(x)) MAKE(std::string_view, word_store(x)) MAKE(const char*, word_store(x % 6).c_str())
MAKE(Tracked, Tracked(x)) MAKE(TrackedSource, (TrackedSource{ x })) MAKE(MoveOnly, MoveOnly(x)) MAKE(std::unique_ptr<int>, std::unique_ptr<int>(new int(x))) MAKE(CopyOnly, CopyOnly(x)) MAKE(Greedy, Greedy(x)) MAKE(NoDefault, NoDefault(x)) MAKE(Aligned, Aligned(x)) MAKE(Explicit, Explicit(x))
MAKE(std::any, x % 2 ? std::any(x) : std::any(words(x)))
template <class T> struct Make<std::optional<T>> { static std::optional<T> of(int x) { if (x % 3 == 0) return std::nullopt; return Make<T>::of(x); } };
template <class T> struct Make<std::vector<T>> { static std::vector<T> of(int x) { std::vector<T> v; for (int i = 0; i < x % 5; ++i) v.push_back(Make<T>::of(x + i)); return v; } };
template <class A, class B> struct Make<std::variant<A, B>> { static std::variant<A, B> of(int x) { if (x % 2) return std::variant<A, B>(std::in_place_index<0>, Make<A>::of(x)); return std::variant<A, B>(std::in_place_index<1>, Make<B>::of(x)); } };
template <class A, class B> struct Make<std::pair<A, B>> { static std::pair<A, B> of(int x) { return { Make<A>::of(x), Make<B>::of(x + 1) }; } };

// ---------------------------------------------------------------- elements
struct Key { int k = 0; int noise = 0; Key() = default; constexpr Key(int v) : k(v), noise(0) {} friend constexpr bool operator==(const Key& a, const Key& b) { return a.k == b.k; } };
template <class U> U* store() { static U s[16]; static bool init = false; if (!init) { for (int i = 0; i < 16; ++i) s[i] = U(i + 40); init = true; } return s; }
template <> struct Make<Key> { static Key of(int x) { return Key(x); } };

template <class T, class U> struct Model { int state = 1; bool ok = false; std::string v; const U* p = nullptr; std::size_t n = 0; };

template <class T, class U> using R = d::result<T, U>;
template <class U> d::input_span<U> rem_of(int x) { return d::input_span<U>(store<U>() + x % 4, std::size_t((x / 4) % 5)); }
template <class T, class U> void set_rem(Model<T, U>& m, int x) { m.p = store<U>() + x % 4; m.n = std::size_t((x / 4) % 5); }

template <class T, class U> void check_one(R<T, U>& r, const Model<T, U>& m, const char* what, bool full)
{
	if (m.state == 0) return;
	const R<T, U>& c = r;
	std::string w = what;
	WANT(r.has_value() == m.ok, w + ": has_value");
	WANT(static_cast<bool>(r) == m.ok && static_cast<bool>(c) == m.ok && c.has_value() == m.ok, w + ": truth value");
	auto s = c.remaining();
	WANT(s.size() == m.n && s.empty() == (m.n == 0), w + ": remaining size");
	WANT(m.n == 0 || s.data() == m.p, w + ": remaining position");
	if (m.n == 0 && m.p) WANT(s.data() == m.p, w + ": remaining position (empty)");
	if constexpr (!std::is_void_v<T>)
	{
		if (m.ok)
		{
			WANT(dg(*c) == m.v, w + ": value through operator* const& is " + dg(*c) + " expected " + m.v);
			WANT(dg(*r) == m.v, w + ": value through operator*");
			WANT(dg(c.value()) == m.v && dg(r.value()) == m.v, w + ": value()");
			WANT(&*c == &c.value() && &*r == &r.value() && &*c == &*r, w + ": one value object");
			{ const auto& x = *std::move(c); WANT(dg(x) == m.v, w + ": operator* const&&"); }
			{ const auto& x = std::move(c).value(); WANT(dg(x) == m.v, w + ": value() const&&"); }
			{ auto&& x = *std::move(r); WANT(dg(x) == m.v && &x == &*c, w + ": operator* &&"); }
			{ auto&& x = std::move(r).value(); WANT(dg(x) == m.v && &x == &*c, w + ": value() &&"); }
		}
		else if (full)
		{
			int thrown = 0;
			try { (void)r.value(); } catch (...) { ++thrown; }
			try { (void)c.value(); } catch (...) { ++thrown; }
			try { (void)std::move(r).value(); } catch (...) { ++thrown; }
			try { (void)std::move(c).value(); } catch (...) { ++thrown; }
			WANT(thrown == 4, w + ": checked access to a failure throws");
		}
	}
}

template <class T, class U> R<T, U> pass(R<T, U> r) { return r; }

constexpr int SLOTS = 4, NOPS = 20;

// the source pool of a conversion
template <class T2, class U> struct Sources
{
	std::vector<std::unique_ptr<R<T2, U>>> r; std::vector<Model<T2, U>> m;
	Sources() { for (int i = 0; i < 3; ++i) { r.emplace_back(new R<T2, U>()); m.emplace_back(); } }
	void set(int a, int x)
	{
		auto& q = m[(size_t)a]; q = {};
		if (x % 5 == 0) { r[(size_t)a].reset(new R<T2, U>()); return; }
		set_rem(q, x / 5);
		if (x % 5 == 1) { r[(size_t)a].reset(new R<T2, U>(d::failure_tag, rem_of<U>(x / 5))); return; }
		q.ok = true; q.v = dg(Make<T2>::of(x)); r[(size_t)a].reset(new R<T2, U>(d::success_tag, Make<T2>::of(x), rem_of<U>(x / 5)));
	}
	void check(size_t f) { for (size_t i = 0; i < r.size(); ++i) check_one(*r[i], m[i], "source of a conversion", i == f); }
};

template <class T, class U, class... T2s> struct Machine
{
	using Res = R<T, U>; using M = Model<T, U>;
	static constexpr bool isvoid = std::is_void_v<T>;
	static constexpr bool copyable = isvoid || std::copy_constructible<std::conditional_t<isvoid, int, T>>;
	std::vector<std::unique_ptr<Res>> r; std::vector<M> m; std::tuple<Sources<T2s, U>...> src;
	Machine() { for (int i = 0; i < SLOTS; ++i) { r.emplace_back(new Res()); m.emplace_back(); } }

	void check(size_t f)
	{
		for (size_t i = 0; i < SLOTS; ++i) check_one(*r[i], m[i], "result", i == f);
		std::apply([&](auto&... s) { (s.check(f), ...); }, src);
	}
	void note(const M& s) { if (s.state) ++(s.ok ? transfers_ok : transfers_fail); }

	template <size_t I> void convert(const Op& o, bool rvalue, bool assign)
	{
		if constexpr (I < sizeof...(T2s))
		{
			if ((size_t)(o.x % (int)sizeof...(T2s)) != I) return convert<I + 1>(o, rvalue, assign);
			using T2 = std::tuple_element_t<I, std::tuple<T2s...>>;
			auto& S = std::get<I>(src); size_t b = (size_t)(o.b % 3), a = (size_t)o.a;
			auto& sm = S.m[b]; if (sm.state == 0) return;
			constexpr bool cp = std::is_constructible_v<T, const T2&>, mv = std::is_constructible_v<T, T2&&>;
			if (!cp) rvalue = true;
			M nm; nm.ok = sm.ok; nm.p = sm.p; nm.n = sm.n; ++conversions; ++(sm.ok ? transfers_ok : transfers_fail);
			if (rvalue) { if constexpr (mv) { if (sm.ok) { T2 t = dup(**S.r[b]); T e(std::move(t)); nm.v = dg(e); } } }
			else { if constexpr (cp) { if (sm.ok) { T e(*std::as_const(*S.r[b])); nm.v = dg(e); } } }
			auto go = [&](auto&& from)
			{
				if (assign) *r[a] = Res(std::forward<decltype(from)>(from));
				else r[a].reset(new Res(std::forward<decltype(from)>(from)));
			};
			if (rvalue) { if constexpr (mv) { bool was = sm.ok; go(std::move(*S.r[b])); (void)was; sm.state = 0; } }
			else { if constexpr (cp) { if (o.x / 16 % 2) go(*S.r[b]); else go(std::as_const(*S.r[b])); } } // a named source stays as it is, const or not
			m[a] = nm;
		}
	}
	template <class X> static X dup(const X& x) { if constexpr (std::copy_constructible<X>) return x; else if constexpr (std::same_as<X, std::unique_ptr<int>>) return x ? X(new int(*x)) : X(); else return X(*x.p); }

	void step(const Op& o)
	{
		size_t a = (size_t)o.a % SLOTS, b = (size_t)o.b % SLOTS; M nm;
		switch (o.op % NOPS)
		{
		case 0: r[a].reset(new Res()); m[a] = nm; break;
		case 1: r[a].reset(new Res(d::failure_tag, rem_of<U>(o.x))); set_rem(nm, o.x); m[a] = nm; break;
		case 2: case 3:
			set_rem(nm, o.x); nm.ok = true;
			if constexpr (isvoid) r[a].reset(new Res(d::success_tag, rem_of<U>(o.x)));
			else
			{
				nm.v = dg(Make<T>::of(o.x));
				if constexpr (copyable) if (o.op % NOPS == 2) { const T t = Make<T>::of(o.x); r[a].reset(new Res(d::success_tag, t, rem_of<U>(o.x))); WANT(dg(t) == nm.v, "the copied value is unchanged"); m[a] = nm; break; }
				T t = Make<T>::of(o.x); r[a].reset(new Res(d::success_tag, std::move(t), rem_of<U>(o.x)));
			}
			m[a] = nm; break;
		case 4: if constexpr (copyable) if (m[b].state) { std::unique_ptr<Res> q(o.x % 2 ? new Res(*r[b]) : new Res(std::as_const(*r[b]))); note(m[b]); M c = m[b]; r[a] = std::move(q); m[a] = c; } break;
		case 5: { if (!m[b].state) break; std::unique_ptr<Res> q(new Res(std::move(*r[b]))); note(m[b]); M c = m[b]; m[b].state = 0; r[a] = std::move(q); m[a] = c; break; }
		case 6: if constexpr (copyable) if (m[b].state) { if (o.x % 2) *r[a] = *r[b]; else *r[a] = std::as_const(*r[b]); note(m[b]); m[a] = m[b]; } break;
		case 7: if (a != b && m[b].state) { *r[a] = std::move(*r[b]); note(m[b]); m[a] = m[b]; m[b].state = 0; } break;
		case 8: if constexpr (copyable) { auto& x = *r[a]; *r[a] = x; } break;
		case 9: convert<0>({ o.op, (int)a, o.b, o.x }, false, false); break;
		case 10: convert<0>({ o.op, (int)a, o.b, o.x }, true, false); break;
		case 11: convert<0>({ o.op, (int)a, o.b, o.x }, o.x / 8 % 2, true); break;
		case 12: if constexpr (!isvoid) if (m[a].state && m[a].ok) { if (o.x % 2) **r[a] = Make<T>::of(o.x); else r[a]->value() = Make<T>::of(o.x); m[a].v = dg(Make<T>::of(o.x)); } break;
		case 13: if (a != b) { std::swap(*r[a], *r[b]); std::swap(m[a], m[b]); } break;
		case 14: if constexpr (!isvoid) if (m[a].state && m[a].ok) { T t = o.x % 2 ? *std::move(*r[a]) : std::move(*r[a]).value(); WANT(dg(t) == m[a].v, "a value moved out of a result"); m[a].state = 0; } break;
		case 15: if constexpr (copyable)
		{
			std::vector<Res> v; for (size_t i = 0; i < SLOTS; ++i) { v.push_back(*r[i]); } v.insert(v.begin(), v[b]); v.erase(v.begin() + 1); // v[0] = old b, then 1..3
			if (m[b].state) { r[a].reset(new Res(v[0])); M c = m[b]; m[a] = c; note(c); }
		} break;
		case 16: if constexpr (copyable) if (m[b].state) { std::unique_ptr<Res> q(new Res(pass<T, U>(*r[b]))); M c = m[b]; r[a] = std::move(q); m[a] = c; note(c); } break;
		case 17: std::apply([&](auto&... s) { int i = 0; ((i++ == (int)b % (int)std::max<size_t>(1, sizeof...(T2s)) ? s.set((int)(a % 3), o.x) : void()), ...); }, src); break;
		case 18: *r[a] = Res(); m[a] = nm; break;
		case 19: { R<T, U> f(d::failure_tag, rem_of<U>(o.x)); *r[a] = std::move(f); set_rem(nm, o.x); m[a] = nm; break; }
		}
		check(a);
	}
};

template <class Mach> void run_machine(const History& h)
{
	long before = live;
	{ Mach mach; for (size_t i = 0; i < SLOTS; ++i) mach.check(i); for (auto& o : h) mach.step(o); }
	WANT(live == before, "values alive after every result is gone: " + std::to_string(live - before));
}

// ---------------------------------------------------------------- spans
template <class E> struct Codes; // code -> element
template <class E> E elem(int c) { if constexpr (std::same_as<E, double>) return c == 5 ? std::numeric_limits<double>::quiet_NaN() : c == 6 ? -0.0 : c == 7 ? 0.0 : c; else if constexpr (std::same_as<E, Key>) { Key k(c); static int noise = 0; k.noise = ++noise; return k; } else return E(c); }
template <class A, class B> bool same_codes(int a, int b)
{
	if constexpr (std::same_as<A, double> || std::same_as<B, double>)
	{
		auto z = [](int c) { return c == 6 || c == 7 ? 0 : c; };
		bool na = std::same_as<A, double> && a == 5, nb = std::same_as<B, double> && b == 5; if (na || nb) return false;
		int x = std::same_as<A, double> ? z(a) : a, y = std::same_as<B, double> ? z(b) : b; return x == y;
	}
	return a == b;
}
template <class A, class B> struct SpanMachine
{
	// two stores, spans over them
	std::vector<A> sa; std::vector<B> sb; std::vector<int> ca, cb;
	struct Ma { size_t off = 0, n = 0; };
	std::vector<d::input_span<A>> xa; std::vector<Ma> ma; std::vector<d::output_span<B>> xb; std::vector<Ma> mb;
	static std::vector<int> pattern(int x)
	{
		std::vector<int> v; int per = 1 + x % 3;
		for (int i = 0; i < 24; ++i) v.push_back((x % 5 == 2 ? 0 : 1) + (i % per) + (i == 17 ? 2 : 0) + (i % 11 == 5 ? (x / 3) % 8 : 0));
		return v;
	}
	SpanMachine()
	{
		fill(4, 4);
		for (int i = 0; i < 3; ++i) { xa.emplace_back(); ma.emplace_back(); xb.emplace_back(); mb.emplace_back(); }
	}
	void fill(int x, int y)
	{
		ca = pattern(x); cb = pattern(y); sa.clear(); sb.clear(); sa.reserve(24); sb.reserve(24);
		for (int c : ca) sa.push_back(elem<A>(c)); for (int c : cb) sb.push_back(elem<B>(c));
	}
	template <class S, class E> void look(const S& s, const Ma& m, const std::vector<E>& st, const char* w)
	{
		WANT(s.size() == m.n && s.empty() == (m.n == 0), std::string(w) + ": size and emptiness");
		WANT((size_t)(s.end() - s.begin()) == m.n, std::string(w) + ": begin and end");
		if (m.n)
		{
			WANT(s.data() == st.data() + m.off, std::string(w) + ": data");
			WANT(&s.front() == st.data() + m.off && &*s.begin() == st.data() + m.off, std::string(w) + ": first element");
			size_t k = 0; for (auto& e : s) { WANT(&e == st.data() + m.off + k, std::string(w) + ": iteration"); ++k; } WANT(k == m.n, std::string(w) + ": iteration length");
		}
		for (size_t i = 0; i <= m.n; ++i)
		{
			auto f = s.first(i); WANT(f.size() == i && f.data() == s.data(), std::string(w) + ": first(n)");
			auto t = s.subspan(i); WANT(t.size() == m.n - i && t.data() == s.data() + i, std::string(w) + ": subspan(n)");
			size_t l = (m.n - i) / 2; auto u = s.subspan(i, l); WANT(u.size() == l && u.data() == s.data() + i, std::string(w) + ": subspan(n, l)");
		}
	}
	template <class E, class F> bool model_eq(const std::vector<int>& c1, const Ma& x, const std::vector<int>& c2, const Ma& y)
	{
		if (x.n != y.n) return false;
		for (size_t i = 0; i < x.n; ++i) if (!same_codes<E, F>(c1[x.off + i], c2[y.off + i])) return false;
		return true;
	}
	template <class L, class Rr> void eq(const L& l, const Rr& r, bool want, const char* w)
	{
		WANT((l == r) == want, std::string(w) + ": ==");
		WANT((l != r) == !want, std::string(w) + ": !=");
		WANT((r == l) == want, std::string(w) + ": == reversed");
		WANT((r != l) == !want, std::string(w) + ": != reversed");
	}
	void check(const Op& o)
	{
		size_t i = (size_t)(o.a + o.x) % 3, j = (size_t)(o.b + o.op) % 3;
		look(xa[i], ma[i], sa, "input span"); look(xb[j], mb[j], sb, "output span");
		{
			eq(xa[i], xa[j], model_eq<A, A>(ca, ma[i], ca, ma[j]), "spans of one type");
			eq(xa[i], xb[j], model_eq<A, B>(ca, ma[i], cb, mb[j]), "spans of two types");
			eq(xb[i], xb[j], model_eq<B, B>(cb, mb[i], cb, mb[j]), "spans of the other type");
			std::equal_to<d::span<A>> f; const d::span<A>& q = xa[i]; const d::span<A>& q2 = xa[j]; WANT(f(q, q2) == (model_eq<A, A>(ca, ma[i], ca, ma[j])), "std::equal_to");
			const d::span<B>& q3 = xb[j]; WANT(f(q, q3) == (model_eq<A, B>(ca, ma[i], cb, mb[j])), "std::equal_to of two types");
		}
		ranges<A>(xa, ma, sa, ca, i, j); ranges<B>(xb, mb, sb, cb, j, i);
	}
	template <class E, class V> void ranges(V& xs, std::vector<Ma>& ms, std::vector<E>& st, std::vector<int>& cs, size_t i, size_t j)
	{
		{
			std::vector<E> v; for (size_t k = 0; k < ms[j].n; ++k) v.push_back(elem<E>(cs[ms[j].off + k])); // other objects with the same elements
			bool want = model_eq<E, E>(cs, ms[i], cs, ms[j]);
			eq(xs[i], v, want, "span and vector");
			eq(xs[i], std::as_const(v), want, "span and const vector");
			eq(xs[i], std::span<const E>(v), want, "span and std::span<const>");
			eq(xs[i], std::span<E>(v), want, "span and std::span");
			if constexpr (d::character<E>)
			{
				eq(xs[i], std::basic_string<E>(v.begin(), v.end()), want, "span and string");
				eq(xs[i], std::basic_string_view<E>(v.data(), v.size()), want, "span and string_view");
				std::basic_string<E> z(v.begin(), v.end()); if (z.find(E(0)) == z.npos) { eq(xs[i], z.c_str(), want, "span and null-terminated string"); E* zp = z.data(); eq(xs[i], zp, want, "span and null-terminated mutable string"); }
				WANT((std::basic_string_view<E>(xs[i]) == std::basic_string_view<E>(v.data(), v.size())) == want, "conversion to a string view");
				if (v.size() == 3) { E lit[4] = { v[0], v[1], v[2], E(0) }; const E (&cl)[4] = lit; eq(xs[i], cl, want, "span and literal"); eq(xs[i], lit, want, "span and mutable character array"); }
				if (v.size() == 1) { E lit[2] = { v[0], E(0) }; const E (&cl)[2] = lit; eq(xs[i], cl, want, "span and literal of one"); }
				if (v.size() == 0) { E lit[1] = { E(0) }; const E (&cl)[1] = lit; eq(xs[i], cl, want, "span and empty literal"); }
			}
			else
			{
				if (v.size() == 3) { const E lit[3] = { v[0], v[1], v[2] }; eq(xs[i], lit, want, "span and array"); E mut[3] = { v[0], v[1], v[2] }; eq(xs[i], mut, want, "span and mutable array"); }
			}
			if (v.size() == 2) { std::array<E, 2> ar{ v[0], v[1] }; eq(xs[i], ar, want, "span and std::array"); }
		}
	}
	template <class S, class E> S construct(std::vector<E>& st, const Ma& m, int how)
	{
		E* p = st.data() + m.off;
		switch (how % 5)
		{
		case 0: return S(p, m.n);
		case 1: return S(std::span<const E>(p, m.n));
		case 2: return S(std::span<E>(p, m.n));
		case 3: if constexpr (d::character<E>) { return S(std::basic_string_view<E>(p, m.n)); } return S(p, p + m.n);
		default: return S(p, p + m.n);
		}
	}
	void step(const Op& o)
	{
		size_t a = (size_t)o.a % 3, b = (size_t)o.b % 3; Ma m{ (size_t)(o.x % 20), 0 }; m.n = std::min<size_t>((size_t)(o.x / 20 % 6), 24 - m.off);
		++(m.n ? transfers_ok : transfers_fail);
		switch (o.op % 12)
		{
		case 0: case 1: case 2: ma[a] = m; xa[a] = construct<d::input_span<A>>(sa, m, o.b); break;
		case 3: case 4: case 5: mb[a] = m; xb[a] = construct<d::output_span<B>>(sb, m, o.b); break;
		case 6: xa[a] = xa[b]; ma[a] = ma[b]; break;
		case 7: { size_t k = ma[b].n ? (size_t)o.x % (ma[b].n + 1) : 0; Ma n{ ma[b].off + k, ma[b].n - k }; xa[a] = d::input_span<A>(xa[b].subspan(k)); ma[a] = n; break; }
		case 8: { size_t k = ma[b].n ? (size_t)o.x % (ma[b].n + 1) : 0; Ma n{ ma[b].off, k }; xa[a] = d::input_span<A>(xa[b].first(k)); ma[a] = n; break; }
		case 9: { size_t k = mb[b].n ? (size_t)o.x % (mb[b].n + 1) : 0; Ma n{ mb[b].off + k, (mb[b].n - k) / 2 }; xb[a] = d::output_span<B>(xb[b].subspan(k, n.n)); mb[a] = n; break; }
		case 10: { fill(o.x % 24, o.x / 24 % 24); for (size_t i = 0; i < 3; ++i) { xa[i] = construct<d::input_span<A>>(sa, ma[i], o.b); xb[i] = construct<d::output_span<B>>(sb, mb[i], o.b); } break; }
		case 11: { // the same elements at another place of the same store
			mb[a] = ma[b]; if (mb[a].off + mb[a].n <= 24) xb[a] = construct<d::output_span<B>>(sb, mb[a], o.x); break; }
		}
		check(o);
	}
};
template <class Mach> void run_span(const History& h) { Mach m; for (int k = 0; k < 9; ++k) m.check({ 0, k / 3, k % 3, 0 }); for (auto& o : h) m.step(o); }

// ---------------------------------------------------------------- the machines
struct Entry { const char* name; void (*run)(const History&); };
template <class U, class T, class... T2s> using MC = Machine<T, U, T2s...>;
#ifndef PART
#define PART -1
#endif
static const Entry machines[] = {
#if PART == 0 || PART == -1
	{ "result<int> from short, bool, double; elements char", run_machine<MC<char, int, short, bool, double>> },
	{ "result<bool> from int, double; char", run_machine<MC<char, bool, int, double>> },
	{ "result<MoveOnly> from int, std::unique_ptr; wchar_t", run_machine<MC<wchar_t, MoveOnly, int, std::unique_ptr<int>>> },
	{ "result<Aligned> from int; char", run_machine<MC<char, Aligned, int>> },
	{ "result<std::pair<std::string, Tracked>>; char", run_machine<MC<char, std::pair<std::string, Tracked>>> },
	{ "spans of char and int", run_span<SpanMachine<char, int>> },
	{ "spans of Key and int", run_span<SpanMachine<Key, int>> },
#endif
#if PART == 1 || PART == -1
	{ "result<std::string> from std::string_view, const char*; char", run_machine<MC<char, std::string, std::string_view, const char*>> },
	{ "result<std::variant<int, std::string>> from int, std::string; char", run_machine<MC<char, std::variant<int, std::string>, int, std::string>> },
	{ "result<CopyOnly> from int, short; char", run_machine<MC<char, CopyOnly, int, short>> },
	{ "result<Explicit> from int, std::string; char32_t", run_machine<MC<char32_t, Explicit, int, std::string>> },
	{ "result<std::any> from int, std::string; char", run_machine<MC<char, std::any, int, std::string>> },
	{ "spans of char and char", run_span<SpanMachine<char, char>> },
	{ "spans of double and int", run_span<SpanMachine<double, int>> },
#endif
#if PART == 2 || PART == -1
	{ "result<std::optional<int>> from int, std::optional<short>; char", run_machine<MC<char, std::optional<int>, int, std::optional<short>>> },
	{ "result<std::variant<std::optional<int>, bool>> from std::optional<int>; char", run_machine<MC<char, std::variant<std::optional<int>, bool>, std::optional<int>>> },
	{ "result<Greedy> from int, std::string, double; char", run_machine<MC<char, Greedy, int, std::string, double>> },
	{ "result<std::vector<std::string>>; char", run_machine<MC<char, std::vector<std::string>>> },
	{ "result<void>; char", run_machine<MC<char, void>> },
	{ "spans of wchar_t and char32_t", run_span<SpanMachine<wchar_t, char32_t>> },
	{ "spans of unsigned char and char16_t", run_span<SpanMachine<unsigned char, char16_t>> },
#endif
#if PART == 3 || PART == -1
	{ "result<std::optional<std::string>> from std::string, std::string_view; int", run_machine<MC<int, std::optional<std::string>, std::string, std::string_view>> },
	{ "result<Tracked> from int, TrackedSource; char", run_machine<MC<char, Tracked, int, TrackedSource>> },
	{ "result<NoDefault> from int; Key", run_machine<MC<Key, NoDefault, int>> },
	{ "result<std::vector<Tracked>>; int", run_machine<MC<int, std::vector<Tracked>>> },
	{ "result<void>; Key", run_machine<MC<Key, void>> },
	{ "spans of int and long", run_span<SpanMachine<int, long>> },
	{ "spans of char8_t and double", run_span<SpanMachine<char8_t, double>> },
#endif
};
static const int NM = sizeof machines / sizeof *machines;

struct Shared { int machine; size_t n; Op ops[512]; char why[1000]; u64 histories, nontrivial, steps; int failed; u64 conv; };
static Shared* sh;
static History make_history(u64 seed, size_t maxlen)
{
	Rng r(seed); History h; size_t n = 1 + r.below(maxlen);
	int favour = (int)r.below(NOPS); bool burst = r.below(3) == 0;
	for (size_t i = 0; i < n; ++i) h.push_back({ burst && r.below(2) ? favour : (int)r.below(NOPS), (int)r.below(4), (int)r.below(12), (int)r.below(480) });
	return h;
}
static std::string show(const History& h) { std::string s; for (auto& o : h) s += (s.empty() ? "" : " ") + std::to_string(o.op) + "," + std::to_string(o.a) + "," + std::to_string(o.b) + "," + std::to_string(o.x); return s; }
// 0 ok, 1 failed; runs in a child
static int trial(int mi, const History& h, std::string* why)
{
	std::fflush(nullptr); sh->why[0] = 0;
	pid_t c = fork();
	if (c == 0) { try { machines[mi].run(h); } catch (Bad& b) { std::snprintf(sh->why, sizeof sh->why, "%s", b.why.c_str()); ::_exit(1); } catch (std::exception& e) { std::snprintf(sh->why, sizeof sh->why, "exception %s", e.what()); ::_exit(1); } ::_exit(0); }
	int st = 0; waitpid(c, &st, 0);
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
	if (why) *why = sh->why[0] ? sh->why : "the process ended: signal or sanitizer report";
	return 1;
}
int main(int argc, char** argv)
{
	u64 seed = 1; size_t count = 2000, maxlen = 40; int rmach = -1; History rh; bool isreplay = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i];
		if (a == "--seed") seed = std::strtoull(argv[++i], nullptr, 0);
		else if (a == "--histories") count = std::strtoull(argv[++i], nullptr, 0);
		else if (a == "--len") maxlen = std::strtoull(argv[++i], nullptr, 0);
		else if (a == "--replay") { isreplay = true; rmach = std::atoi(argv[++i]); const char* q = argv[++i]; Op o; int n; while (std::sscanf(q, "%d,%d,%d,%d%n", &o.op, &o.a, &o.b, &o.x, &n) == 4) { rh.push_back(o); q += n; while (*q == ' ') ++q; } }
	}
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	rlimit rs{ 0, 0 }; setrlimit(RLIMIT_CORE, &rs);
	if (isreplay) { std::string why; int k = trial(rmach, rh, &why); std::printf("%s: %s\n", machines[rmach].name, k ? why.c_str() : "no discrepancy"); return k; }
	int first = 0, bad = 0;
	for (int mi = first; mi < NM; ++mi)
	{
		std::fflush(nullptr); sh->failed = 0;
		pid_t c = fork();
		if (c == 0)
		{
			for (size_t k = 0; k < count; ++k)
			{
				History h = make_history(mix(mix(seed, (u64)mi), k), maxlen);
				sh->machine = mi; sh->n = h.size(); std::memcpy(sh->ops, h.data(), h.size() * sizeof(Op));
				transfers_ok = transfers_fail = conversions = 0;
				try { machines[mi].run(h); } catch (...) { sh->failed = 1; ::_exit(1); }
				++sh->histories; sh->steps += h.size(); sh->conv += (u64)conversions;
				if (transfers_ok && transfers_fail) ++sh->nontrivial;
			}
			::_exit(0);
		}
		int st = 0; waitpid(c, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
		History h(sh->ops, sh->ops + sh->n); std::string why;
		if (!trial(mi, h, &why)) { std::printf("NOTE %s: a failure did not come back alone\n", machines[mi].name); continue; }
		for (bool again = true; again;)
		{
			again = false;
			for (size_t w = std::max<size_t>(1, h.size() / 2); w; w /= 2)
				for (size_t i = 0; i + w <= h.size();)
				{
					History t = h; t.erase(t.begin() + (long)i, t.begin() + (long)(i + w));
					if (trial(mi, t, nullptr)) { h = t; again = true; } else ++i;
				}
			for (auto& o : h) for (int* f : { &o.x, &o.b, &o.a }) for (int v : { 0, 1, *f / 2 }) if (v < *f) { int old = *f; *f = v; if (trial(mi, h, nullptr)) { again = true; break; } *f = old; }
		}
		trial(mi, h, &why);
		std::printf("FAIL\t%d\t%s\t%s\t%s\n", mi, machines[mi].name, show(h).c_str(), why.c_str());
		if (++bad >= 3) break;
	}
	std::printf("STAT\t%llu\t%llu\t%llu\t%llu\n", (unsigned long long)sh->histories, (unsigned long long)sh->nontrivial, (unsigned long long)sh->steps, (unsigned long long)sh->conv);
	for (int i = 0; i < 6; ++i) { int mi = (int)(mix(seed, (u64)i) % NM); History h = make_history(mix(mix(seed, (u64)mi), (u64)i), 6); std::printf("SAMPLE\t%s: %s\n", machines[mi].name, show(h).c_str()); }
	return bad ? 1 : 0;
}
