// Reference model (a direct PEG interpreter over the grammar's S-expression), input generator,
// comparison, fault handling and shrinking.  Knows nothing of tok3n.
#include "shared.h"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <csignal>
#include <map>
#include <memory>
#include <set>
#include <stdexcept>
#include <thread>
#include <unordered_set>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace vh {

thread_local Ctx ctx;
thread_local i64 live = 0;

using Codes = std::vector<i64>;

// ------------------------------------------------------------------ S-expressions
struct Sx { bool atom = false; std::string s; std::vector<Sx> k; };
static Sx parse_sx(const char*& p)
{
	while (*p == ' ' || *p == '\n') ++p;
	Sx x;
	if (*p == '(')
	{
		++p;
		for (;;)
		{
			while (*p == ' ' || *p == '\n') ++p;
			if (*p == ')') { ++p; return x; }
			if (!*p) { std::fprintf(stderr, "bad s-expression\n"); std::exit(3); }
			x.k.push_back(parse_sx(p));
		}
	}
	x.atom = true;
	while (*p && *p != ' ' && *p != ')' && *p != '(' && *p != '\n') x.s += *p++;
	return x;
}
static i64 num(const Sx& x) { return std::strtoll(x.s.c_str(), nullptr, 10); }

// ------------------------------------------------------------------ values
struct Val
{
	char k = 'v';
	i64 a = 0, b = 0;
	u64 d = 0;
	std::string tag;
	std::vector<Val> c;
	Codes str;
};
static Val span(i64 off, i64 len, char k = 'S') { Val v; v.k = k; v.a = off; v.b = len; return v; }
static Val user(const std::string& tag, i64 id, u64 d) { Val v; v.k = 'u'; v.tag = tag; v.a = id; v.d = d; return v; }
static Val integer(i64 x) { Val v; v.k = 'i'; v.a = x; return v; }

static thread_local size_t slack = 0; // text of empty pieces in the calls so far
static void canon(std::string& s, const Val& v)
{
	auto list = [&] { bool f = true; for (auto& e : v.c) { if (!f) s += ','; f = false; canon(s, e); } };
	char buf[40];
	switch (v.k)
	{
	case 'v': s += 'v'; break;
	case 'S': case 'W':
		s += v.k;
		// an empty piece is where it was matched, or (-2) anywhere in the input, or (-1) was not made from the input
		if (v.b == 0)
		{
			const size_t before = s.size();
			if (v.a < 0) s += v.a == -1 ? "~null" : "~";
			else { s += std::to_string(v.a); s += ":0"; }
			slack += s.size() - before;
		}
		else { std::snprintf(buf, sizeof buf, "%lld:%lld", (long long)v.a, (long long)v.b); s += buf; }
		break;
	case 'O': if (v.c.empty()) s += "O-"; else { s += "O("; canon(s, v.c[0]); s += ')'; } break;
	case 'L': s += "L["; list(); s += ']'; break;
	case 'A': s += "A["; list(); s += ']'; break;
	case 'T': s += "T("; list(); s += ')'; break;
	case 'P': s += "P("; list(); s += ')'; break;
	case 'V': s += 'V'; s += std::to_string(v.a); s += '('; canon(s, v.c[0]); s += ')'; break;
	case 'u': s += v.tag; s += std::to_string(v.a); std::snprintf(buf, sizeof buf, ":%llx", (unsigned long long)v.d); s += buf; break;
	case 'i': case 'e': s += v.k; s += std::to_string(v.a); break;
	case 'b': s += 'b'; s += std::to_string(v.a); s += '/'; s += std::to_string(v.b); break;
	case 's': s += "s\""; for (i64 c : v.str) { s += std::to_string(c); s += ' '; } s += '"'; break;
	default: std::abort();
	}
}
static std::string canon(const Val& v) { std::string s; canon(s, v); return s; }
static u64 dig(const Val& v, const Codes& in)
{
	switch (v.k)
	{
	case 'v': return 2;
	case 'S': case 'W': { u64 h = mix(T_SPAN, (u64)v.b); for (i64 i = 0; i < v.b; ++i) h = mix(h, (u64)in[(size_t)(v.a + i)]); return h; }
	case 'O': return v.c.empty() ? mix(T_OPT, 0) : mix(mix(T_OPT, 1), dig(v.c[0], in));
	case 'L': case 'A': { u64 h = mix(v.k == 'L' ? T_VEC : T_ARR, v.c.size()); for (auto& e : v.c) h = mix(h, dig(e, in)); return h; }
	case 'T': { u64 h = mix(T_TUP, v.c.size()); for (auto& e : v.c) h = mix(h, dig(e, in)); return h; }
	case 'P': return mix(mix(T_PAIR, dig(v.c[0], in)), dig(v.c[1], in));
	case 'V': return mix(mix(T_VAR, (u64)v.a), dig(v.c[0], in));
	case 'u': return mix(mix(T_OBJ, (u64)v.a), v.d);
	case 'i': case 'e': return mix(T_INT, (u64)v.a);
	case 'b': return mix(mix(T_INT, (u64)v.a), (u64)v.b);
	case 's': { u64 h = mix(T_STR, v.str.size()); for (i64 c : v.str) h = mix(h, (u64)c); return h; }
	}
	std::abort();
}
static Val default_of(const Sx& t)
{
	Val v;
	if (t.atom)
	{
		if (t.s == "v") return v;
		if (t.s == "S") return span(-1, 0);
		if (t.s == "sv") return span(-1, 0, 'W');
		if (t.s == "str") { v.k = 's'; return v; }
		if (t.s == "en") { v.k = 'e'; return v; }
		if (t.s == "big") { v.k = 'b'; return v; }
		return integer(0);
	}
	const std::string& h = t.k[0].s;
	if (h == "opt") { v.k = 'O'; return v; }
	if (h == "vec") { v.k = 'L'; return v; }
	if (h == "arr") { v.k = 'A'; for (i64 i = 0; i < num(t.k[1]); ++i) v.c.push_back(default_of(t.k[2])); return v; }
	if (h == "tup") { v.k = 'T'; for (size_t i = 1; i < t.k.size(); ++i) v.c.push_back(default_of(t.k[i])); return v; }
	if (h == "pair") { v.k = 'P'; v.c = { default_of(t.k[1]), default_of(t.k[2]) }; return v; }
	if (h == "var") { v.k = 'V'; v.c = { default_of(t.k[1]) }; return v; }
	return user(h, num(t.k[1]), 0);
}

// ------------------------------------------------------------------ grammar
enum Op { ANY, NONE, ALL, ANYTHING, EPS, SEQ, CHO, MAYBE, PLUS, STAR, EXACT, DEL, IGN, COMP, JOIN, NAME, MAP, FILT, CUST };
static const std::map<std::string, Op> ops = { {"any",ANY},{"none",NONE},{"all",ALL},{"anything",ANYTHING},{"eps",EPS},{"seq",SEQ},{"cho",CHO},
	{"maybe",MAYBE},{"plus",PLUS},{"star",STAR},{"exact",EXACT},{"del",DEL},{"ign",IGN},{"comp",COMP},{"join",JOIN},{"name",NAME},{"map",MAP},{"filt",FILT},{"cust",CUST} };
struct Node
{
	Op op; Codes nums; std::vector<Node> k; Val deflt; Sx fn; int minh = 1 << 20;
	std::unordered_set<i64> set;
};
static Node build(const Sx& x)
{
	Node n;
	auto it = ops.find(x.k[0].s);
	if (it == ops.end()) { std::fprintf(stderr, "unknown op %s\n", x.k[0].s.c_str()); std::exit(3); }
	n.op = it->second;
	size_t i = 1;
	switch (n.op)
	{
	case ANY: case NONE: case ALL: for (; i < x.k.size(); ++i) n.nums.push_back(num(x.k[i])); n.set.insert(n.nums.begin(), n.nums.end()); break;
	case CHO: n.deflt = default_of(x.k[1]); for (auto& s : x.k[2].k) n.nums.push_back(num(s)); i = 3; break;
	case MAYBE: case PLUS: case STAR: n.nums = { num(x.k[1]) }; i = 2; break;
	case EXACT: case DEL: case FILT: n.nums = { num(x.k[1]), num(x.k[2]) }; i = 3; break;
	case MAP: n.fn = x.k[1]; if (n.fn.k[0].s == "dflt") n.deflt = default_of(n.fn.k[1]); i = 2; break;
	case CUST: n.nums = { num(x.k[1]) }; i = 2; break;
	default: break;
	}
	for (; i < x.k.size(); ++i) n.k.push_back(build(x.k[i]));
	return n;
}
struct Rule { Sx conv; Node body; int minh = 1 << 20; };
static std::map<i64, Rule> rules;
static int min_height(Node& n)
{
	int h = 0;
	switch (n.op)
	{
	case CHO: h = 1 << 20; for (auto& k : n.k) h = std::min(h, min_height(k)); break;
	case MAYBE: case STAR: min_height(n.k[0]); h = 0; break;
	case CUST: h = rules[n.nums[0]].minh; break;
	case DEL: h = min_height(n.k[0]); min_height(n.k[1]); break;
	default: for (auto& k : n.k) h = std::max(h, min_height(k));
	}
	return n.minh = std::min(1 << 20, h + 1);
}

// ------------------------------------------------------------------ interpreter
enum Ev : u64 {
	E_OK = 1, E_FAIL = 2, E_CONSUMED = 4, E_BACKTRACK = 8, E_ALT = 16, E_REP2 = 32, E_JOIN2 = 64, E_GAP = 128, E_DEL2 = 256, E_TRAIL = 512,
	E_PRED_T = 1024, E_PRED_F = 2048, E_CALL = 4096, E_CUST = 8192, E_REC = 16384, E_IGN = 32768, E_LEFT = 65536, E_NAME = 1 << 17,
	E_VOIDALT = 1 << 18, E_EMPTYJOIN = 1 << 19, E_CONV = 1 << 20, E_DEEP = 1 << 21, E_LONG = 1 << 22, E_USER = 1 << 23, E_ALTVAR = 1 << 24, E_ABYSS = 1 << 25 };

struct OutOfFuel {};
struct Res { bool ok; size_t end; Val v; };
struct Model
{
	const Codes& in;
	bool want_trace = false;
	std::string trace;
	i64 calls = 0, throw_at = 0;
	u64 ev = 0;
	i64 fuel = 0;
	int depth = 0, rec = 0;
	explicit Model(const Codes& c) : in(c) { fuel = 200000 + 60 * (i64)c.size(); }

	void called(const char* kind, i64 id, const std::vector<const Val*>& as)
	{
		++calls;
		if (want_trace && trace.size() - slack < 200000)
		{
			trace += kind; trace += std::to_string(id); trace += '(';
			bool f = true;
			for (auto* a : as) { if (!f) trace += ','; f = false; canon(trace, *a); }
			trace += ");";
		}
		ev |= E_CALL;
		if (throw_at && calls == throw_at) throw Injected{ calls };
	}
	u64 digest_args(u64 salt, u64 k, const std::vector<const Val*>& as)
	{
		u64 h = mix(mix(salt, k), as.size());
		for (auto* a : as) h = mix(h, dig(*a, in));
		return h;
	}
	std::vector<const Val*> args(const Val& v, bool apply)
	{
		std::vector<const Val*> r;
		if (v.k == 'v') return r;
		if (apply) { if (v.k != 'T' && v.k != 'P' && v.k != 'A') std::abort(); for (auto& e : v.c) r.push_back(&e); }
		else r.push_back(&v);
		return r;
	}
	Val invoke(const Node& n, Val v)
	{
		const Sx& f = n.fn; const std::string& h = f.k[0].s;
		auto K = [&](size_t i) { return num(f.k[i]); };
		if (h == "dig")
		{
			auto as = args(v, K(3) != 0);
			u64 d = digest_args(T_FN, (u64)K(2), as);
			called("f", K(2), as);
			const std::string& tag = f.k[1].s;
			if (tag == "int") return integer((i64)(d % 1000));
			if (tag == "u64") return integer((i64)d);
			ev |= E_USER;
			return user(tag, f.k.size() > 4 ? K(4) : 0, d);
		}
		if (h == "into")
		{
			auto as = args(v, K(2) != 0);
			ev |= E_USER;
			if (as.empty()) return user("in", K(1), 0);
			u64 d = digest_args(T_INTO, (u64)K(1), as);
			called("in", K(1), as);
			return user("in", K(1), d);
		}
		if (h == "sv") { if (v.k == 'S') v.k = 'W'; return v; }
		if (h == "str") { Val r; r.k = 's'; if (v.k == 's') return v; for (i64 i = 0; i < v.b; ++i) r.str.push_back(in[(size_t)(v.a + i)]); return r; }
		if (h == "id") { called("f", K(1), { &v }); return v; }
		if (h == "void") { auto as = args(v, K(2) != 0); called("f", K(1), as); return Val{}; }
		if (h == "dropf") { called("f", K(1), { &v }); if (v.b) { ++v.a; --v.b; } return v; }
		if (h == "dropl") { called("f", K(1), { &v }); if (v.b) --v.b; return v; }
		if (h == "empt") { called("f", K(1), { &v }); v.b = 0; return v; }
		if (h == "dup") { called("f", K(1), { &v }); Val t; t.k = 'T'; t.c = { v, v }; return t; }
		if (h == "halves") { called("f", K(1), { &v }); Val t; t.k = 'A'; t.c = { span(v.a, v.b / 2), span(v.a + v.b / 2, v.b - v.b / 2) }; return t; }
		if (h == "chips") { called("f", K(1), { &v }); Val t; t.k = 'L'; for (i64 i = 0; i < v.b; ++i) t.c.push_back(span(v.a + i, 1)); return t; }
		if (h == "overlap") { called("f", K(1), { &v }); Val t; t.k = 'T'; t.c = { v, v.b ? span(v.a + 1, v.b - 1) : v }; return t; }
		if (h == "swap2" || h == "rev") { called("f", K(1), { &v }); std::reverse(v.c.begin(), v.c.end()); return v; }
		if (h == "len") { called("f", K(1), { &v }); return integer(v.b); }
		if (h == "get") { called("g", K(1), { &v }); return integer((i64)v.d); }
		if (h == "free") { called("f", K(1), { &v }); return integer(v.a * 3 + K(1)); }
		if (h == "const")
		{
			const Sx& c = f.k[1];
			Val r; r.k = c.k[0].s[0]; r.a = num(c.k[1]); if (c.k.size() > 2) r.b = num(c.k[2]);
			return r;
		}
		if (h == "dflt") return n.deflt;
		std::fprintf(stderr, "unknown fn %s\n", h.c_str()); std::exit(3);
	}
	Val convert(const Sx& c, Val v)
	{
		const std::string& h = c.k[0].s;
		if (h == "same") return v;
		ev |= E_CONV;
		if (h == "sv") { v.k = 'W'; return v; }
		if (h == "str") { Val r; r.k = 's'; for (i64 i = 0; i < v.b; ++i) r.str.push_back(in[(size_t)(v.a + i)]); return r; }
		if (h == "opt") { Val r; r.k = 'O'; r.c.push_back(std::move(v)); return r; }
		if (h == "optsv") { Val r; r.k = 'O'; v.k = 'W'; r.c.push_back(std::move(v)); return r; }
		if (h == "var") { Val r; r.k = 'V'; r.a = num(c.k[1]); r.c.push_back(std::move(v)); return r; }
		if (h == "bool") return integer(v.a != 0);
		if (h == "long") return v;
		if (h == "in") { std::vector<const Val*> as{ &v }; u64 d = digest_args(T_INTO, (u64)num(c.k[1]), as); called("in", num(c.k[1]), as); return user("in", num(c.k[1]), d); }
		std::fprintf(stderr, "unknown conv %s\n", h.c_str()); std::exit(3);
	}
	// pieces of a joinable value, in order
	bool join_walk(const Val& v, i64& start, i64& stop, int& pieces)
	{
		if (v.k == 'S')
		{
			if (v.b == 0) return true;
			++pieces;
			if (start < 0) { start = v.a; stop = v.a + v.b; return true; }
			if (v.a != stop) return false;
			stop += v.b;
			return true;
		}
		for (auto& e : v.c) if (!join_walk(e, start, stop, pieces)) return false;
		return true;
	}
	Res run(const Node& n, size_t pos, bool look)
	{
		if (--fuel < 0 || depth > 200000) throw OutOfFuel{};
		struct D { int& d; D(int& x) : d(x) { ++d; } ~D() { --d; } } guard(depth);
		if (depth > 40) ev |= E_DEEP;
		const Res fail{ false, pos, {} };
		switch (n.op)
		{
		case ANY: return pos < in.size() && n.set.count(in[pos]) ? Res{ true, pos + 1, span((i64)pos, 1) } : fail;
		case NONE: return pos < in.size() && !n.set.count(in[pos]) ? Res{ true, pos + 1, span((i64)pos, 1) } : fail;
		case ANYTHING: return pos < in.size() ? Res{ true, pos + 1, span((i64)pos, 1) } : fail;
		case ALL:
			if (in.size() - pos < n.nums.size() || !std::equal(n.nums.begin(), n.nums.end(), in.begin() + (long)pos)) return fail;
			return { true, pos + n.nums.size(), span((i64)pos, (i64)n.nums.size()) };
		case EPS: return { true, pos, {} };
		case SEQ:
		{
			size_t p = pos; std::vector<Val> vs;
			for (auto& k : n.k)
			{
				Res r = run(k, p, look);
				if (!r.ok) { if (p > pos) ev |= E_BACKTRACK; return fail; }
				p = r.end;
				if (r.v.k != 'v') vs.push_back(std::move(r.v));
			}
			Val v;
			if (!look && vs.size() == 1) v = std::move(vs[0]);
			else if (!look && vs.size() > 1) { v.k = 'T'; v.c = std::move(vs); }
			return { true, p, std::move(v) };
		}
		case CHO:
			for (size_t i = 0; i < n.k.size(); ++i)
			{
				Res r = run(n.k[i], pos, look);
				if (!r.ok) continue;
				if (i) ev |= E_ALT;
				if (look) return { true, r.end, {} };
				i64 slot = n.nums[i];
				if (slot == -1) { ev |= E_VOIDALT; return { true, r.end, n.deflt }; }
				if (slot == -2) return r;
				if (i) ev |= E_ALTVAR;
				Val v; v.k = 'V'; v.a = slot; v.c.push_back(std::move(r.v));
				return { true, r.end, std::move(v) };
			}
			return fail;
		case MAYBE:
		{
			Res r = run(n.k[0], pos, look);
			Val v;
			if (!look && !n.nums[0]) { v.k = 'O'; if (r.ok) v.c.push_back(std::move(r.v)); }
			return { true, r.ok ? r.end : pos, std::move(v) };
		}
		case PLUS: case STAR: case EXACT:
		{
			size_t p = pos; i64 count = 0; Val v;
			bool isvoid = n.op == EXACT ? n.nums[1] : n.nums[0];
			i64 want = n.op == EXACT ? n.nums[0] : -1;
			if (!look && !isvoid) v.k = n.op == EXACT ? 'A' : 'L';
			while (count != want)
			{
				Res r = run(n.k[0], p, look);
				if (!r.ok) break;
				p = r.end; ++count;
				if (!look && !isvoid) v.c.push_back(std::move(r.v));
			}
			if (count >= 2) ev |= E_REP2;
			if (count >= 20) ev |= E_LONG;
			if (n.op == PLUS && count == 0) return fail;
			if (n.op == EXACT && count != want) { if (p > pos) ev |= E_BACKTRACK; return fail; }
			return { true, p, std::move(v) };
		}
		case DEL:
		{
			bool pv = n.nums[0], dv = n.nums[1];
			Res r = run(n.k[0], pos, look);
			if (!r.ok) return fail;
			Val ps, ds; ps.k = ds.k = 'L';
			size_t p = r.end; i64 count = 1;
			ps.c.push_back(std::move(r.v));
			for (;;)
			{
				Res d = run(n.k[1], p, look);
				if (!d.ok) break;
				Res e = run(n.k[0], d.end, look);
				if (!e.ok) { ev |= E_TRAIL; break; }
				ds.c.push_back(std::move(d.v)); ps.c.push_back(std::move(e.v));
				p = e.end; ++count;
			}
			if (count >= 2) ev |= E_DEL2;
			if (count >= 20) ev |= E_LONG;
			Val v;
			if (look || (pv && dv)) {}
			else if (pv) v = std::move(ds);
			else if (dv) v = std::move(ps);
			else { v.k = 'P'; v.c.push_back(std::move(ps)); v.c.push_back(std::move(ds)); }
			return { true, p, std::move(v) };
		}
		case IGN: { Res r = run(n.k[0], pos, true); if (r.ok && r.end > pos) ev |= E_IGN; return { r.ok, r.ok ? r.end : pos, {} }; }
		case COMP: { Res r = run(n.k[0], pos, look); if (r.ok && r.end != in.size()) { ev |= E_LEFT; return fail; } return r.ok ? std::move(r) : fail; }
		case JOIN:
		{
			Res r = run(n.k[0], pos, look);
			if (look) return r;
			if (!r.ok) return fail;
			i64 a = -1, b = -1; int pieces = 0;
			if (!join_walk(r.v, a, b, pieces)) { ev |= E_GAP; return fail; }
			if (pieces >= 2) ev |= E_JOIN2;
			if (pieces == 0) ev |= E_EMPTYJOIN;
			return { true, r.end, pieces ? span(a, b - a) : span(-2, 0) };
		}
		case NAME: { Res r = run(n.k[0], pos, look); ev |= E_NAME; return r; }
		case MAP:
		{
			Res r = run(n.k[0], pos, look);
			if (look || !r.ok) return r;
			return { true, r.end, invoke(n, std::move(r.v)) };
		}
		case FILT:
		{
			Res r = run(n.k[0], pos, look);
			if (look || !r.ok) return r;
			auto as = args(r.v, n.nums[1] != 0);
			called("p", n.nums[0], as);
			bool yes = as.empty() ? void_predicate((u64)n.nums[0]) : predicate((u64)n.nums[0], digest_args(T_FN, (u64)n.nums[0], as));
			ev |= yes ? E_PRED_T : E_PRED_F;
			return yes ? std::move(r) : fail;
		}
		case CUST:
		{
			const Rule& ru = rules.at(n.nums[0]);
			ev |= E_CUST; if (++rec >= 2) ev |= E_REC; if (rec > 1000) ev |= E_ABYSS;
			Res r = run(ru.body, pos, look);
			--rec;
			if (look || !r.ok) return r.ok ? Res{ true, r.end, {} } : fail;
			return { true, r.end, convert(ru.conv, std::move(r.v)) };
		}
		}
		std::abort();
	}
};
// lookahead yields no value anywhere; normalise
struct Expect { bool ok = false, threw = false, fuel = false; i64 throw_id = 0; size_t end = 0; std::string value, trace; u64 digest = 1, ev = 0; i64 calls = 0; };
static Expect expect(const Node& n, const Codes& in, bool look, bool want_trace, i64 throw_at = 0, bool want_value = true)
{
	Expect e; Model m(in); slack = 0; m.want_trace = want_trace; m.throw_at = throw_at;
	try
	{
		Res r = m.run(n, 0, look);
		e.ok = r.ok; e.end = r.ok ? r.end : 0;
		if (look) e.value = "v";
		else if (r.ok && want_value) { e.value = canon(r.v); e.digest = dig(r.v, in); }
	}
	catch (const Injected& i) { e.threw = true; e.throw_id = i.id; }
	catch (const OutOfFuel&) { e.fuel = true; }
	e.trace = std::move(m.trace); e.ev = m.ev | (e.ok ? E_OK : E_FAIL) | (e.ok && e.end ? E_CONSUMED : 0); e.calls = m.calls;
	return e;
}

// ------------------------------------------------------------------ random inputs
struct Rng
{
	u64 s;
	explicit Rng(u64 seed) : s(mix(seed, 0x1234567)) {}
	u64 next() { s += 0x9e3779b97f4a7c15ull; u64 z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	u64 below(u64 n) { return n ? next() % n : 0; }
	bool chance(int pct) { return below(100) < (u64)pct; }
};
struct Domain { i64 lo, hi; };
static Domain domain_of(const std::string& e)
{
	if (e == "char" || e == "signed char") return { -128, 127 };
	if (e == "unsigned char" || e == "char8_t") return { 0, 255 };
	if (e == "char16_t" || e == "unsigned short") return { 0, 65535 };
	if (e == "short" || e == "En") return { -32768, 32767 };
	if (e == "char32_t" || e == "unsigned") return { 0, 4294967295ll };
	if (e == "St") return { 0, 1 << 20 };
	if (e == "long") return { -(1ll << 60), 1ll << 60 };
	if (e == "double") return { -(1ll << 40), 1ll << 40 };
	if (e == "bool") return { 0, 1 };
	if (e == "unsigned long") return { 0, 1ll << 62 };
	return { -2147483648ll, 2147483647ll };
}
struct Gen
{
	Rng& rng; const Codes& alpha; const Codes& extra; Domain dom; size_t cap; Codes out; u64 pump = 0; bool deep = false, force = false; // force: down to the budget, whatever it takes
	i64 letter() { if (alpha.empty() && extra.empty()) return 97; return (extra.empty() || rng.chance(88)) && !alpha.empty() ? alpha[rng.below(alpha.size())] : extra[rng.below(extra.size())]; }
	static bool recursive(const Node& n) { if (n.op == CUST) return true; for (auto& k : n.k) if (recursive(k)) return true; return false; }
	void gen(const Node& n, int budget)
	{
		if (out.size() > cap) return;
		switch (n.op)
		{
		case ANY: if (!n.nums.empty()) out.push_back(n.nums[rng.below(n.nums.size())]); break;
		case NONE: for (int t = 0; t < 20; ++t) { i64 c = letter(); if (!n.set.count(c)) { out.push_back(c); break; } } break;
		case ANYTHING: out.push_back(letter()); break;
		case ALL: out.insert(out.end(), n.nums.begin(), n.nums.end()); break;
		case EPS: break;
		case CHO:
		{
			size_t i = rng.below(n.k.size());
			if (deep && budget > n.minh + 3 && (force || rng.chance(97))) for (size_t j = 0; j < n.k.size(); ++j) if (recursive(n.k[j])) { i = j; if (rng.chance(70)) break; }
			if (budget <= n.minh) { for (size_t j = 0; j < n.k.size(); ++j) if (n.k[j].minh < n.k[i].minh) i = j; }
			gen(n.k[i], budget - 1);
			break;
		}
		case MAYBE: if (budget > n.k[0].minh && rng.chance(deep && recursive(n.k[0]) ? (force ? 100 : 98) : 60)) gen(n.k[0], budget - 1); break;
		case PLUS: case STAR: case DEL:
		{
			u64 c = rng.below(4);
			if (rng.chance(8)) c = rng.below(14);
			if (rng.chance(1) && budget > 6) c = 20 + rng.below(120);
			if (deep && recursive(n.k[0])) c = 1;
			if (pump) { c = pump; pump = 0; }
			if (n.op != STAR && c == 0) c = 1;
			if (budget <= n.k[0].minh) c = n.op == STAR ? 0 : 1;
			for (u64 i = 0; i < c; ++i)
			{
				if (n.op == DEL && i) gen(n.k[1], budget - 1);
				gen(n.k[0], budget - 1);
				if (out.size() > cap) break;
			}
			if (n.op == DEL && rng.chance(12)) gen(n.k[1], budget - 1);
			break;
		}
		case EXACT: for (i64 i = 0; i < n.nums[0]; ++i) gen(n.k[0], budget - 1); break;
		case CUST: gen(rules.at(n.nums[0]).body, budget - 1); break;
		default:
		{
			// one way down is enough
			size_t way = n.k.size();
			if (force) for (size_t j = 0; j < n.k.size(); ++j) if (recursive(n.k[j]) && (way == n.k.size() || rng.chance(50))) way = j;
			for (size_t j = 0; j < n.k.size(); ++j)
			{
				const bool f = force;
				if (f && way < n.k.size() && j != way && recursive(n.k[j])) { force = false; gen(n.k[j], std::min(budget - 1, n.k[j].minh + 6)); force = f; }
				else gen(n.k[j], budget - 1);
			}
		}
		}
	}
};
static void collect(const Node& n, std::set<i64>& s, std::set<i64>& seen)
{
	if (n.op == ANY || n.op == NONE || n.op == ALL) s.insert(n.nums.begin(), n.nums.end());
	if (n.op == CUST && seen.insert(n.nums[0]).second) collect(rules.at(n.nums[0]).body, s, seen);
	for (auto& k : n.k) collect(k, s, seen);
}

// ------------------------------------------------------------------ options and shared state
enum Cmp { C_PARSE = 1, C_LOOK = 2, C_TRACE = 4, C_RAW = 8, C_LIVE = 16, C_THROW = 32, C_CONST = 64, C_FORMS = 128, C_PURE = 256, C_TYPE = 512, C_AGREE = 1024, C_LTRACE = 2048 };
struct Opt { u64 seed = 1; size_t cases = 200; u64 cmp = C_PARSE | C_LOOK | C_TYPE; u64 mask = E_OK; size_t singles = 0; size_t maxlen = 400; int exact_heap = 0; u64 longest = 300, deepest = 100; } opt;
struct Failure { int prog; int kind; int placement; int crash; size_t n; i64 codes[1 << 17]; };
struct Shared
{
	volatile int cur_prog, cur_place; volatile size_t cur_n; volatile u64 tick; volatile int stage; i64 cur[1 << 17];
	u64 evals, nontrivial, skipped, oks, fails; u64 evcount[32]; u64 constevals, formevals, throwevals, pureevals;
	int nfail; Failure fail[6];
	int done_prog;
	char samples[8][2000]; int nsamples;
	char pure_msg[600];
};
static Shared* sh;
static std::vector<Node> nodes, raws;
static std::vector<char> has_raw;

static void hang_handler(int)
{
	static std::atomic<u64> last{ ~0ull }; static std::atomic<int> same{ 0 };
	u64 now = __atomic_load_n(&sh->tick, __ATOMIC_RELAXED);
	if (now == last) { if (++same >= 10) { ::_exit(99); } } else { last = now; same = 0; }
}

// memory with inaccessible pages on both sides
static char* arena = nullptr; static const size_t ARENA = 1 << 21;
static void make_arena()
{
	const size_t pg = 4096;
	char* p = (char*)mmap(nullptr, ARENA + 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { std::perror("mmap"); std::exit(3); }
	mprotect(p, pg, PROT_NONE); mprotect(p + pg + ARENA, pg, PROT_NONE);
	arena = p + pg;
}
struct Placed { const void* p; char* heap; ~Placed() { std::free(heap); } };
// 0: in the middle, with misleading neighbours; 1: flush against the end; 2: flush against the start; 3: exact heap block
static void place(Placed& pl, const ElemOps& e, const Codes& in, int placement, const Node& n, const Codes& alpha, u64 salt)
{
	pl.heap = nullptr;
	size_t bytes = in.size() * e.size;
	if (placement == 3)
	{
		pl.heap = (char*)std::malloc(bytes ? bytes : 1); e.fill(pl.heap, in.data(), in.size()); pl.p = pl.heap; return;
	}
	if (placement == 1) { char* q = arena + ARENA - bytes; e.fill(q, in.data(), in.size()); pl.p = q; return; }
	if (placement == 2) { e.fill(arena, in.data(), in.size()); pl.p = arena; return; }
	Rng r(salt); Codes pre, post, none;
	for (int i = 0; i < 4; ++i) pre.push_back(alpha.empty() ? 0 : alpha[r.below(alpha.size())]);
	Gen g{ r, alpha, none, {}, 24, {} };
	if (r.chance(50)) g.gen(n, 6);
	for (int i = 0; i < 8; ++i) g.out.push_back(alpha.empty() ? 0 : (r.chance(50) && !in.empty() ? in[(size_t)i % in.size()] : alpha[r.below(alpha.size())]));
	Codes all = pre; all.insert(all.end(), in.begin(), in.end()); all.insert(all.end(), g.out.begin(), g.out.end());
	size_t start = 4096 + 64 * e.size;
	e.fill(arena + start, all.data(), all.size());
	pl.p = arena + start + pre.size() * e.size;
}

static const char* kind_name(int k)
{
	static const char* names[] = { "ok", "parse", "lookahead", "calls", "literal reading", "live objects", "exception", "compile-time", "input form", "purity", "value type", "parse/lookahead agreement", "input modified", "crash", "hang", "calls in lookahead" };
	return names[k];
}
// the text of a value or of calls is what the model says; an empty piece may have some freedom in where it is
static bool same_text(const std::string& model, const std::string& got)
{
	if (model == got) return true;
	size_t i = 0, j = 0;
	while (i < model.size())
	{
		if (model[i] == '~')
		{
			if (model.compare(i, 5, "~null") == 0)
			{
				i += 5;
				if (got.compare(j, 5, "~null") == 0) j += 5;
				else if (got.compare(j, 3, "0:0") == 0) j += 3;
				else return false;
				continue;
			}
			++i; size_t digits = j;
			while (j < got.size() && got[j] >= '0' && got[j] <= '9') ++j;
			if (j == digits || got.compare(j, 2, ":0")) return false;
			j += 2;
			continue;
		}
		if (j >= got.size() || model[i] != got[j]) return false;
		++i; ++j;
	}
	return j == got.size();
}
static std::string describe(const Out& o) { std::string s = o.threw ? "threw " + std::to_string(o.throw_id) : o.ok ? "success" : "failure"; s += " remaining=" + (o.rem_bad ? std::string("BAD") : std::to_string(o.rem_off)) + "+" + std::to_string(o.rem_len) + " value=" + o.value; return s; }
static std::string describe(const Expect& e, size_t n) { std::string s = e.threw ? "threw " + std::to_string(e.throw_id) : e.ok ? "success" : "failure"; s += " remaining=" + std::to_string(e.end) + "+" + std::to_string(n - e.end) + " value=" + e.value; return s; }
static bool matches(const Out& o, const Expect& e, size_t n)
{
	if (o.threw != e.threw) return false;
	if (e.threw) return o.throw_id == e.throw_id;
	if (o.ok != e.ok || o.rem_bad) return false;
	if (o.rem_off != e.end || o.rem_len != n - e.end) return false;
	if (e.ok && !same_text(e.value, o.value)) return false;
	return true;
}
// Evaluate one case completely; 0 = fine. `explain` receives the discrepancy.
static int evaluate(int pi, const Codes& in, int placement, std::string* explain, bool count)
{
	const Prog& P = progs[pi]; const Node& N = nodes[(size_t)pi];
	const bool tr = opt.cmp & (C_TRACE | C_LTRACE);
	Expect ep = expect(N, in, false, tr), el = expect(N, in, true, tr);
	if (ep.fuel || el.fuel) { if (count) ++sh->skipped; return 0; }
	auto say = [&](int kind, const std::string& want, const std::string& got) { if (explain) *explain = "expected: " + want + "\ngot:      " + got; return kind; };
	++sh->tick;
	Placed pl{};
	std::set<i64> as, seen; collect(N, as, seen); Codes alpha(as.begin(), as.end());
	place(pl, *P.elem, in, placement, N, alpha, mix(opt.seed, in.size() * 31 + (u64)pi));
	Out op, ol;
	live = 0; ctx.throw_at = 0;
	if (opt.cmp & (C_PARSE | C_TRACE | C_AGREE | C_RAW | C_LIVE))
	{
		P.parse(pl.p, in.size(), op);
		if ((opt.cmp & C_PARSE) && !matches(op, ep, in.size())) return say(1, describe(ep, in.size()), describe(op));
		if ((opt.cmp & C_TRACE) && !same_text(ep.trace, op.trace)) return say(3, "calls " + ep.trace, "calls " + op.trace);
		if ((opt.cmp & C_LIVE) && live != 0) return say(5, "no objects alive", std::to_string(live) + " alive");
	}
	if (opt.cmp & (C_LOOK | C_LTRACE | C_AGREE))
	{
		P.look(pl.p, in.size(), ol);
		if ((opt.cmp & C_LOOK) && !matches(ol, el, in.size())) return say(2, describe(el, in.size()), describe(ol));
		if ((opt.cmp & C_LTRACE) && !ol.trace.empty()) return say(15, "no calls in lookahead", ol.trace);
	}
	if ((opt.cmp & C_AGREE) && !(ep.ev & (E_PRED_F | E_GAP)))
		if (op.ok != ol.ok || op.rem_off != ol.rem_off || op.rem_len != ol.rem_len) return say(11, "lookahead and parse agree", describe(op) + " vs " + describe(ol));
	if ((opt.cmp & C_RAW) && has_raw[(size_t)pi])
	{
		Expect er = expect(raws[(size_t)pi], in, false, false, 0, false);
		if (!er.fuel && (er.ok != op.ok || er.end != op.rem_off)) return say(4, "literal reading: " + describe(er, in.size()), describe(op));
	}
	if (!P.elem->same(pl.p, in.data(), in.size())) return say(12, "input unchanged", "input modified");
	if ((opt.cmp & C_THROW) && ep.calls > 0)
	{
		i64 step = std::max<i64>(1, ep.calls / 6);
		for (i64 k = 1; k <= ep.calls; k += (ep.calls <= 8 ? 1 : step))
		{
			Expect et = expect(N, in, false, true, k);
			Out ot; live = 0; ctx.throw_at = k; ++sh->tick; ++sh->throwevals;
			P.parse(pl.p, in.size(), ot);
			ctx.throw_at = 0;
			if (!matches(ot, et, in.size()) || !same_text(et.trace, ot.trace)) return say(6, "exception at call " + std::to_string(k) + ": " + describe(et, in.size()) + " calls " + et.trace, describe(ot) + " calls " + ot.trace);
			if (live != 0) return say(5, "no objects alive after exception at call " + std::to_string(k), std::to_string(live) + " alive");
		}
		Out again; P.parse(pl.p, in.size(), again);
		if (!matches(again, ep, in.size())) return say(6, "after exceptions: " + describe(ep, in.size()), describe(again));
	}
	if ((opt.cmp & C_FORMS) && P.nforms)
	{
		for (int f = 0; f < P.nforms; ++f)
		{
			for (int look = 0; look < 2; ++look)
			{
				Out of; ++sh->tick;
				if (!P.form(f, in.data(), in.size(), look, of)) continue;
				++sh->formevals;
				const Expect& e = look ? el : ep;
				if (!matches(of, e, in.size())) return say(8, std::string(P.form_name(f)) + (look ? " lookahead: " : " parse: ") + describe(e, in.size()), describe(of));
			}
		}
	}
	if (count)
	{
		++sh->evals; if (ep.ok) ++sh->oks; else ++sh->fails;
		u64 ev = ep.ev | el.ev;
		for (int b = 0; b < 32; ++b) if (ev >> b & 1) ++sh->evcount[b];
		if (ev & opt.mask)
		{
			++sh->nontrivial;
			if (sh->nsamples < 8 && (sh->nontrivial % 97 == 1))
			{
				std::string s = std::string(P.id) + " input=["; for (size_t i = 0; i < in.size() && i < 60; ++i) { s += std::to_string(in[i]); s += i + 1 < in.size() ? "," : ""; }
				s += "] => " + describe(ep, in.size()).substr(0, 300) + " grammar=" + std::string(P.ast).substr(0, 700);
				std::snprintf(sh->samples[sh->nsamples++], sizeof sh->samples[0], "%s", s.c_str());
			}
		}
	}
	return 0;
}

static std::vector<Codes> make_inputs(int pi)
{
	const Prog& P = progs[pi]; const Node& N = nodes[(size_t)pi];
	Rng rng(mix(mix(opt.seed, (u64)pi), 99));
	std::set<i64> as, seen; collect(N, as, seen);
	Codes alpha(as.begin(), as.end());
	Domain dom = domain_of(P.elem->name);
	Codes extra;
	const bool odd = std::string(P.elem->name) == "double";
	{
		std::set<i64> ex;
		auto add = [&](i64 c) { if (c >= dom.lo && c <= dom.hi && !as.count(c)) ex.insert(c); };
		for (i64 c : { 0ll, 1ll, 32ll, 97ll, 120ll, 127ll, 128ll, 255ll, -1ll, -128ll, 256ll, 65535ll, (long long)dom.lo, (long long)dom.hi }) add(c);
		for (size_t i = 0; i < 4 && i < alpha.size(); ++i) { i64 c = alpha[rng.below(alpha.size())]; add(c + 1); add(c - 1); add(c + 256); add(c + 65536); add(c ^ 32); }
		extra.assign(ex.begin(), ex.end());
		if (odd)
		{
			for (int i = 0; i < 3; ++i) extra.push_back(odd_element + i);
			for (size_t i = 0; i < 4 && i < alpha.size(); ++i) { i64 c = alpha[rng.below(alpha.size())] - (i64)rng.below(2); if (c > dom.lo && c < dom.hi) extra.push_back(2 * odd_element + c); }
		}
	}
	if (alpha.empty()) alpha = { 97, 98 };
	std::vector<Codes> out; std::unordered_set<u64> dedupe;
	auto push = [&](Codes c)
	{
		if (c.size() >= (1 << 17) - 8) return;
		// (elements written for another type wrap round into the input's)
		for (i64& x : c) if ((x < dom.lo || x > dom.hi) && !(odd && x >= odd_element)) { i64 n = dom.hi - dom.lo + 1; x = ((x - dom.lo) % n + n) % n + dom.lo; }
		u64 h = c.size(); for (i64 x : c) h = mix(h, (u64)x);
		if (dedupe.insert(h).second) out.push_back(std::move(c));
	};
	push({});
	// every short string over a small alphabet
	{
		Codes small;
		if (alpha.size() <= 5) small = alpha;
		else { std::set<i64> s; while (s.size() < 5) s.insert(alpha[rng.below(alpha.size())]); small.assign(s.begin(), s.end()); }
		if (!extra.empty()) small.push_back(extra[rng.below(extra.size())]);
		size_t budget = opt.cases / 4, lenmax = 0; u64 total = 1;
		while (total * small.size() <= budget) { total *= small.size(); ++lenmax; }
		for (size_t len = 1; len <= lenmax; ++len)
		{
			Codes c(len, 0); std::vector<size_t> idx(len, 0);
			for (;;)
			{
				for (size_t i = 0; i < len; ++i) c[i] = small[idx[i]];
				push(c);
				size_t i = 0; while (i < len && ++idx[i] == small.size()) idx[i++] = 0;
				if (i == len) break;
			}
		}
	}
	if (opt.singles)
	{
		if (dom.hi - dom.lo <= 255) for (i64 c = dom.lo; c <= dom.hi; ++c) { push({ c }); push({ c, alpha[0] }); }
		else { for (i64 c : alpha) { push({ c }); if (c + 1 <= dom.hi) push({ c + 1 }); if (c - 1 >= dom.lo) push({ c - 1 }); } for (i64 c : extra) push({ c }); }
	}
	// a literal: a mismatch at every index, every truncation
	{
		const Node* l = &N; while ((l->op == IGN || l->op == COMP || l->op == NAME || l->op == JOIN) && l->k.size() == 1) l = &l->k[0];
		if (l->op == ALL)
			for (size_t i = 0; i < l->nums.size(); ++i)
			{
				Codes c = l->nums; c.resize(i); push(c);
				c = l->nums; i64 other = c[i] == dom.hi ? dom.lo : c[i] + 1; c[i] = other; push(c);
				c = l->nums; c[i] = alpha[rng.below(alpha.size())]; push(c); c.push_back(alpha[0]); push(c);
				c = l->nums; c.erase(c.begin() + (long)i); push(c);
			}
	}
	Gen g{ rng, alpha, extra, dom, opt.maxlen, {} };
	// long and deep ones
	{
		std::function<bool(const Node&)> rep = [&](const Node& n) { if (n.op == PLUS || n.op == STAR || n.op == DEL) return true; for (auto& k : n.k) if (rep(k)) return true; return false; };
		if (rep(N))
		{
			static const u64 pumps[] = { 17, 33, 65, 130, 260, 300, 1030, 5000, 33000, 66000 };
			static const u64 edges[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537 };
			for (int t = 0; t < 6; ++t)
			{
				g.out.clear(); g.cap = (1 << 17) - 1000; g.deep = false;
				g.pump = t == 3 ? 256 + rng.below(2) * 256 : t == 4 ? edges[rng.below(12)] : t == 5 ? edges[rng.below(19)] : t == 0 ? 257 + rng.below(60) : t == 1 ? pumps[rng.below(6)] : pumps[rng.below(opt.longest >= 66000 ? 10 : opt.longest >= 5000 ? 8 : 7)];
				if (g.pump > opt.longest) continue;
				g.gen(N, 8); g.pump = 0;
				Codes c = g.out; push(c);
				if (!c.empty() && t < 2) { c.pop_back(); push(c); c.push_back(g.letter()); push(c); size_t i = rng.below(c.size()); c[i] = g.letter(); push(c); }
			}
			g.cap = opt.maxlen;
		}
		if (Gen::recursive(N))
			for (int t = 0; t < 8; ++t)
			{
				static const int levels[] = { 127, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4100, 8192, 10000 };
				g.deep = true; g.force = t >= 5; g.cap = g.force ? 60000 : 20000; g.out.clear();
				// (a level of nesting is three to five of the generator's)
				g.gen(N, t < 3 ? 30 + (int)rng.below(60) : t < 6 ? (int)opt.deepest / 2 + (int)rng.below(opt.deepest / 2 + 1) : std::min((int)opt.deepest, 5 * levels[rng.below(16)] + 40)); g.deep = g.force = false; g.cap = opt.maxlen;
				Codes c = g.out; push(c);
				if (t >= 5) { if (!c.empty()) { c.pop_back(); push(c); } continue; }
				if (!c.empty()) { c.pop_back(); push(c); c.push_back(g.letter()); push(c); c.push_back(g.letter()); push(c); size_t i = rng.below(c.size()); c[i] = g.letter(); push(c); }
			}
	}
	size_t guard = 0;
	while (out.size() < opt.cases && ++guard < opt.cases * 4)
	{
		g.out.clear();
		g.gen(N, 4 + (int)rng.below(12));
		Codes c = g.out;
		if (rng.chance(45)) { push(c); if (rng.chance(30)) { Codes d = c; g.out.clear(); g.gen(N, 5); d.insert(d.end(), g.out.begin(), g.out.end()); push(d); } }
		int muts = 1 + (int)rng.below(3);
		for (int m = 0; m < muts; ++m)
		{
			Codes d = c;
			switch (rng.below(9))
			{
			case 0: if (!d.empty()) d.resize(rng.below(d.size())); break;
			case 1: d.insert(d.begin() + (long)rng.below(d.size() + 1), g.letter()); break;
			case 2: if (!d.empty()) d.erase(d.begin() + (long)rng.below(d.size())); break;
			case 3: if (!d.empty()) d[rng.below(d.size())] = g.letter(); break;
			case 4: d.push_back(g.letter()); break;
			case 5: if (!d.empty()) d.pop_back(); break;
			case 6: if (d.size() > 1) { size_t i = rng.below(d.size() - 1); std::swap(d[i], d[i + 1]); } break;
			case 7: if (!d.empty()) { size_t a = rng.below(d.size()), l = 1 + rng.below(4); Codes piece(d.begin() + (long)a, d.begin() + (long)std::min(d.size(), a + l)); d.insert(d.begin() + (long)rng.below(d.size() + 1), piece.begin(), piece.end()); } break;
			case 8: { d.clear(); size_t l = rng.below(12); for (size_t i = 0; i < l; ++i) d.push_back(g.letter()); } break;
			}
			push(d);
			if (rng.chance(30)) c = d;
		}
	}
	return out;
}

static void set_current(int pi, const Codes& in, int placement, int stage)
{
	sh->cur_prog = pi; sh->cur_place = placement; sh->cur_n = std::min<size_t>(in.size(), 1 << 17); sh->stage = stage;
	std::memcpy(sh->cur, in.data(), sh->cur_n * sizeof(i64));
}
static void add_failure(int pi, int kind, int placement, const i64* codes, size_t n)
{
	if (sh->nfail >= 6) return;
	Failure& f = sh->fail[sh->nfail++];
	f.prog = pi; f.kind = kind; f.placement = placement; f.n = std::min<size_t>(n, 1 << 17); std::memcpy(f.codes, codes, f.n * sizeof(i64));
}
static int pick_placement(size_t i) { return opt.exact_heap ? (i % 2 ? 3 : (int)(i / 2 % 3)) : (int)(i % 3); }

static int check_type(int pi, std::string* explain)
{
	std::string t = progs[pi].actual_type();
	if (t == progs[pi].type) return 0;
	if (explain) *explain = std::string("expected value type: ") + progs[pi].type + "\ngot value type:      " + t;
	return 10;
}
static int check_const(int pi, std::string* explain, Codes* culprit)
{
	if (!progs[pi].consts) return 0;
	for (auto& c : progs[pi].consts())
	{
		Expect ep = expect(nodes[(size_t)pi], c.input, false, false), el = expect(nodes[(size_t)pi], c.input, true, false);
		if (ep.fuel) continue;
		++sh->constevals;
		Placed pl{}; place(pl, *progs[pi].elem, c.input, 3, nodes[(size_t)pi], {}, 0);
		u64 rt = progs[pi].digest(pl.p, c.input.size());
		u64 want = ep.ok ? ep.digest : 1;
		size_t n = c.input.size();
		if (c.ok != ep.ok || c.rem != n - ep.end || c.digest != want || rt != want || c.look_ok != el.ok || c.look_rem != n - el.end)
		{
			if (culprit) *culprit = c.input;
			if (explain)
			{
				char b[600];
				std::snprintf(b, sizeof b, "expected: ok=%d left=%zu digest=%llx lookahead ok=%d left=%zu\ncompile time: ok=%d left=%zu digest=%llx lookahead ok=%d left=%zu; run time digest=%llx",
					ep.ok, n - ep.end, (unsigned long long)want, el.ok, n - el.end, c.ok, c.rem, (unsigned long long)c.digest, c.look_ok, c.look_rem, (unsigned long long)rt);
				*explain = b;
			}
			return 7;
		}
	}
	return 0;
}

// Many parses in random histories and from several threads at once: every outcome must be that of the first time.
struct PureItem { int pi; Codes in; Out p, l; };
static bool same_out(const Out& a, const Out& b) { return a.ok == b.ok && a.rem_off == b.rem_off && a.rem_len == b.rem_len && a.rem_bad == b.rem_bad && a.value == b.value && a.trace == b.trace; }
static int check_pure(std::vector<PureItem>& items)
{
	auto once = [](const PureItem& it, Out& p, Out& l, bool look_first)
	{
		size_t bytes = it.in.size() * progs[it.pi].elem->size;
		std::unique_ptr<char[]> b(new char[bytes + 1]);
		progs[it.pi].elem->fill(b.get(), it.in.data(), it.in.size());
		if (look_first) progs[it.pi].look(b.get(), it.in.size(), l);
		progs[it.pi].parse(b.get(), it.in.size(), p);
		if (!look_first) progs[it.pi].look(b.get(), it.in.size(), l);
	};
	auto bad = [&](const PureItem& it, const char* how)
	{
		std::string s = std::string(how) + ": a repeated parse differs from the first; program " + progs[it.pi].id;
		std::snprintf(sh->pure_msg, sizeof sh->pure_msg, "%s", s.c_str());
		add_failure(it.pi, 9, 3, it.in.data(), it.in.size());
		return 9;
	};
	Rng rng(mix(opt.seed, 4242));
	for (size_t i = 0, n = items.size() * 3; i < n; ++i)
	{
		// bursts of the same item, neighbours, and random jumps
		PureItem& it = items[rng.below(items.size())];
		int burst = rng.chance(20) ? 4 : 1;
		for (int b = 0; b < burst; ++b)
		{
			Out p, l; set_current(it.pi, it.in, 3, 9); ++sh->tick; ++sh->pureevals;
			once(it, p, l, rng.chance(50));
			if (!same_out(p, it.p) || !same_out(l, it.l)) return bad(it, "history");
		}
	}
	const int T = 6; std::atomic<int> failed{ -1 }; std::atomic<size_t> done{ 0 };
	std::vector<std::thread> ts;
	for (int t = 0; t < T; ++t) ts.emplace_back([&, t]
	{
		Rng r(mix(opt.seed, 777 + (u64)t));
		for (size_t i = 0; i < items.size() && failed < 0; ++i)
		{
			size_t k = (t % 2) ? r.below(items.size()) : (i / 8) * 8 % items.size(); // half the threads hit the same items together
			Out p, l; once(items[k], p, l, r.chance(50));
			if (!same_out(p, items[k].p) || !same_out(l, items[k].l)) failed = (int)k;
			++done; __atomic_fetch_add(&sh->tick, 1, __ATOMIC_RELAXED);
		}
	});
	for (auto& t : ts) t.join();
	sh->pureevals += done;
	if (failed >= 0) return bad(items[(size_t)failed.load()], "threads");
	return 0;
}

// In a process that has not parsed anything yet, several threads use each program for the first time at once.
struct ColdItem { int pi; std::vector<Codes> in; };
static std::vector<ColdItem> cold_items()
{
	std::vector<ColdItem> items; Rng rng(mix(opt.seed, 31337));
	for (int pi = 0; pi < nprogs; ++pi)
	{
		ColdItem it{ pi, {} }; size_t good = 0;
		auto inputs = make_inputs(pi);
		for (size_t tries = 0; tries < 60 && it.in.size() < 6; ++tries)
		{
			Codes& c = inputs[rng.below(inputs.size())];
			if (c.size() > 64) continue;
			Expect e = expect(nodes[(size_t)pi], c, false, false);
			if (e.fuel || (good >= 3 && e.ok) || (!e.ok && it.in.size() - good >= 3)) continue;
			good += e.ok; it.in.push_back(c);
		}
		if (!it.in.empty()) items.push_back(std::move(it));
	}
	return items;
}
[[noreturn]] static void cold_worker(std::vector<ColdItem> items, u64 round)
{
	struct sigaction sa {}; sa.sa_handler = hang_handler; sigaction(SIGVTALRM, &sa, nullptr);
	itimerval tv{ { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	const int T = 6; Rng rng(mix(opt.seed, 555 + round));
	for (size_t i = items.size(); i > 1; --i) std::swap(items[i - 1], items[rng.below(i)]);
	auto once = [](int pi, const Codes& in, bool look, Out& o)
	{
		std::unique_ptr<char[]> b(new char[in.size() * progs[pi].elem->size + 1]);
		progs[pi].elem->fill(b.get(), in.data(), in.size());
		if (look) progs[pi].look(b.get(), in.size(), o); else progs[pi].parse(b.get(), in.size(), o);
	};
	std::vector<std::vector<std::vector<Out>>> outs((size_t)T);
	std::vector<std::atomic<int>> ready(items.size());
	for (auto& r : ready) r = 0;
	std::vector<std::thread> ts;
	for (int t = 0; t < T; ++t) outs[(size_t)t].resize(items.size());
	for (int t = 0; t < T; ++t) ts.emplace_back([&, t]
	{
		for (size_t i = 0; i < items.size(); ++i)
		{
			auto& mine = outs[(size_t)t][i]; size_t n = items[i].in.size();
			mine.resize(2 * n);
			++ready[i];
			for (int spin = 0; ready[i] < T; ++spin) if (spin > 2000) std::this_thread::yield();
			for (size_t j = 0; j < 2 * n; ++j) { size_t k = (j + (size_t)t / 2) % (2 * n); once(items[i].pi, items[i].in[k / 2], k % 2, mine[k]); }
			__atomic_fetch_add(&sh->tick, 1, __ATOMIC_RELAXED);
		}
	});
	for (auto& t : ts) t.join();
	for (size_t i = 0; i < items.size(); ++i)
		for (size_t k = 0; k < 2 * items[i].in.size(); ++k)
		{
			Out o; set_current(items[i].pi, items[i].in[k / 2], 3, 9); ++sh->pureevals; ++sh->tick;
			once(items[i].pi, items[i].in[k / 2], k % 2, o);
			for (int t = 0; t < T; ++t)
				if (!same_out(o, outs[(size_t)t][i][k]))
				{
					std::string s = std::string("first use: a parse by one of several threads that use the parser for the first time at once differs from a later one; program ") + progs[items[i].pi].id;
					std::snprintf(sh->pure_msg, sizeof sh->pure_msg, "%s", s.c_str());
					add_failure(items[i].pi, 9, 3, items[i].in[k / 2].data(), items[i].in[k / 2].size());
					::_exit(0);
				}
		}
	::_exit(0);
}
static void cold()
{
	auto items = cold_items();
	int crashes = 0; const u64 rounds = opt.exact_heap ? 4 : 12;
	for (u64 round = 0; round < rounds && !sh->nfail; ++round)
	{
		if (!items.empty()) set_current(items[0].pi, items[0].in[0], 3, 9);
		pid_t c = fork();
		if (c == 0) cold_worker(items, round);
		int st = 0; waitpid(c, &st, 0);
		if (!WIFSIGNALED(st) && WEXITSTATUS(st) == 0) continue;
		if (++crashes < 2) continue; // only what comes back counts
		std::snprintf(sh->pure_msg, sizeof sh->pure_msg, "the first use of parsers by several threads at once ended the process (%s %d): a crash or a sanitizer report", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
		add_failure(sh->cur_prog, 9, 3, sh->cur, sh->cur_n);
	}
}

static void worker(int first)
{
	make_arena();
	struct sigaction sa {}; sa.sa_handler = hang_handler; sigaction(SIGVTALRM, &sa, nullptr);
	itimerval tv{ { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
	std::vector<PureItem> pure;
	for (int pi = first; pi < nprogs; ++pi)
	{
		sh->done_prog = pi;
		Codes empty;
		set_current(pi, empty, 0, 10);
		int k = 0;
		if ((opt.cmp & C_TYPE) && (k = check_type(pi, nullptr))) { add_failure(pi, k, 0, nullptr, 0); continue; }
		if (opt.cmp & C_CONST)
		{
			Codes culprit; set_current(pi, empty, 3, 7);
			if ((k = check_const(pi, nullptr, &culprit))) { add_failure(pi, k, 0, culprit.data(), culprit.size()); continue; }
		}
		auto inputs = make_inputs(pi);
		for (size_t i = 0; i < inputs.size(); ++i)
		{
			int pl = pick_placement(i);
			set_current(pi, inputs[i], pl, 1);
			k = evaluate(pi, inputs[i], pl, nullptr, true);
			if (k) { add_failure(pi, k, pl, inputs[i].data(), inputs[i].size()); break; }
			if ((opt.cmp & C_PURE) && i % 4 == 0 && pure.size() < 20000)
			{
				PureItem it{ pi, inputs[i], {}, {} };
				size_t bytes = it.in.size() * progs[pi].elem->size; std::unique_ptr<char[]> b(new char[bytes + 1]);
				progs[pi].elem->fill(b.get(), it.in.data(), it.in.size());
				Expect ep = expect(nodes[(size_t)pi], it.in, false, false);
				if (ep.fuel) continue;
				progs[pi].parse(b.get(), it.in.size(), it.p); progs[pi].look(b.get(), it.in.size(), it.l);
				pure.push_back(std::move(it));
			}
		}
		if (sh->nfail >= 4) break;
	}
	if ((opt.cmp & C_PURE) && !sh->nfail && !pure.empty()) check_pure(pure);
	sh->done_prog = nprogs;
	std::fflush(nullptr);
	::_exit(0);
}

// one evaluation in a child of its own: kind of failure, 0 if fine
static int trial(int pi, const Codes& in, int placement, std::string* explain)
{
	int fd[2]; if (pipe(fd)) return 0;
	pid_t c = fork();
	if (c == 0)
	{
		close(fd[0]);
		make_arena();
		struct sigaction sa {}; sa.sa_handler = hang_handler; sigaction(SIGVTALRM, &sa, nullptr);
		itimerval tv{ { 1, 0 }, { 1, 0 } }; setitimer(ITIMER_VIRTUAL, &tv, nullptr);
		std::string why; int k = 0;
		if (opt.cmp & C_TYPE) k = check_type(pi, &why);
		if (!k && (opt.cmp & C_CONST)) k = check_const(pi, &why, nullptr);
		if (!k) k = evaluate(pi, in, placement, &why, false);
		ssize_t w = write(fd[1], why.data(), std::min<size_t>(why.size(), 60000)); (void)w;
		::_exit(k);
	}
	close(fd[1]);
	std::string s; char buf[4096]; ssize_t r;
	while ((r = read(fd[0], buf, sizeof buf)) > 0) s.append(buf, (size_t)r);
	close(fd[0]);
	int st = 0; waitpid(c, &st, 0);
	if (explain) *explain = s;
	if (WIFSIGNALED(st)) { if (explain) *explain = std::string("expected: no crash\ngot:      signal ") + strsignal(WTERMSIG(st)); return 13; }
	if (WEXITSTATUS(st) == 99) { if (explain) *explain = "expected: termination\ngot:      no progress for 10 s of CPU time"; return 14; }
	return WEXITSTATUS(st) > 15 ? 13 : WEXITSTATUS(st);
}
static bool fails(int pi, const Codes& in, int& placement, std::string* explain, int& kind)
{
	int order[4] = { placement, 1, 0, 3 };
	for (int i = 0; i < 4; ++i)
	{
		if (i && order[i] == placement) continue;
		int k = trial(pi, in, order[i], explain);
		if (k) { placement = order[i]; kind = k; return true; }
	}
	return false;
}
static void shrink(int pi, Codes& in, int& placement, int& kind)
{
	if (kind == 10 || kind == 7) return;
	int budget = kind == 14 ? 12 : 400;
	bool progress = true;
	while (progress && budget > 0)
	{
		progress = false;
		for (size_t chunk = std::max<size_t>(1, in.size() / 2); chunk >= 1 && budget > 0; chunk /= 2)
		{
			for (size_t i = 0; i + chunk <= in.size() && budget > 0;)
			{
				Codes d = in; d.erase(d.begin() + (long)i, d.begin() + (long)(i + chunk));
				--budget; int p = placement, k = kind;
				if (fails(pi, d, p, nullptr, k)) { in = d; placement = p; kind = k; progress = true; }
				else i += chunk;
			}
			if (chunk == 1) break;
		}
		for (size_t i = 0; i < in.size() && budget > 0; ++i)
			for (i64 c : { 97ll, 98ll })
				if (in[i] > c) { Codes d = in; d[i] = c; --budget; int p = placement, k = kind; if (fails(pi, d, p, nullptr, k)) { in = d; placement = p; kind = k; progress = true; break; } }
	}
}
static void json_str(const std::string& s) { std::putchar('"'); for (unsigned char c : s) { if (c == '"' || c == '\\') { std::putchar('\\'); std::putchar(c); } else if (c < 32) std::printf("\\u%04x", c); else if (c > 126) std::printf("?"); else std::putchar(c); } std::putchar('"'); }
static void report(int pi, const Codes& in, int placement, int kind, const std::string& why, int confirmed)
{
	std::printf("FAIL {\"prog\":"); json_str(progs[pi].id); std::printf(",\"kind\":"); json_str(kind_name(kind));
	std::printf(",\"placement\":%d,\"confirmed\":%d,\"input\":[", placement, confirmed);
	for (size_t i = 0; i < in.size(); ++i) std::printf("%s%lld", i ? "," : "", (long long)in[i]);
	std::printf("],\"why\":"); json_str(why.substr(0, 4000)); std::printf(",\"ast\":"); json_str(progs[pi].ast); std::printf("}\n");
}

static int main_(int argc, char** argv)
{
	int only = -1; Codes replay; int replay_place = 0; bool is_replay = false; bool noshrink = false;
	for (int i = 1; i < argc; ++i)
	{
		std::string a = argv[i]; auto val = [&] { return std::strtoull(argv[++i], nullptr, 0); };
		if (a == "--seed") opt.seed = val();
		else if (a == "--cases") opt.cases = val();
		else if (a == "--cmp") opt.cmp = val();
		else if (a == "--mask") opt.mask = val();
		else if (a == "--singles") opt.singles = val();
		else if (a == "--maxlen") opt.maxlen = val();
		else if (a == "--exact-heap") opt.exact_heap = (int)val();
		else if (a == "--longest") opt.longest = val();
		else if (a == "--deepest") opt.deepest = val();
		else if (a == "--noshrink") noshrink = true;
		else if (a == "--replay") { is_replay = true; std::string id = argv[++i]; for (int p = 0; p < nprogs; ++p) if (id == progs[p].id) only = p; replay_place = std::atoi(argv[++i]); std::string c = argv[++i]; if (c[0] == '@') { std::FILE* f = std::fopen(c.c_str() + 1, "r"); c.clear(); if (f) { char b[4096]; size_t r; while ((r = std::fread(b, 1, sizeof b, f)) > 0) c.append(b, r); std::fclose(f); } } const char* q = c.c_str(); while (*q) { replay.push_back(std::strtoll(q, (char**)&q, 10)); while (*q == ',') ++q; } }
		else { std::fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
	}
	{
		const char* p = rules_text; Sx x = parse_sx(p);
		for (auto& r : x.k) rules[num(r.k[0])].conv = r.k[1];
		for (auto& r : x.k) rules[num(r.k[0])].body = build(r.k[2]);
		for (int it = 0; it < 30; ++it) for (auto& [id, r] : rules) { (void)id; r.minh = std::min(r.minh, 1 + min_height(r.body)); }
	}
	for (int i = 0; i < nprogs; ++i)
	{
		const char* p = progs[i].ast; nodes.push_back(build(parse_sx(p))); min_height(nodes.back());
		has_raw.push_back(progs[i].raw != nullptr);
		raws.emplace_back();
		if (progs[i].raw) { p = progs[i].raw; raws.back() = build(parse_sx(p)); }
	}
	sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (is_replay)
	{
		if (only < 0) { std::fprintf(stderr, "no such program\n"); return 3; }
		std::string why; int k = trial(only, replay, replay_place, &why);
		if (k) { report(only, replay, replay_place, k, why, 1); return 1; }
		std::printf("replay: no discrepancy\n"); return 0;
	}
#if !defined(__SANITIZE_ADDRESS__) && !defined(VH_ASAN)
	rlimit rl{ 4ull << 30, 4ull << 30 }; setrlimit(RLIMIT_AS, &rl);
#endif
	rlimit rs{ 0, 0 }; setrlimit(RLIMIT_CORE, &rs);
	pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 64u << 20); pthread_setattr_default_np(&at); // main's stack is far larger
	int first = 0, restarts = 0, pure_crashes = 0;
	if (opt.cmp & C_PURE) cold();
	if (sh->nfail) first = nprogs;
	while (first < nprogs)
	{
		pid_t c = fork();
		if (c == 0) worker(first);
		int st = 0; waitpid(c, &st, 0);
		bool crash = WIFSIGNALED(st) || (WIFEXITED(st) && WEXITSTATUS(st) != 0);
		if (!crash) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3;
		if (sh->stage == 9)
		{
			if (++pure_crashes < 2) continue; // the same histories once more: only a crash that comes back counts
			std::snprintf(sh->pure_msg, sizeof sh->pure_msg, "repeated or concurrent parses ended the process (%s %d): a crash or a sanitizer report", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st));
			add_failure(sh->cur_prog, 9, 3, sh->cur, sh->cur_n);
			break;
		}
		add_failure(sh->cur_prog, WIFEXITED(st) && WEXITSTATUS(st) == 99 ? 14 : 13, sh->cur_place, sh->cur, sh->cur_n);
		first = sh->cur_prog + 1;
		if (++restarts >= 2 || sh->nfail >= 4) break;
	}
	for (int i = 0; i < sh->nfail; ++i)
	{
		Failure& f = sh->fail[i];
		Codes in(f.codes, f.codes + f.n); int kind = f.kind, pl = f.placement;
		if (kind == 9) { report(f.prog, in, pl, kind, sh->pure_msg, 3); continue; }
		std::string why; int k = kind;
		if (!fails(f.prog, in, pl, &why, k)) { report(f.prog, in, pl, kind, "did not reproduce in a fresh process", 0); continue; }
		kind = k;
		if (!noshrink && i < 2) shrink(f.prog, in, pl, kind);
		int conf = 0;
		for (int t = 0; t < (kind == 14 ? 1 : 3); ++t) { int k2 = trial(f.prog, in, pl, &why); if (k2) { ++conf; kind = k2; } }
		report(f.prog, in, pl, kind, why, conf);
	}
	std::printf("STAT {\"programs\":%d,\"evals\":%llu,\"nontrivial\":%llu,\"skipped\":%llu,\"ok\":%llu,\"fail\":%llu,\"const\":%llu,\"forms\":%llu,\"throws\":%llu,\"pure\":%llu,\"done\":%d,\"events\":[", nprogs,
		(unsigned long long)sh->evals, (unsigned long long)sh->nontrivial, (unsigned long long)sh->skipped, (unsigned long long)sh->oks, (unsigned long long)sh->fails,
		(unsigned long long)sh->constevals, (unsigned long long)sh->formevals, (unsigned long long)sh->throwevals, (unsigned long long)sh->pureevals, sh->done_prog);
	for (int b = 0; b < 27; ++b) std::printf("%s%llu", b ? "," : "", (unsigned long long)sh->evcount[b]);
	std::printf("],\"samples\":[");
	for (int i = 0; i < sh->nsamples; ++i) { if (i) std::putchar(','); json_str(sh->samples[i]); }
	std::printf("]}\n");
	return sh->nfail ? 1 : 0;
}

} // namespace vh

int main(int argc, char** argv) { return vh::main_(argc, argv); }
