// C19: reads length-prefixed documents, prints what the shipped JSON grammar makes of each.
#define main example_main
#include "examples/json/json.cpp"
#undef main
#include <cstdio>
#include <string>
#include <vector>
#include <memory>
#include <cstring>
static void hex(std::string& o, std::string_view s) { static const char* h = "0123456789abcdef"; for (unsigned char c : s) { o += h[c >> 4]; o += h[c & 15]; } }
static void dump(std::string& o, const JsonValue::result_type& v);
static void dump(std::string& o, const number_type& n) { o += "N"; o += n.integer; if (n.fraction) { o += "."; o += *n.fraction; } if (n.exponent) { o += "e"; o += *n.exponent; } o += ";"; }
static void dump(std::string& o, const std::string& s) { o += "S"; hex(o, s); }
static void dump(std::string& o, const JsonObject::result_type& v) { o += "{"; for (auto& [k, x] : v) { hex(o, k); o += ":"; dump(o, x); o += ","; } o += "}"; }
static void dump(std::string& o, const JsonArray::result_type& v) { o += "["; for (auto& x : v) { dump(o, x); o += ","; } o += "]"; }
static void dump(std::string& o, const JsonValue::result_type& v)
{
	std::visit([&](const auto& x)
	{
		using X = std::remove_cvref_t<decltype(x)>;
		if constexpr (std::same_as<X, bool>) o += x ? "T" : "F";
		else if constexpr (std::same_as<X, std::nullptr_t>) o += "0";
		else dump(o, x);
	}, v.variant);
}
template <class P> static void line(P p, std::string_view s)
{
	std::string o;
	auto r = p.parse(s); auto l = p.lookahead(s);
	auto inside = [&](auto x) { auto d = x.data(); return (x.empty() && !d) || (d >= s.data() && d + x.size() == s.data() + s.size()); };
	o += r ? "ok " : "no "; o += std::to_string(r.remaining().size()); o += inside(r.remaining()) ? " " : "! ";
	o += l ? "ok " : "no "; o += std::to_string(l.remaining().size()); o += inside(l.remaining()) ? " " : "! ";
	if (r) dump(o, *r);
	std::puts(o.c_str());
}
int main()
{
	std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16); // what was answered before a crash has to arrive
	char kind; unsigned long n;
	while (std::scanf("%c%lu", &kind, &n) == 2)
	{
		std::getchar();
		std::unique_ptr<char[]> b(new char[n]); // exactly the document: a sanitizer sees any access outside it
		if (n && std::fread(b.get(), 1, n, stdin) != n) return 3;
		std::string_view s(b.get(), n);
		if (kind == 'v') line(JsonValue{}, s);
		else if (kind == 'o') line(JsonObject{}, s);
		else if (kind == 'a') line(JsonArray{}, s);
		else if (kind == 's') line(string, s);
		else line(number, s);
		std::getchar();
	}
	return 0;
}
