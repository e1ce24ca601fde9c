// C19: reads length-prefixed expressions, prints what the shipped arithmetic grammar and evaluator make of each.
#include "examples/algebraic/parser.h"
#include "examples/algebraic/evaluate.h"
#include <cstdio>
#include <memory>
#include <string>
int main()
{
	std::setvbuf(stdout, nullptr, _IOLBF, 1 << 16); // what was answered before a crash has to arrive
	char kind; unsigned long n;
	while (std::scanf("%c%lu", &kind, &n) == 2)
	{
		std::getchar();
		std::unique_ptr<char[]> b(new char[n]);
		if (n && std::fread(b.get(), 1, n, stdin) != n) return 3;
		std::string_view s(b.get(), n);
		auto out = [&](const auto& r, const auto& l)
		{
			std::printf("%s %zu %s %zu ", r ? "ok" : "no", r.remaining().size(), l ? "ok" : "no", l.remaining().size());
			if (r) { try { std::printf("%.17g", evaluate(*r)); } catch (...) { std::printf("throw"); } }
			std::puts("");
		};
		if (kind == 'i') out(input::parse(s), input::lookahead(s));
		else out(expr::parse(s), expr::lookahead(s));
		std::getchar();
	}
	return 0;
}
