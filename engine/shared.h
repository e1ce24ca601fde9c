// Shared between the model (which never sees tok3n) and the harness (which does).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace vh {

using u64 = std::uint64_t;
using i64 = std::int64_t;
// codes from here on are floating elements that are no integers (harness.h, from_code)
constexpr i64 odd_element = i64(1) << 42;

// ---- content digests: the same arithmetic in the model and in the instrumented user functions ----
constexpr u64 mix(u64 h, u64 x)
{
	h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
	h *= 0xff51afd7ed558ccdull;
	return h ^ (h >> 29);
}
enum Tag : u64 { T_SPAN = 1, T_OPT, T_VEC, T_ARR, T_TUP, T_VAR, T_PAIR, T_OBJ, T_INT, T_STR, T_FN, T_INTO };

constexpr bool predicate(u64 k, u64 d) { return mix(k * 77 + 5, d) % 3 != 0; } // content-dependent filter
constexpr bool void_predicate(u64 k) { return k % 2 == 1; }

// ---- one evaluation as reported by the code under test ----
struct Out
{
	bool ok = false;
	bool threw = false;
	i64 throw_id = 0;
	std::size_t rem_off = 0, rem_len = 0;
	bool rem_bad = false;
	std::string value; // canonical form, "v" for valueless
	std::string trace; // calls of user functions
};

struct ElemOps
{
	const char* name;
	std::size_t size;
	void (*fill)(void* dst, const i64* codes, std::size_t n);
	bool (*same)(const void* p, const i64* codes, std::size_t n);
};

struct ConstCase // a compile-time evaluation to be compared with the run-time one
{
	std::vector<i64> input;
	bool ok; std::size_t rem; u64 digest;
	bool look_ok; std::size_t look_rem;
};

struct Prog
{
	const char* id;
	const char* ast;   // normalised reading
	const char* raw;   // literal reading (language only) or nullptr
	const char* type;  // expected type descriptor
	std::string (*actual_type)();
	const ElemOps* elem;
	void (*parse)(const void*, std::size_t, Out&);
	void (*look)(const void*, std::size_t, Out&);
	std::vector<ConstCase> (*consts)();
	u64 (*digest)(const void*, std::size_t); // run-time content digest of a successful value
	// forms: alternative input forms; each writes an Out whose offsets are relative to that form's own buffer
	int nforms;
	const char* (*form_name)(int);
	bool (*form)(int, const i64*, std::size_t, bool look, Out&); // false = not applicable to this content
	int flags;
};

extern const Prog progs[];
extern const int nprogs;
extern const char* const rules_text; // custom parser definitions of this unit

// run-time context
struct Ctx
{
	const char* base = nullptr;
	std::size_t n = 0, elem = 1;
	std::string* trace = nullptr;
	i64 throw_at = 0; // 1-based index of the user call that throws; 0 = never
	i64 calls = 0;
	std::size_t slack = 0; // text of empty pieces, which model and program may spell differently
};
extern thread_local Ctx ctx;
extern thread_local i64 live; // instrumented objects alive
struct Injected { i64 id; };

} // namespace vh
