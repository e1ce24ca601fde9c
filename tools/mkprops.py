#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay reviewable)."""
import json, os
D = "include/k3/tok3n/detail/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Element matchers accept exactly the inputs they spell",
 "A literal-sequence matcher succeeds exactly when the input starts with all of its elements in order and consumes exactly them; a set matcher succeeds exactly when the first element is (or, negated, is not) in the set and consumes exactly one; an anything-matcher consumes one element of any non-empty input and an epsilon consumes nothing and always succeeds. "
 "This holds for every element type and element value (embedded null, negative and high values, both zeros of a floating type included), every literal length and every set size, whichever order or multiplicity the set was spelled with and whichever of the equivalent notations built it. "
 "The value produced is the matched piece of the input itself.",
 ["inputs", "programs"],
 "every literal/set over char, wchar_t, char8/16/32_t, signed/unsigned char, bool, integers, floating-point numbers, enums and structs, of any length/size, in every notation; every input of any length",
 "The tests use half a dozen fixed short literals (abc, xyz, ...) and a few inputs; sets larger than a handful, bytes >= 0x80, embedded nulls, duplicates and long literals are never tried.",
 ["include/k3/tok3n/basic.h", D+"static_array.h", D+"parsers/basic_base.h", D+"parsers/any_of.h", D+"parsers/none_of.h", D+"parsers/all_of.h", D+"parsers/anything.h", D+"parsers/epsilon.h"],
 [("sets are sorted and de-duplicated at compile time", D+"static_array.h sort_and_unique"), ("one failure test and fixed length shared by parse and lookahead", D+"parsers/basic_base.h"), ("literal operators and variable templates", "include/k3/tok3n/basic.h")],
 ["parse() result of a basic parser"])

prop("C02", "A sequence runs its parts in order and yields exactly their values",
 "A sequence succeeds exactly when each of its parts, parsed in turn where the previous one stopped, succeeds, and it consumes precisely what they consumed; if any part fails, the whole fails. "
 "Its value holds the value of every part that has one, in order and none lost, swapped or invented: valueless parts leave no trace, a single remaining value is handed over bare, several form a tuple, none makes the sequence valueless. "
 "This holds for any number of parts, of any kinds, and however the sequence was grouped.",
 ["programs", "inputs"],
 "every sequence of any length of arbitrary (nested, valueless, optional, repeated, transformed) parts, and every input, including those failing at any part after any amount was consumed",
 "Tests check a few two- and three-part sequences on fixed inputs; positions of valueless parts, wide sequences, nested backtracking and value slots are combinatorial.",
 [D+"parsers/sequence.h", D+"helpers.h", D+"filter.h", D+"operators/sequence.h"],
 [("short-circuit fold over the parts with a slot per value", D+"parsers/sequence.h parse"), ("computation of value slots, skipping valueless parts", D+"filter.h filter_out_void"), ("unwrapping of a single value", D+"type_traits.h unwrap_if_single")],
 ["parse() of P1 >> P2 >> ..."])

prop("C03", "A choice takes the first alternative that matches, and labels its value right",
 "A choice tries its alternatives in order from the same starting point and gives the outcome of the first that succeeds, exactly as that alternative alone would have produced it there; it fails exactly when all fail. "
 "Its value type has one case per distinct value type in order of first appearance (bare when there is only one), the value of the alternative taken sits in the case of its own type, and an alternative without a value yields the default of the value type. "
 "This holds for any number of alternatives, any mix of repeated, distinct and absent value types, and any grouping.",
 ["programs", "inputs"],
 "every choice of any width over alternatives with any pattern of equal/distinct/absent value types, every input including those where earlier alternatives consume a long prefix before failing",
 "Tests use two or three alternatives; the type-pattern space (which alternatives share a type, where the valueless ones sit) is combinatorial and a defect in it was found here.",
 [D+"parsers/choice.h", D+"helpers.h", D+"filter.h", D+"operators/choice.h", D+"operators/epsilon.h"],
 [("short-circuit fold over alternatives on an unchanged input", D+"parsers/choice.h parse"), ("de-duplicated case list and the case index of each alternative", D+"filter.h filter_out_void_deduplicate")],
 ["parse() of P1 | P2 | ..."])

prop("C04", "Repetitions are greedy, count exactly and keep every value in order",
 "Optional, one-or-more and zero-or-more repetition take as many consecutive matches as there are (up to one for optional) and stop just after the last full match; one-or-more fails only with no match at all, the other two never fail; a fixed-count repetition succeeds exactly when that many matches follow one another and takes no more. "
 "The value has one entry per match, in input order, each exactly what the repeated parser produces at that point; an unmatched optional is empty, and repeating something valueless is valueless.",
 ["programs", "inputs"],
 "every repetition of every non-nullable parser, every count from 0 to thousands, every way the last attempt can fail part-way",
 "Tests stop at a handful of repetitions of single-element parsers on fixed inputs; partial last matches, nested repetitions and large counts are not sampled.",
 [D+"parsers/maybe.h", D+"parsers/exactly.h", D+"parsers/one_or_more.h", D+"parsers/zero_or_more.h", D+"modifiers/exactly.h"],
 [("loops that advance only on success and append the value", D+"parsers/one_or_more.h, zero_or_more.h, exactly.h"), ("append / array slot assignment", D+"helpers.h result_builder")],
 ["parse() of ~P, +P, *P, exactly<N>(P)"])

prop("C05", "A delimited list equals element (delimiter element)*, losing nothing",
 "A delimited list accepts exactly what 'element, then any number of delimiter-element pairs' accepts: it fails without a first element and never consumes a delimiter that is not followed by an element. "
 "Its value lists all elements in order; the delimiter-keeping form additionally lists exactly the delimiters standing between kept elements (always one fewer than elements), and where one side has no value only the other side's list is given.",
 ["programs", "inputs"],
 "every element and delimiter parser (valued or not, multi-element, sharing prefixes), every list length, trailing/doubled/partial delimiters",
 "Tests use comma lists of short fixed words; trailing partial delimiters, delimiters that share a prefix with elements and valueless combinations are sampled once if at all.",
 [D+"parsers/delimit.h", D+"modifiers/delimit.h", D+"modifiers/delimit_keep.h"],
 [("loop that commits the delimiter only once the next element matched", D+"parsers/delimit.h parse")],
 ["parse() of P % delimit(D), P % delimit_keep(D)"])

prop("C06", "Join yields the contiguous whole, and fails when the pieces have gaps",
 "Joining a parser succeeds exactly when the parser does and the non-empty pieces of its (arbitrarily nested) value, in order, are adjacent in the input; its value is then the single piece of input from the first of them to the last, and the same remains as without the join. "
 "Empty or absent pieces never matter, a value with nothing in it joins to an empty piece, and a gap anywhere fails the parse even when the pieces have other coincidences of size or content. "
 "The result is the same whichever parser is inside, for elements of any size, at run time and compile time.",
 ["programs", "inputs"],
 "every joinable nesting of sequences, repetitions, optionals, arrays and pieces moved or shortened by transformations, every element type, every input",
 "Tests join a few fixed shapes; the position of an empty piece or a gap inside a nested value and the element size are dimensions they do not vary; specialised fast paths are compared with nothing.",
 [D+"parsers/join.h", D+"optimizations/join_exactly_basic.h", D+"optimizations/join_maybe_basic.h", D+"optimizations/join_one_or_more_basic.h", D+"optimizations/join_zero_or_more_basic.h", D+"modifiers/join.h"],
 [("recursive adjacency walk", D+"parsers/join.h join_executor"), ("specialised joins of repeated basic parsers", D+"optimizations/*.h")],
 ["parse() of join(P)"])

prop("C07", "Ignore and complete change only what they say",
 "Ignoring a parser drops its value and nothing else: it matches where the parser's lookahead matches, consumes the same, and runs none of the user's functions inside. "
 "Completing a parser keeps its value and outcome exactly, except that it fails when the parser leaves any input over, however far inside a larger grammar it is placed. "
 "Applying either twice is the same as once.",
 ["programs", "inputs"],
 "every parser under ignore/complete, alone and embedded anywhere in larger parsers, every input with and without leftovers",
 "Tests wrap literals only; the interaction with nested backtracking, values and leftovers is not sampled.",
 [D+"parsers/ignore.h", D+"parsers/complete.h", D+"modifiers/ignore.h", D+"modifiers/complete.h"],
 [("ignore parses by lookahead", D+"parsers/ignore.h"), ("complete rejects a non-empty rest", D+"parsers/complete.h")],
 ["parse() of ignore(P), complete(P)"])

prop("C08", "User functions run once per match, on exactly the matched value",
 "A mapped parser consumes exactly what its inner parser does, calls the function once per inner success with that value (no argument if valueless, the unpacked parts for the apply forms) and never on failure, and yields exactly what the function returned; construction, constant and default forms are the same with the constructor, the constant or the default. "
 "A filtered parser calls its predicate once on the unmodified value and succeeds, with that value intact, exactly when the predicate agrees. "
 "This is so wherever the parser stands in a grammar, valueless parts included, so the calls made are exactly those of the parse attempts made, in order.",
 ["programs", "inputs", "histories"],
 "every map/filter/apply/apply_filter/into/apply_into/constant/defaulted over every inner parser, nested anywhere, every input; the whole call history is compared",
 "Tests check results of single modifiers on fixed inputs and never the call history; a defect (valueless filters and maps skipped inside sequences and choices) was found here.",
 [D+"parsers/map.h", D+"parsers/filter.h", D+"functions.h", D+"apply.h", D+"aliases/*.h", D+"modifiers/map.h", D+"modifiers/filter.h", D+"modifiers/apply.h", D+"modifiers/apply_filter.h", D+"modifiers/apply_into.h", D+"modifiers/into.h", D+"modifiers/constant.h", D+"modifiers/defaulted.h", D+"helpers.h"],
 [("invoke on the moved value after inner success", D+"parsers/map.h parse"), ("invoke on a const view of the value", D+"parsers/filter.h parse"), ("valueless parts are parsed too", D+"helpers.h compound_executor")],
 ["calls observed by instrumented functions; parse() result"])

prop("C09", "Naming is invisible and substitution hits exactly the named parts",
 "Naming a parser changes nothing about how it parses. "
 "Substituting a modifier for a name gives a parser that behaves exactly like the grammar in which every part bearing that name, at any depth and every occurrence, had been written with that modifier applied, and every other part had been left as it was. "
 "Several substitutions given together behave as if given one after the other.",
 ["programs", "inputs"],
 "every grammar with names placed anywhere (nested, repeated, same and different names), every list of substitutions, every input",
 "Tests substitute into small fixed expressions and compare types; depth, occurrence and name-similarity are combinatorial.",
 [D+"parsers/named.h", D+"modifiers/name.h", D+"modifiers/sub.h", D+"substitution.h"],
 [("recursive rewriting of the grammar type", D+"modifiers/sub.h substitute_one")],
 ["parse()/lookahead() of the substituted parser against the hand-written one"])

prop("C10", "Modifier notation and grouping never change the parser",
 "Applying a modifier as a call or with the infix operator gives parsers with identical behaviour, and so does any grouping of a chain of modifiers, including chains combined first and applied, stored or reused later. "
 "Modifiers apply strictly left to right: each acts on the result of those before it.",
 ["programs", "inputs"],
 "every chain of modifiers (parameterised ones included) of any length, every bracketing and mix of call and infix forms, on every parser, every input",
 "Tests bracket two- and three-modifier chains; the number of groupings grows exponentially with length and mixes with every modifier kind.",
 [D+"operators/modifier.h", D+"modifiers/multi.h", D+"modifier.h", "include/k3/tok3n/modifiers.h"],
 [("modifier composition by concatenation", D+"operators/modifier.h modifier_operator"), ("left fold on application", D+"modifiers/multi.h")],
 ["parse()/lookahead() of differently grouped expressions"])

prop("C11", "Operator simplifications preserve the language",
 "Whatever the operators simplify while an expression is being built (merging adjacent literals, uniting, intersecting, subtracting or complementing element sets, flattening sequences and choices, collapsing nested repetitions, dropping a repeated alternative), the resulting parser accepts exactly the same inputs and leaves the same remainder as the expression read literally, and its value is that of the documented simplified form. "
 "Complementing a set twice gives the set back, and a set or its complement in a choice with another matches exactly the elements either of them matches.",
 ["programs", "inputs"],
 "every expression built from set, sequence, choice and repetition operators, with sets overlapping in every way (equal, disjoint, nested, interleaved, empty, full), every input; single-element inputs exhaustively",
 "Tests check the rewritten type for one or two fixed overlaps per rule and never run the unsimplified reading; the overlap patterns of two sorted sets are combinatorial.",
 [D+"operators/choice.h", D+"operators/sequence.h", D+"operators/not.h", D+"operators/maybe.h", D+"operators/one_or_more.h", D+"operators/zero_or_more.h", D+"set_operations.h"],
 [("sorted-merge set operations", D+"set_operations.h set_operation"), ("operator overloads with rewriting", D+"operators/*.h")],
 ["parse()/lookahead() of the built parser"])

prop("C12", "Lookahead answers exactly whether and where parsing would stop",
 "For every parser and input, looking ahead succeeds exactly when parsing would and leaves the same remainder, except that checks which depend on the produced value (filter predicates and joins over gaps) are taken as passed. "
 "It produces no value and runs none of the user's functions.",
 ["programs", "inputs"],
 "every parser, every input; both entry points compared with each other and with the model",
 "Every combinator implements its matching logic twice, once per entry point; the tests compare the two on a few fixed inputs per combinator.",
 [D+"parsers/*.h", D+"optimizations/*.h", D+"helpers.h"],
 [("separate lookahead implementation in every combinator", D+"parsers/*.h lookahead")],
 ["lookahead() against parse()"])

prop("C13", "Parsing reads only its input and leaves a failed input whole",
 "A failed parse or lookahead reports as remaining the complete, unconsumed input, at any depth of partial progress; a successful one reports a suffix of the input, so that consumed plus remaining is the input. "
 "Every piece of input in a value points into the caller's own buffer (no copy) at the place it was matched, nothing outside the given range is ever read, and the outcome does not depend on where the range lies or what surrounds it.",
 ["programs", "inputs"],
 "every parser, every input at every placement (mid-buffer with misleading surroundings, flush against inaccessible memory on either side, exact-size heap blocks under sanitizers), empty inputs included",
 "Tests run on null-terminated literals, where reading one too far is harmless and invisible, and check remaining() on a few fixed failures.",
 [D+"parsers/basic_base.h", D+"parsers/*.h", D+"span.h", D+"result.h", D+"optimizations/*.h"],
 [("bounds test before every access", D+"parsers/all_of.h, any_of.h, none_of.h failure_condition"), ("failure results carry the original input", D+"parsers/*.h parse")],
 ["remaining(), span data()/size(), memory faults"])

prop("C14", "Parsing at compile time and at run time gives the same result",
 "For every parser (with compile-time-usable user functions) and every input, parsing and looking ahead are usable in constant expressions and yield the same success, remainder and value there as at run time. "
 "This holds with each supported compiler and at every optimisation level.",
 ["programs", "inputs", "configurations"],
 "every parser expression, every input, evaluated in a constant expression and at run time, with g++ and clang++ at -O0..-O2",
 "The test suite evaluates the same fixed cases in both modes; code that asks which mode it is in can differ on any other case.",
 ["include/k3/tok3n.h", D+"parsers/*.h", D+"parsers/join.h", D+"result.h", D+"span.h", "README.md"],
 [("everything is constexpr", D+"parsers/*.h"), ("mode-dependent adjacency test", D+"parsers/join.h try_join")],
 ["constexpr result against run-time result and model"])

prop("C15", "The same elements parse the same from any kind of input",
 "Parsing gives the same outcome for the same elements whether they are passed as a string literal, a pointer to constant null-terminated characters, a string, a string view, a vector, an array, a C array, a standard span, a user-defined contiguous range or the remainder of an earlier parse, const or not, and whether the elements are of the parser's own element type or of another comparable one. "
 "A literal contributes all its characters but the terminator (embedded nulls included); values and remainders have the input's element type and refer to the input.",
 ["inputs", "configurations"],
 "every input form, every supported element type and every pair of differing-but-comparable parser/input element types, every content including embedded nulls and empty inputs",
 "Tests cover one or two forms with fixed contents; the embedded-null truncation found here was invisible to them.",
 [D+"span.h", D+"parser.h", D+"parsers/basic_base.h", D+"static_array.h"],
 [("input view constructors and deduction guides", D+"span.h"), ("element type of the input carried into results", D+"span.h input_value_t")],
 ["parse()/lookahead() over each input form"])

prop("C16", "User-defined and recursive parsers behave as their definition",
 "A user-defined parser behaves, wherever it is used, exactly like the grammar it returns, with the value converted to its declared value type when it declares one: success stays success with the converted value, and failure stays failure whatever that type is. "
 "Directly and mutually recursive definitions parse every input by that definition, to any nesting depth the stack allows.",
 ["programs", "inputs"],
 "every user-defined parser with or without a declared value type (views, strings, optionals, booleans, variants, user types), every guarded recursive grammar, every input and nesting depth",
 "Tests have a few fixed user-defined parsers and two recursive samples; converting failed results was never checked (a defect was found here).",
 [D+"parsers/custom.h", D+"result.h"],
 [("delegation to the returned grammar and result conversion", D+"parsers/custom.h parse"), ("result converting constructors", D+"result.h")],
 ["parse()/lookahead() of custom parsers"])

prop("C17", "Values are moved intact: never lost, duplicated, leaked or left moved-from",
 "Every value a user function or constructor produces arrives in the final result exactly once and unspoiled, through any nesting of combinators; move-only and copy-only values work wherever nothing needs more of them, and none is handed on after being moved from. "
 "Values of abandoned attempts are destroyed: after a parse and destruction of its result nothing created is still alive, nothing is destroyed twice, and this also holds when a user function throws at any point, in which case that very exception reaches the caller and later parses are unaffected.",
 ["programs", "inputs", "fault_sequences"],
 "every grammar over instrumented value types (copyable, move-only, copy-only, heap-owning), every input, an exception injected at every user call in turn",
 "Tests have a few move-only/copy-only compile checks; no test counts live objects, checks moved-from state or throws.",
 [D+"helpers.h", D+"result.h", D+"parsers/map.h", D+"parsers/filter.h", D+"parsers/delimit.h", D+"parsers/exactly.h", D+"functions.h"],
 [("moves out of element results into the builder", D+"helpers.h result_builder"), ("success constructors for moved and copied values", D+"result.h")],
 ["instrumented value types; exceptions"])

prop("C18", "Result and span objects obey value semantics under any use",
 "A result object is either a failure or a success with its value plus the remaining input, and agrees with itself however asked: truth value, has-value query, dereference and checked access, which throws on failure. "
 "A default-constructed result is a failure with nothing remaining; copies, moves, assignments and conversions carry success, value and remainder over faithfully and leave copied-from objects unchanged. "
 "Spans of input compare equal exactly when their elements do, with spans of any comparable element type and with ranges, arrays and strings of their own, and report size, bounds, first element and sub-ranges consistently.",
 ["histories", "inputs"],
 "every history of constructing, copying, moving, assigning, converting and querying results (valued and valueless) and spans, over every content",
 "Tests construct a handful of fixed results; histories are unbounded and an uninitialised default state was found here.",
 [D+"result.h", D+"span.h"],
 [("optional-backed value and stored remainder", D+"result.h"), ("element-wise comparison", D+"span.h span_equal_to")],
 ["public operations of results and spans"])

prop("C19", "The shipped example grammars accept and decode their languages",
 "The JSON example accepts every well-formed JSON document of the kind it describes and decodes it to the same structure and literal text an independent JSON reader sees, and rejects or stops at the first error otherwise. "
 "The arithmetic example accepts exactly its published grammar and its evaluation equals the mathematical value under that grammar's precedence and associativity.",
 ["inputs"],
 "every JSON document and every arithmetic expression, with any nesting, whitespace and number format, and every single-edit corruption of them",
 "The examples have no tests at all beyond one or two sample calls in main().",
 ["examples/json/json.cpp", "examples/algebraic/parser.h", "examples/algebraic/evaluate.h", "include/k3/tok3n.h"],
 [("grammars built from the library's combinators", "examples/json/json.cpp, examples/algebraic/parser.h"), ("evaluation by recursive descent", "examples/algebraic/evaluate.h")],
 ["parse results of the example grammars; evaluate()"])

prop("C20", "Well-formed parser expressions compile, ill-formed ones are refused",
 "Every composition of operators and modifiers within the documented rules is accepted by the compiler and has the documented value type for every comparable input element type. "
 "Compositions outside them are refused at compile time: in a way code can test for when parsers of different element types are combined (by sequence, choice or either delimited list, in any notation), anything but an element set is complemented, an untyped epsilon stands before other alternatives, the input's elements are not comparable with the parser's, or an operand is no parser or no modifier (a type of the user's own that lacks one of the requirements included); and a fixed count of zero, "
 "a function or predicate that does not fit the value, a join of what is not made of pieces of the input, an input that is no contiguous range, or a user-defined parser without a parser of its own element type never compiles.",
 ["programs", "configurations"],
 "every well-typed expression (by the generator's own type rules), every single-step ill-formed composition of generated operands, and user-defined types in every place of a parser or modifier",
 "Tests probe a fixed table of operand kinds; nested and mixed operands and the resulting value types are not enumerated.",
 [D+"parser.h", D+"operators/*.h", D+"modifiers/*.h", D+"type_traits.h", D+"filter.h"],
 [("concept-constrained operators", D+"parser.h parser_compatible_with; " + D + "operators/not.h; " + D + "operators/epsilon.h"), ("value-type computation", D+"helpers.h compound_trait")],
 ["compiler verdicts; value types of results"])

prop("C21", "Parsing is a pure function of the parser and the input",
 "Parsing or looking ahead with the same parser over the same elements gives the same outcome every time: regardless of what was parsed before, with which parsers, in what order, how often, or from how many threads at once. "
 "Neither the input nor the parser is ever modified.",
 ["histories", "schedules", "inputs"],
 "every history and interleaving of parses by many parsers over many inputs, in one thread and concurrently",
 "Each test parses once in a fresh expression; no test repeats, reorders or overlaps parses.",
 [D+"parsers/*.h", D+"helpers.h", "include/k3/tok3n/basic.h"],
 [("parsers are empty, all state is local to the call", D+"parser.h parser concept; " + D + "parsers/*.h")],
 ["parse()/lookahead() results over histories"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
