#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json"""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GEN = 'generated grammars and inputs against a reference model'
T = {
 'C01': ('property-based testing: generated matchers, reference model', 'matchers of 12 element types, literals to 200 elements, sets to 200 elements, every single element of small domains; inputs random around the spelled elements'),
 'C02': (GEN, 'grammars to about 40 nodes and sequences to about 12 parts; inputs sampled from the grammar and mutated'),
 'C03': (GEN, 'choices to about 12 alternatives over all short patterns of equal/distinct/absent value types; larger patterns sampled'),
 'C04': (GEN, 'counts to thousands on long inputs, nested repetitions; inputs to about 20 000 elements'),
 'C05': (GEN, 'element and delimiter parsers to about 20 nodes, lists to hundreds of elements'),
 'C06': (GEN, 'value shapes to depth 5, pieces moved, shortened or emptied by transformations; element sizes 1 to 8 bytes'),
 'C07': (GEN + ', call histories compared', 'as C02'),
 'C08': (GEN + ', complete call histories compared', 'as C02; the history of calls with arguments is compared call by call'),
 'C09': ('metamorphic and model-based: generated grammars with names and substitutions', 'names at any depth, up to four substitutions of up to three modifiers'),
 'C10': ('metamorphic and model-based: generated bracketings and notations of modifier chains', 'chains to about seven modifiers, bracketings sampled'),
 'C11': ('differential: simplified expression against its literal reading in the model', 'sets over small alphabets in every overlap, single elements exhaustively, expressions to about 25 nodes'),
 'C12': ('metamorphic: lookahead against parse, and both against the model', 'as C02'),
 'C13': (GEN + ' under guard pages and sanitizers', 'inputs flush against inaccessible pages, in exact heap blocks under ASan/UBSan, between misleading neighbours'),
 'C14': ('differential: generated constant evaluations against run time and model, g++ and clang++', 'excludes value types whose moves g++ 13 or clang 18 with libstdc++ 13 cannot evaluate at compile time'),
 'C15': ('metamorphic: the same elements through generated input forms', 'up to 19 forms; 16 pairs of different element types'),
 'C16': (GEN + ', generated (mutually) recursive parsers', 'recursion to depth 400 (120 under sanitizers); one compile-time refusal is recorded as finding K1 and not generated'),
 'C17': ('property-based testing with exception injection at every user call, instrumented values', 'an exception at each call in turn; throws only from user functions and constructors'),
 'C18': ('stateful model-based testing of result and span histories', 'histories to 40 operations over 13 results or 6 spans, 28 kinds of value'),
 'C19': ('differential: example grammars against independent readers on generated documents', 'documents to a few hundred characters; number literals to 25 digits, exponents to 260; values compared within a rounding bound'),
 'C20': ('generated compositions judged by the compilers', 'accepted: expressions to about 50 nodes; refused: one ill-formed step over generated operands'),
 'C21': ('stateful testing: random histories and six concurrent threads against first outcomes, ThreadSanitizer', 'schedules are those the machine produces'),
}
props = [json.loads(l)['id'] for l in open(os.path.join(root, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --setup',
         checks=[dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='python3 check.py %s --tier thorough' % p, technique=T[p][0], level='exploration', level_note=T[p][1]) for p in props],
         not_applicable=[],
         notes='No hooks in /repo are needed: the library is header-only and everything is observed through its public interface. Every check compiles generated programs against /repo/include of the working tree.')
json.dump(m, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
