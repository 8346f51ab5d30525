#!/usr/bin/env python3-vt
"""writes properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from props import PROPS
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


prop('C01', 'A scoped value lookup yields the value of the innermost enclosing scope',
     'After any history of setting values for non-empty scopes that nest or are disjoint, a lookup at a step yields the value set last for the innermost of the scopes that contain the step, or the default if no scope contains it. A lookup by exact scope yields the value set last for exactly that scope or the default. Neither depends on the order in which the scopes were defined.',
     ['histories', 'inputs'], 'every history of definitions with nesting scopes, every step and every scope asked for',
     'the tests compare a few fixed and 1000-step random histories; the linking of the scopes in the inverted tree depends on the order and shape of the whole history',
     ['src/scope.hpp'], [('ScopedInstance::set/get/getThis', 'src/scope.hpp'), ('ScopedUpValueInvTree', 'src/scope.hpp')],
     [('inverted tree', 'each scope entry links to the smallest scope containing it'), ('end map', 'scope end -> innermost entry ending there')])
prop('C02', 'A scoped map keeps every definition apart by key and by scope',
     'After any history of definitions of keys in non-empty nesting scopes, a lookup of a key at a step yields the value of the innermost scope containing the step in which that key was defined, or the default value; definitions of other keys and other scopes never influence the result. A second definition of the same key in the same scope is refused and reported, and the first value stays; the get-or-set variant returns the existing value or stores the new one and returns the default value.',
     ['histories', 'inputs'], 'every history of definitions over all keys and nesting scopes, every key and step asked for',
     'random tests sample shallow hierarchies; the property depends on how arbitrary many definitions of a key are linked over all insertion orders',
     ['src/scope.hpp'], [('ScopedMap::set/getOrSet/get/getDef', 'src/scope.hpp'), ('ScopedUpValueInvTree::insertUpValue/linkLeftNeighbours/rightNeighborUpLink', 'src/scope.hpp')])
prop('C03', 'Scoped relations: the innermost definition wins, no silent overwrite',
     'The relations of an item at a step list every related item visible there that has a definition with a tag in the selected set exactly once, with value, weight and tag of the first such definition in the innermost scope, inner scopes before outer ones. Defining the same relation with the same tag in the same scope again is ignored if the value is equal and refused with an error if it differs, a tag outside 1..32 or a negative weight is refused, and a refused definition changes nothing.',
     ['histories', 'inputs'], 'every history of relation definitions, every step, item and tag selection',
     'the tests define few relations per item and mostly one tag; list and scope linking interact over the whole history',
     ['src/scope.hpp'], [('ScopedRelationMap::set/get', 'src/scope.hpp')])
prop('C04', 'Tag sets contain exactly the tags put into them',
     'A tag set built from a set and any tags from 1 to 32 contains exactly the tags of the set and the tags added, combining never changes the operands, and a tag outside this range is refused with an error. A set matches a tag if and only if it contains it, for all 32 tags.',
     ['inputs'], 'every 32 bit set and every tag value',
     'the tests use the first few tags only and one way to build a set',
     ['src/scope.hpp'], [('TagMask', 'src/scope.hpp')])
prop('C05', 'Identifier map: one identifier per string, and back',
     'Every distinct string gets its own identifier, the same string always gets the same one, and asking for the string of an identifier yields the string it was created for, for any history of requests. A lookup without creating yields the identifier of a known string and none for an unknown one, and changes nothing.',
     ['histories', 'inputs'], 'every sequence of strings of at most 65531 bytes',
     'the random test inserts short strings; long strings, embedded zeros, prefixes and buffer growth are not reached',
     ['src/identmap.hpp'], [('IdentMap::get/lookup/inv', 'src/identmap.hpp')])
prop('C06', 'Type handles: definitions stay what they were defined as',
     'Every type definition that is accepted gets a new handle, and name, context, parameters and constructor asked for with this handle are forever the ones it was defined with, whatever is defined afterwards. Lookup by scope step, context and name yields the definition of the innermost scope; a definition with the same name, context, scope and parameters as an existing one, or with the name of a synonym in the same scope and context, is refused, and handles that do not denote a type are refused with an error.',
     ['histories', 'inputs'], 'every history of type definitions and every query',
     'the tests define a small fixed set of types; aliases, overloads and invalid handles in combination are not reached',
     ['src/typedb.cpp', 'src/typedb.hpp'], [('TypeDatabase::defineType/defineTypeAs/getType/typeToString', 'src/typedb.cpp')])
prop('C07', 'Type derivation yields a cheapest path of visible reductions or reports none',
     'A derivation path between two types consists of reductions that are visible at the step and selected by the tags, is cycle free, connects the two types, and no other such path has a smaller weight sum. If there is no such path then the result says so, and if a second path of the same weight exists it is reported as the alternative.',
     ['histories', 'inputs'], 'every set of reductions, scopes, tags and weights and every pair of types',
     'tests check a handful of graphs',
     ['src/typedb.cpp'], [('TypeDatabase::deriveType', 'src/typedb.cpp'), ('ReduStack', 'src/typedb.cpp')])
prop('C08', 'Type resolution finds the items of the nearest context or reports ambiguity',
     'Resolving a name from a context yields exactly the items with that name of the context type reachable with the smallest weight sum over selected visible reductions, together with a reduction path that leads to this context. If a second path of the same smallest weight leads to a context type that has the name, the ambiguity is reported with this context type; if none has the name, nothing is found.',
     ['histories', 'inputs'], 'every set of types, reductions and names',
     'tests resolve names in few graphs without ties',
     ['src/typedb.cpp'], [('TypeDatabase::resolveType', 'src/typedb.cpp')])
prop('C09', 'The lexer always takes the longest match and consumes the whole input',
     'For every set of lexeme definitions and every source the token at a position is a longest match among all definitions that match there (the first definition of those with this length, a keyword before patterns), comments are skipped, ignored lexemes are consumed without a token, and a character where nothing matches is reported as bad lexeme. Tokens, comments, ignored text and spaces follow the source from begin to end without gaps and overlaps, and lexing any input ends. A lexer rebuilt from the definitions of another one yields the same tokens.',
     ['inputs', 'configurations'], 'every lexer configuration and every source text',
     'tests tokenise well formed sources of a few languages',
     ['src/lexer.cpp', 'src/lexer.hpp'], [('Lexer::next', 'src/lexer.cpp'), ('Scanner::match', 'src/lexer.cpp')])
prop('C10', 'The source scanner never leaves its buffer and counts lines correctly',
     'Whatever the source is, scanning reads only bytes of the buffer including the terminating zero, the line number reported for a token is one more than the number of line ends before it, and skipping spaces stops at the first non space character.',
     ['inputs'], 'every zero terminated source', 'tests scan well formed sources only; unterminated or truncated input at the buffer end is not reached',
     ['src/lexer.cpp', 'src/lexer.hpp'], [('Scanner', 'src/lexer.hpp')])
prop('C11', 'Packed parser tables denote exactly the actions they were built from',
     'Packing any action, goto or call key or value with fields inside the documented limits into its integer and unpacking it gives back the same fields, different ones never share an integer, and the integer is positive unless all is zero.',
     ['inputs'], 'every combination of field values inside the limits', 'the tests only pack small states and symbols',
     ['src/automaton.hpp'], [('Automaton::ActionKey/Action/GotoKey/Goto packed/unpack', 'src/automaton.hpp')])
prop('C12', 'Transition items and priorities survive packing and order correctly',
     'Packing a grammar item (production, position, lookahead) or a priority with associativity inside the limits and unpacking gives back the same fields; items are ordered like their fields and two different items or priorities are never equal.',
     ['inputs'], 'every combination of field values inside the limits', 'the tests only use small grammars',
     ['src/automaton_structs.hpp'], [('TransitionItem', 'src/automaton_structs.hpp'), ('Priority', 'src/automaton_structs.hpp')])
prop('C13', 'The sorted set of the automaton generator is a set',
     'After any history of insertions, unions, assignments and copies a sorted set iterates exactly the elements inserted, each once, in ascending order; insertion reports whether the element was new; two sets are equal if and only if they have the same elements; a copy or assignment holds exactly the elements of its source.',
     ['histories', 'inputs'], 'every history of operations', 'the tests use it indirectly in building few automata',
     ['src/automaton_structs.hpp'], [('FlatSet', 'src/automaton_structs.hpp')])
prop('C14', 'Shift/reduce and reduce/reduce conflicts are resolved by priority or reported',
     'Each entry of the action table is an action demanded by the grammar for this state and lookahead. If the grammar demands a shift and a reduction and the productions of both carry a priority, the higher priority is chosen and for equal priority with equal associativity the associativity decides (left: reduce, right: shift). In all other cases, and for every pair of different reductions or of a reduction and the accept, a conflict is reported as an error. A reduction outdone by the shift on the same token counts as decided, also if the shift is outdone by another reduction. No conflict is resolved silently in another way.',
     ['inputs', 'programs'], 'every grammar inside the limits', 'tests build the automata of a dozen grammars',
     ['src/automaton.cpp'], [('insertAction', 'src/automaton.cpp'), ('Automaton::build', 'src/automaton.cpp')])
prop('C15', 'Generated parsers accept exactly the sentences of their grammar',
     'For each grammar the generator accepts without conflict, the tables accept a sequence of terminals if and only if the grammar derives it, and the sequence of reductions of an accepted input is the reversed rightmost derivation.',
     ['programs', 'inputs'], 'every accepted grammar and every token sequence', 'tests parse a few sentences of few grammars',
     ['src/automaton.cpp', 'src/automaton_parser.cpp', 'src/lua_run_compiler.cpp'], [('Automaton::build', 'src/automaton.cpp'), ('luaRunCompiler', 'src/lua_run_compiler.cpp')])
prop('C16', 'Nullable and first sets are the least solution of their equations',
     'The set of nullable nonterminals and the first sets computed for a grammar contain a nonterminal or a terminal if and only if the productions derive the empty string or a sentence starting with that terminal.',
     ['programs'], 'every grammar', 'tests compare the printed automaton of few grammars',
     ['src/automaton.cpp'], [('calculateNullables, getNonterminalFirstSets', 'src/automaton.cpp')])
prop('C17', 'Errors keep their identity across text: format and parse are inverse',
     'Each error with location and argument rendered as text and parsed again from this text yields the same error code, location and argument, and a text that is no error message is never taken for one with another code.',
     ['inputs'], 'every error code, line and argument text', 'the test tries few codes',
     ['src/error.cpp', 'src/error.hpp'], [('Error::what, parseError', 'src/error.cpp')])
prop('C18', 'Memory blocks of the buffer resource never overlap and stay inside the buffer',
     'Each block given out by the local buffer allocator has the requested alignment and size, lies entirely inside the buffer or comes from the upstream allocator, and never overlaps a block given out before, for any sequence of requests.',
     ['histories', 'inputs'], 'every sequence of allocation requests with every size and power of two alignment', 'the tests allocate small blocks through containers only',
     ['src/memory_resource.hpp'], [('monotonic_buffer_resource::do_allocate', 'src/memory_resource.hpp')])
prop('C19', 'Trees built from scope hierarchies list every item once below its parent',
     'Adding a child or sibling makes exactly that node reachable at its place, in order of insertion, and leaves all other items and links unchanged; translating a tree gives a tree of the same shape with each item translated. The scope tree of a set of definitions contains each definition once, below the smallest enclosing scope that has one.',
     ['histories', 'inputs'], 'every history of insertions', 'tests print a few trees',
     ['src/tree.hpp', 'src/scope.hpp'], [('Tree::addChild/addSibling', 'src/tree.hpp'), ('ScopeHierarchyTreeBuilder', 'src/scope.hpp')])
prop('C20', 'Automaton tables dumped to Lua and loaded again are the same tables',
     'Printing the automaton built from any grammar as Lua source yields a valid Lua table, and loading it again yields an automaton with the same language, type system and command line, the same actions, gotos, nonterminals and calls with their functions and argument values, and a lexer with the same definitions that yields the same tokens for every source.',
     ['programs'], 'every grammar: any strings in declarations and arguments of calls, any order of the definitions', 'tests compare dumps for few grammars with plain strings',
     ['src/automaton_tostring.cpp', 'src/lua_load_automaton.cpp', 'src/languagedef_tostring.cpp'], [('Automaton::tostring', 'src/automaton_tostring.cpp'), ('luaLoadAutomaton', 'src/lua_load_automaton.cpp'), ('printString', 'src/languagedef_tostring.cpp')])
prop('C21', 'UTF-8 characters are recognised as a whole',
     'The length derived from the first byte of a UTF-8 character is the length of the character for each valid first byte, exactly the bytes 0x80 to 0xBF count as continuation bytes, and a bad character reported by the lexer is the first byte with all its continuation bytes, so that lexing goes on with the next character.',
     ['inputs'], 'every byte and every text', 'tests use ASCII',
     ['src/utf8.hpp', 'src/lexer.cpp'], [('utf8charlen, utf8mid, bitScanReverse', 'src/utf8.hpp'), ('parseChar', 'src/lexer.cpp')])
prop('C22', 'Limits of the grammar are enforced and never overflow silently',
     'A grammar exceeding one of the limits of terminals, nonterminals, productions, production length, states, calls or priorities is refused with the error for this limit, and a grammar inside the limits is never refused for it; numbers in a grammar that do not fit are refused and never truncated.',
     ['programs'], 'every grammar text', 'tests do not approach the limits',
     ['src/automaton.cpp', 'src/automaton_parser.cpp'], [('Automaton::build', 'src/automaton.cpp'), ('parseLanguageDef', 'src/automaton_parser.cpp')])

prop('C23', 'The syntax tree handed to Lua mirrors the derivation of the source',
     'Compiling a sentence of the grammar hands the nodes of its derivation to the Lua functions of the calls: a node has the nodes of the elements of its production as arguments in order, named lexemes as leaves with their value and line, elements without call replaced by their own nodes, and carries the line of the last named lexeme read and the interval of scope steps of its production or the step at its end. A source that is not a sentence is refused with an error at the line of the first token that cannot follow, and nothing is called. The depth of the source has no influence.',
     ['programs', 'inputs'], 'every grammar without conflicts and every source', 'tests compile a few programs and look at their output only',
     ['src/lua_run_compiler.cpp'], [('luaRunCompiler', 'src/lua_run_compiler.cpp'), ('Compiler::feedLexem, getLuaNodes', 'src/lua_run_compiler.cpp')])
prop('C24', 'The description of a grammar lists its declarations with their attributes',
     'The Lua table printed for a grammar lists every lexeme, ignored pattern, comment, bad token and production of the grammar once with its parts, the productions in the order of the grammar, and the line it starts on. Attributes given in comments in front of a declaration are attached to it with all their lines and to no other one, in every form of comment and wherever line ends are; reserved names are refused, and processing any grammar ends.',
     ['programs'], 'every grammar text in every layout', 'one grammar is compared with an expected output',
     ['src/automaton_parser.cpp', 'src/languagedef_tostring.cpp'], [('parseLanguageDecoratorMap', 'src/automaton_parser.cpp'), ('printLuaLanguageDefinition', 'src/languagedef_tostring.cpp')])

claimed = [p['id'] for p in P if p['id'] in PROPS]
NA = json.load(open(os.path.join(HERE, 'tools', 'not_applicable.json')))
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as h:
    for p in P:
        h.write(json.dumps(p) + '\n')
M = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': [], 'not_applicable': []}
for p in P:
    i = p['id']
    if i in PROPS:
        c = PROPS[i]
        M['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py %s --tier thorough' % i,
                            'technique': c.get('technique', 'bounded stand-in for functions beyond the reach of the verifier: executable contract of the property evaluated on the real code with generated inputs, labelled bounded, nothing proved' if not c['proofs'] else 'contracts on the real functions, VCs generated from the clang AST of /repo/src on every run, discharged by z3 and cvc5; failing obligations are replayed against the real code'),
                            'level': c['level'], 'level_note': c['note']})
    else:
        M['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not claimed yet: contracts under construction')})
M['notes'] = 'Known findings and repaired defects: KNOWN_FINDINGS.txt. No hooks are needed in /repo.'
json.dump(M, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
print('claimed', claimed)
