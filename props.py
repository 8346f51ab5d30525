"""Which contracts and which replay harness decide each property."""
from contracts import typedb, relation, packing, flatset, memrsc, scanner, utf8, first, conflict, tree, derive, textnum, errtext, luatext
ERR = ['error.cpp', 'strings.cpp']
LEX = ['lexer.cpp'] + ERR
TDB = ['typedb.cpp'] + ERR
AUT = ['automaton.cpp', 'automaton_parser.cpp', 'automaton_structs.cpp', 'automaton_tostring.cpp', 'languagedef_tostring.cpp'] + LEX
LUA = dict(src='luaauto.cpp', repo=AUT + ['lua_load_automaton.cpp', 'lua_run_compiler.cpp', 'lua_serialize.cpp'], flags=['-I/usr/include/lua5.2'], libs=['-llua5.2'])
SCOPE_ASSUME = ['machine integers of the scope code are treated as mathematical integers (steps, indices below 2^31)', 'memory allocation does not fail',
                'the templates are verified for int keys and values', 'scopes are non-empty and nest with the scopes defined before (the callers\' obligation)']
PROPS = {
    'C01': dict(level='proof', proofs=[('scope', ['tree_up', 'tree_left', 'tree_ins', 'inst_get', 'inst_getThis', 'inst_set', 'inst_ctor'])],
                replay=[dict(src='scope.cpp', prop='instance', repo=ERR)], assumptions=SCOPE_ASSUME,
                note='Unbounded proof of set/get/getThis and their helpers over an abstract view (set of scope entries); integers mathematical, std::map/vector by trusted models.'),
    'C02': dict(level='proof', proofs=[('scope', ['tree_up', 'tree_left', 'tree_ins', 'map_set', 'map_getOrSet', 'map_get', 'map_getDef'])],
                replay=[dict(src='scope.cpp', prop='map', repo=ERR)], assumptions=SCOPE_ASSUME,
                note='Unbounded proof of set/getOrSet/get/getDef and their helpers, ghost key per entry; integers mathematical, std::map/vector by trusted models.'),
    'C04': dict(level='proof', proofs=[('tagmask', ['add', 'orassign', 'oro', 'matches', 'fromval', 'toval', 'matchall', 'matchnothing'])],
                replay=[dict(src='scope.cpp', prop='tagmask', repo=ERR)], assumptions=['memory allocation does not fail'],
                note='All operations of TagMask verified with 32-bit machine arithmetic.'),
    'C11': dict(level='proof', proofs=[('packing', packing.C11)], replay=[dict(src='structs.cpp', prop='packing', repo=ERR, budget=4.0)],
                assumptions=['lemma functions over the real packed/unpack/operators, inlined; machine arithmetic; signed shifts as on two\'s complement machines'],
                note='Round trip, injectivity, positivity and order of all packed table structures for all field values inside the limits, 32-bit machine arithmetic.'),
    'C12': dict(level='proof', proofs=[('packing', packing.C12)], replay=[dict(src='structs.cpp', prop='items', repo=ERR, budget=4.0)],
                assumptions=['lemma functions over the real packed/unpack/operators, inlined; machine arithmetic; signed shifts as on two\'s complement machines'],
                note='Round trip, order and equality of items and priorities for all field values inside the limits, machine arithmetic.'),
    'C13': dict(level='proof', proofs=[('flatset', flatset.ALL)], replay=[dict(src='structs.cpp', prop='flatset', repo=ERR)],
                assumptions=['elements and sizes are mathematical integers, sizes below 2^31', 'memory allocation does not fail', 'verified for elements of type int'],
                note='Unbounded proof of insertion, union, membership, equality, copy and assignment; std::vector, lower_bound by trusted models.'),
    'C03': dict(level='proof', proofs=[('relation', relation.ALL), ('scope', ['tree_up', 'tree_left', 'tree_ins', 'map_getOrSet']), ('tagmask', ['matches', 'toval'])],
                replay=[dict(src='scope.cpp', prop='relation', repo=ERR)],
                assumptions=SCOPE_ASSUME + ['weights are mathematical real numbers', 'ghost arrays: owner of a list element and first selected definition of a related item, both defined by their axioms'],
                note='Unbounded proof of set and get over the lists behind the scoped map: what is added, ignored or refused, and the exact result of a query with its order.'),
    'C05': dict(level='exploration', proofs=[], replay=[dict(src='typedb.cpp', prop='ident', repo=TDB)], assumptions=[],
                note='Bounded check of IdentMap against an executable contract.'),
    'C06': dict(level='proof', proofs=[('typedb', typedb.ALL)], replay=[dict(src='typedb.cpp', prop='types', repo=TDB)],
                assumptions=['machine integers are mathematical integers', 'memory allocation does not fail', 'ghost arrays: accepted records and signature of a record, both defined by their axioms'],
                note='Unbounded proof of definition, synonyms, search by signature, lookup and all accessors over the records and the table; the table (C02) and the identifier map (C05) by contract.'),
    'C07': dict(level='proof', proofs=[('typedb', typedb.REDU + ['defineReduction']), ('derive', derive.ALL)], replay=[dict(src='typedb.cpp', prop='derive', repo=TDB)], assumptions=['weights are multiples of 0.25 in the bounded check'],
                note='Unbounded proof of deriveType for any reduction graph: an arbitrary simple path (ghost) is never missed, never lighter than the result, and reported as a conflict if its weight is the same; results and reported paths are paths. getReduction(s) and defineReduction proved.'),
    'C08': dict(level='proof', proofs=[('typedb', ['collectResultItems']), ('derive', derive.ALL_RESOLVE)], replay=[dict(src='typedb.cpp', prop='resolve', repo=TDB)], assumptions=['weights are multiples of 0.25 in the bounded check'],
                note='Unbounded proof of resolveType for any reduction graph and any list of contexts, against an arbitrary simple path (ghost) from one of the contexts to a type with a definition of the name.'),
    'C17': dict(level='exploration', proofs=[('errtext', errtext.ALL)], replay=[dict(src='error.cpp', prop='error', repo=ERR, flags=['-fno-sanitize=enum'])],
                assumptions=['file names do not contain a quote followed by a colon and a space', 'an error without a line has no location'],
                note='Proved: reading of spaces, delimiters, numbers and quoted strings in the text of an error. Bounded check of the round trip for all error codes with special and random arguments and file names.'),
    'C19': dict(level='exploration', proofs=[('tree', tree.ALL)], replay=[dict(src='scope.cpp', prop='tree', repo=ERR), dict(src='typedb.cpp', prop='trees', repo=TDB, budget=4.0)], assumptions=['proved for items of type int and less than 2^31 nodes'],
                note='Proved: adding of children and siblings, the constructor, each step of the depth first iteration. Bounded: translation of trees and the scope trees of definitions against an executable contract.'),
    'C09': dict(level='exploration', proofs=[('scanner', ['next_', 'match', 'scan'])], replay=[dict(src='lexer.cpp', prop='lexer', repo=LEX, budget=8.0)],
                assumptions=['std::regex_search is the meaning of a pattern', 'the openings of comments are not prefixes of each other'],
                note='Bounded check of Lexer::next against an executable contract for random lexer configurations and sources; the scanner operations it is built from are proved (C10).'),
    'C10': dict(level='proof', proofs=[('scanner', scanner.ALL)], replay=[dict(src='lexer.cpp', prop='scanner', repo=LEX)],
                assumptions=['sources are shorter than 2^30 characters', 'std::strstr and std::strlen keep their contracts', 'machine integers are mathematical integers'],
                note='Unbounded proof of all operations of the scanner: positions inside the buffer with its terminator, lines, spaces, indentation.'),
    'C21': dict(level='proof', proofs=[('utf8', utf8.ALL)], replay=[dict(src='lexer.cpp', prop='utf8', repo=LEX)],
                assumptions=['the processor instruction bsr yields the index of the highest bit'],
                note='All bytes with machine arithmetic; parseChar for sources of any length.'),
    'C18': dict(level='proof', proofs=[('memrsc', memrsc.ALL)], replay=[dict(src='memrsc.cpp', prop='memrsc', repo=[])],
                assumptions=['64 bit addresses, every power of two from 1 to 2^63 is verified as a case of its own'],
                note='allocate/do_allocate for every power of two alignment, deallocate and all constructors: blocks aligned, inside the buffer or from one upstream request with the same arguments, never before the end of a block given out, 64 bit wrap around modelled.'),
    'C14': dict(level='exploration', proofs=[('conflict', conflict.ALL), ('flatset', ['insertInOrder', 'reserveSize'])], replay=[dict(src='automaton.cpp', prop='resolve', repo=AUT, budget=15.0), dict(src='automaton.cpp', prop='resolve', repo=AUT, budget=30.0, flags=['-O2'], plain=True)],
                assumptions=['lookaheads wider than LALR(1) in the two ways of the known findings are tolerated'],
                note='Proved: the resolution of two actions of the same entry, the reduction of a lookahead set with its conflicts, the reductions of a state and the accept condition. Bounded: the states the rules are applied to and the loop over them, all table entries of random grammars compared with an own LALR(1) construction with the priority rules.'),
    'C15': dict(level='exploration', proofs=[], replay=[dict(src='automaton.cpp', prop='accept', repo=AUT, budget=15.0), dict(src='automaton.cpp', prop='accept', repo=AUT, budget=45.0, flags=['-O2'], plain=True)], assumptions=[],
                note='Bounded check of the tables on all short token sequences and derived sentences against derivability; reductions compared with the productions.'),
    'C16': dict(level='proof', proofs=[('first', first.ALL), ('flatset', ['insertInOrder', 'reserveSize'])], replay=[dict(src='automaton.cpp', prop='first', repo=AUT, budget=10.0), dict(src='automaton.cpp', prop='first', repo=AUT, budget=15.0, flags=['-O2'], plain=True)],
                assumptions=['machine integers are mathematical integers', 'memory allocation does not fail', 'every nonterminal derives a sentence (the grammar loader refuses nothing else by itself)',
                             'the end mark in FIRST sets of the known finding is left open: claims are made for the other terminals', 'ghost values: nullable prefix of a production, solution compared with, both defined by their axioms'],
                note='Unbounded proof that the nullable set and the FIRST sets are the smallest solutions of their equations, and that FIRST of the rest of a production is exactly what they define; std::set/map by trusted models.'),
    'C22': dict(level='exploration', proofs=[('textnum', textnum.ALL)], replay=[dict(src='automaton.cpp', prop='limits', repo=AUT, budget=60.0)], assumptions=[],
                note='Proved: numbers and priorities written in a grammar are read as their value, and refused exactly if they are none or above the limit. Bounded: grammars below, at and above each limit.'),
    'C20': dict(level='exploration', proofs=[('luatext', luatext.ALL)], replay=[dict(LUA, prop='roundtrip', budget=15.0)], assumptions=['the Lua interpreter loads the printed tables as documented'],
                note='Proved: strings are printed with the escapes Lua reads back as the same characters. Bounded check: random grammars with all kinds of declarations are built, printed, loaded by the real Lua interpreter and compared, tables, calls, definitions and tokens.'),
    'C23': dict(level='exploration', proofs=[], replay=[dict(LUA, prop='tree', budget=15.0)], assumptions=['grammars without conflicts'],
                note='Bounded check: random sentences of random grammars are compiled with the real Lua interpreter and the nodes handed to Lua compared with the derivation.'),
    'C24': dict(level='exploration', proofs=[('luatext', luatext.ALL)], replay=[dict(LUA, prop='describe', budget=12.0)],
                assumptions=['each declaration and alternative with attributes starts on a line of its own, an attribute is given once per declaration'],
                note='Proved: strings are printed with the escapes Lua reads back as the same characters. Bounded check: random grammars in random layout with comments and attributes, the printed description is loaded by Lua and compared.'),
}
