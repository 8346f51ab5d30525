// Bounded checks of the parser generator against independent oracles:
//   resolve  the table entries are those of the LALR(1) construction with conflicts resolved by the priority rules or reported (C14)
//   accept   a conflict free parser accepts exactly the sentences of the grammar and reduces along a derivation (C15)
//   first    nullable and FIRST, observed through the lookaheads of productions placed in front of each nonterminal (C16)
//   limits   grammars at, below and above each limit (C22)
#include "vr.hpp"
#include "gram.hpp"
#include "automaton.hpp"
#include "error.hpp"
#include "lexer.hpp"
#include <algorithm>
#include <deque>
using namespace mewa;
using gram::Grammar; using gram::Prod; using gram::Lr;
typedef Automaton::Action Action;

struct Built { bool ok; int code; Automaton a; std::vector<Error> warnings; };
static Built build( const std::string& text)
{
	Built rt; rt.ok = false; rt.code = 0;
	try { rt.a.build( text, rt.warnings); rt.ok = true; }
	catch (const Error& e) { rt.code = e.code(); }
	return rt;
}
static std::string describe( const Built& b)
{
	std::ostringstream o;
	for (auto const& w : b.warnings) o << "\nreported: " << w.what();
	return o.str();
}
static bool isConflict( const Error& w)
{
	return w.code() == Error::ShiftReduceConflictInGrammarDef || w.code() == Error::ReduceReduceConflictInGrammarDef
		|| w.code() == Error::ShiftShiftConflictInGrammarDef;
}
// symbol numbers of the automaton for those of the grammar
struct Syms { std::vector<int> term, nont; };
static bool symbols( const Grammar& g, const Automaton& a, Syms& s)
{
	s.term.assign( g.nterm+1, 0); s.nont.assign( g.nnont+1, 0);
	for (int t=1; t<=g.nterm; ++t) s.term[t] = a.lexer().lexemId( gram::termSpelling( g, t));
	for (int n=1; n<=g.nnont; ++n)
		for (int i=1; i<=(int)a.nonterminals().size(); ++i) if (a.nonterminals()[i-1] == gram::nontName( n)) s.nont[n] = i;
	return true;
}
static std::string actText( const Action& a) { return vr::cat( a.type()==Action::Shift?"shift ":a.type()==Action::Reduce?"reduce ":"accept ", a.state(), " count ", a.count(), " call ", a.call(), " scope ", (int)a.scopeflag()); }

// one action wanted for production p
static bool isReduceOf( const Grammar& g, const Syms& s, const Action& a, int p)
{
	if (a.type() != (p == 0 ? Action::Accept : Action::Reduce)) return false;
	return a.nonterminal() == s.nont[ g.prods[p].left] && a.count() == (int)g.prods[p].rhs.size() && a.call() == g.prods[p].callidx && (int)a.scopeflag() == g.prods[p].scope;
}
// does a beat b in a shift/reduce pair by the priority rules: 1 yes, -1 b beats a, 0 undecided
static int shiftAgainstReduce( gram::Prio sh, gram::Prio re)
{
	if (sh.defined() != re.defined()) return 0;
	if (sh.value != re.value) return sh.value > re.value ? 1 : -1;
	if (sh.assoc != re.assoc || !sh.assoc) return 0;
	return sh.assoc == 'R' ? 1 : -1;
}

#define T_CHECK(cond, ...) do { if (!(cond)) throw vr::cat(__VA_ARGS__); } while (0)
static void checkTablesAgainst( const Grammar& g, const Built& b, const Lr& lr)
{
	Syms s; symbols( g, b.a, s);
	int nofConflictReports = 0;
	for (auto const& w : b.warnings) nofConflictReports += isConflict( w);
	int nofPrioReports = 0;
	for (auto const& w : b.warnings) nofPrioReports += w.code() == Error::PriorityConflictInGrammarDef;

	std::map<int,int> mapping;	// state of the oracle -> state of the automaton
	std::map<int,int> inverse;
	std::deque<int> todo;
	mapping[ 0] = 1; inverse[ 1] = 0; todo.push_back( 0);
	bool conflictExpected = false;
	auto link = [&]( int st, int as)
	{
		auto ins = mapping.insert( {st,as});
		if (ins.second) todo.push_back( st);
		else T_CHECK( ins.first->second == as, "the same set of items is reached as two states ", ins.first->second, " and ", as, describe(b));
		auto inv = inverse.insert( {as,st});
		T_CHECK( inv.first->second == st, "two different item sets share the state ", as, describe(b));
	};
	std::vector<std::string> mustreport;
	while (!todo.empty())
	{
		int st = todo.front(); todo.pop_front();
		int as = mapping[ st];
		for (int t=0; t<=g.nterm; ++t)
		{
			std::vector<gram::Prio> shiftPrio;
			std::vector<int> reds;
			int shiftTo = lr.cell( st, t, shiftPrio, reds);
			auto ai = b.a.actions().find( Automaton::ActionKey( as, t ? s.term[t] : 0));
			bool found = ai != b.a.actions().end();
			std::string where = vr::cat( "state ", as, " token ", t ? gram::termSpelling( g, t) : std::string("$"), ": ");
			if (shiftTo < 0 && reds.empty())
			{
				T_CHECK( !found, where, "action ", actText( ai->second), " is not demanded by the grammar in this state for this token", describe(b));
				continue;
			}
			T_CHECK( found, where, "action missing", describe(b));
			const Action& a = ai->second;
			bool isShift = a.type() == Action::Shift;
			int isRed = -1;
			for (int p : reds) if (isReduceOf( g, s, a, p)) isRed = p;
			T_CHECK( (isShift && shiftTo >= 0) || isRed >= 0, where, "action ", actText( a), " is none of those the grammar demands", describe(b));
			if (isShift) link( shiftTo, a.state());

			bool prioAmbiguous = false;
			for (auto const& x : shiftPrio) if (!(x == shiftPrio[0])) prioAmbiguous = true;
			if (prioAmbiguous) { T_CHECK( nofPrioReports, where, "productions of different priority shift this token and this is not reported", describe(b)); }
			if (shiftTo >= 0 && reds.empty()) continue;
			if (shiftTo < 0 && reds.size() == 1) continue;
			if (prioAmbiguous) { conflictExpected = true; continue; }
			// the winner against all the others, if there is one
			bool decided = true;
			if (shiftTo < 0) decided = false;
			else
			{
				int win = 0, winner = -1;
				for (int p : reds) { int r = shiftAgainstReduce( shiftPrio[0], g.prods[p].prio); if (r == 0) decided = false; if (r < 0) {++win; winner = p;} }
				if (win > 1) decided = false; // two reductions remain
				if (decided && win == 1 && reds.size() > 1)
				{
					// one reduction beats the shift, the shift beats all other reductions: decided for this reduction; if the pair of
					// reductions meets first, then it is reported
					conflictExpected = true;
					if (nofConflictReports == 0) T_CHECK( isReduceOf( g, s, a, winner), where, "the conflict is decided for '", actText( a), "' against the rules of priority and associativity", describe(b));
					if (isReduceOf( g, s, a, winner)) continue;
					decided = false;
				}
				if (decided)
				{
					bool shiftWins = win == 0;
					T_CHECK( isShift == shiftWins, where, "the conflict is decided for '", actText( a), "' against the rules of priority and associativity", describe(b));
					if (reds.size() > 1) conflictExpected = true; // the pair of reductions may be reported, too
				}
			}
			if (!decided)
			{
				conflictExpected = true;
				// reported with the token and one of the productions involved
				bool seen = false;
				for (auto const& w : b.warnings)
				{
					if (!isConflict( w)) continue;
					std::string arg( w.arg());
					if (arg.find( t ? gram::termSpelling( g, t) : std::string("$")) == std::string::npos) continue;
					for (int p : reds) if (arg.find( gram::prodHead( g, p)) != std::string::npos) seen = true;
				}
				T_CHECK( seen, where, "the conflict is resolved in a way the priorities do not demand (action ", actText( a), ") and it is not reported", describe(b));
			}
		}
		for (int n=1; n<=g.nnont; ++n)
		{
			int to = lr.go( st, n);
			auto gi = b.a.gotos().find( Automaton::GotoKey( as, s.nont[n]));
			T_CHECK( (to >= 0) == (gi != b.a.gotos().end()), "state ", as, " nonterminal ", gram::nontName(n), ": goto ", to >= 0 ? "missing" : "not demanded", describe(b));
			if (to >= 0) link( to, gi->second.state());
		}
		for (auto ai = b.a.actions().lower_bound( Automaton::ActionKey( as, 0)); ai != b.a.actions().end() && ai->first.state() == as; ++ai)
		{
			int t = ai->first.terminal();
			bool known = t == 0;
			for (int i=1; i<=g.nterm; ++i) if (s.term[i] == t) known = true;
			T_CHECK( known, "state ", as, ": action for a token ", t, " that is none of the grammar", describe(b));
		}
	}
	// states behind an entry decided for another action are built, too
	for (int st=0; st<(int)lr.states.size() && !conflictExpected; ++st) if (!mapping.count( st))
		for (int t=0; t<=g.nterm; ++t)
		{
			std::vector<gram::Prio> sp; std::vector<int> rd;
			int to = lr.cell( st, t, sp, rd);
			if (rd.size() > 1 || (rd.size() == 1 && to >= 0)) conflictExpected = true;
		}
	bool prioExpected = false;
	for (int st=0; st<(int)lr.states.size() && !prioExpected; ++st)
	{
		for (int t=1; t<=g.nterm; ++t)
		{
			std::vector<gram::Prio> sp; std::vector<int> rd;
			lr.cell( st, t, sp, rd);
			for (auto const& x : sp) prioExpected |= !(x == sp[0]);
		}
		for (auto const& i1 : lr.states[st]) for (auto const& i2 : lr.states[st])
		{
			auto const& p1 = g.prods[ i1.first.first]; auto const& p2 = g.prods[ i2.first.first];
			if (i1.first.second == (int)p1.rhs.size() && i2.first.second == (int)p2.rhs.size() && p1.left == p2.left && !(p1.prio == p2.prio)) prioExpected = true;
		}
	}
	if (!prioExpected) T_CHECK( nofPrioReports == 0, "a conflict of priorities is reported for a grammar where no two productions of different priority meet", describe(b));
	if (!conflictExpected) T_CHECK( nofConflictReports == 0, "a conflict is reported for a grammar that has none left by its priorities", describe(b));
}

// The lookaheads of the code under test are larger than those of LALR(1) in two ways recorded as known findings; with any of these
// two absent or present the rest has to hold.
static void checkTables( const Grammar& g, const Built& b)
{
	std::string first;
	for (int mode : {3,0,1,2})
	{
		try { checkTablesAgainst( g, b, Lr( g, mode & 1, mode & 2)); return; }
		catch (const std::string& e) { if (mode == 3) first = e; }
	}
	vr::fail( first);
}
// parse with the tables; true if accepted. Checks that each reduction is a production of the grammar.
struct Run { bool accepted; std::vector<int> reductions; };
static Run parse( const Grammar& g, const Built& b, const Syms& s, const std::vector<int>& input, bool mustTerminate)
{
	Run rt; rt.accepted = false;
	std::vector<int> states( 1, 1), syms( 1, 0);	// syms: nonterminal > 0, terminal < 0
	size_t pos = 0;
	for (long steps=0; ; ++steps)
	{
		if (steps >= 20000)
		{
			// possible only if conflicts of the grammar were decided by priorities
			VR_CHECK( !mustTerminate, "parser does not terminate");
			return rt;
		}
		int t = pos < input.size() ? input[pos] : 0;
		auto ai = b.a.actions().find( Automaton::ActionKey( states.back(), t ? s.term[t] : 0));
		if (ai == b.a.actions().end()) return rt;
		const Action& a = ai->second;
		if (a.type() == Action::Shift)
		{
			VR_CHECK( t != 0, "end of input is shifted");
			states.push_back( a.state()); syms.push_back( -t); ++pos;
			continue;
		}
		VR_CHECK( a.count() >= 0 && a.count() < (int)states.size(), "reduction of more symbols than on the stack");
		int found = -1;
		for (int p=0; p<(int)g.prods.size(); ++p)
		{
			if (s.nont[ g.prods[p].left] != a.nonterminal() || (int)g.prods[p].rhs.size() != a.count()) continue;
			if (std::equal( g.prods[p].rhs.begin(), g.prods[p].rhs.end(), syms.end() - a.count())) { found = p; break; }
		}
		VR_CHECK( found >= 0, "reduction '", actText( a), "' replaces symbols that are no production of the grammar");
		VR_CHECK( g.prods[found].callidx == a.call() && g.prods[found].scope == (int)a.scopeflag(), "reduction '", actText( a), "' carries another call or scope than its production ", gram::prodText( g, found));
		VR_CHECK( (a.type() == Action::Accept) == (found == 0), "accept of a production that is not the start production");
		rt.reductions.push_back( found);
		states.resize( states.size() - a.count()); syms.resize( syms.size() - a.count());
		if (a.type() == Action::Accept)
		{
			VR_CHECK( t == 0 && states.size() == 1, "accept before the end of the input or with symbols left");
			rt.accepted = true;
			return rt;
		}
		auto gi = b.a.gotos().find( Automaton::GotoKey( states.back(), a.nonterminal()));
		VR_CHECK( gi != b.a.gotos().end(), "no goto after a reduction");
		states.push_back( gi->second.state()); syms.push_back( g.prods[found].left);
	}
}
static void checkLanguage( vr::Rng& rng, const Grammar& g, const Built& b)
{
	Syms s; symbols( g, b.a, s);
	gram::Derives d( g);
	bool complete = b.warnings.empty() && Lr( g).conflictFree();
	std::string text = vr::current();
	auto one = [&]( const std::vector<int>& in)
	{
		std::string show; for (int t : in) show += " " + gram::termSpelling( g, t);
		vr::lazycur() = [=]{ return text + "tokens:" + show; };
		Run r = parse( g, b, s, in, complete);
		bool sentence = d.sentence( in);
		if (r.accepted) VR_CHECK( sentence, "the parser accepts a sequence that is no sentence of the grammar");
		if (complete) VR_CHECK( r.accepted == sentence, "the parser refuses a sentence of the grammar");
		vr::lazycur() = nullptr;
	};
	// all short sequences
	std::vector<int> in;
	int maxlen = g.nterm <= 2 ? 6 : g.nterm == 3 ? 4 : g.nterm <= 5 ? 3 : 2;
	std::function<void()> rec = [&]() { one( in); if ((int)in.size() >= maxlen) return; for (int t=1; t<=g.nterm; ++t) { in.push_back( t); rec(); in.pop_back(); } };
	rec();
	// derived sentences and their mutations
	for (int i=0; i<12; ++i)
	{
		std::vector<int> w;
		if (!gram::randomSentence( rng, g, w, 14)) continue;
		one( w);
		if (!w.empty()) { std::vector<int> m = w; m[ rng.below( m.size())] = rng.range( 1, g.nterm); one( m); m = w; m.erase( m.begin() + rng.below( m.size())); one( m); }
		std::vector<int> m = w; m.insert( m.begin() + rng.below( m.size()+1), rng.range( 1, g.nterm)); one( m);
	}
}
// Observation of FIRST and nullable: S = "x1" P1 N1 "y" | "x2" P2 N2 "y" ...; Pi = "p". The lookaheads of Pi = "p" are FIRST( Ni "y").
static void checkFirst( const Grammar& g)
{
	Grammar h = g;
	int base = g.nterm;
	h.nterm = base + g.nnont + 2;
	int y = base + g.nnont + 1, p = base + g.nnont + 2;
	int top = h.nnont + 1;
	h.nnont += 1 + g.nnont;
	h.prods.clear();
	// the start symbol of the new grammar is the first one, so the names are kept and a fresh head is put in front
	Prod st; st.left = h.nnont + 1; h.nnont += 1; st.rhs.push_back( top); h.prods.push_back( st);
	for (int n=1; n<=g.nnont; ++n)
	{
		Prod q; q.left = top; q.rhs = {-(base + n), top + n, n, -y}; h.prods.push_back( q);
	}
	for (int n=1; n<=g.nnont; ++n) { Prod q; q.left = top + n; q.rhs = {-p}; h.prods.push_back( q); }
	for (auto const& q : g.prods) h.prods.push_back( q);
	std::string text = gram::print( h);
	vr::begin( text);
	Built b = build( text);
	if (!b.ok)
	{
		VR_CHECK( b.code == Error::ComplexityLR1FollowSetsInGrammarDef, "grammar refused with ", b.code);
		return;
	}
	Syms s; symbols( h, b.a, s);
	gram::FirstSets fs( g), fsmark( g, true); // the mark of nullables is inherited by others (known finding)
	for (int n=1; n<=g.nnont; ++n)
	{
		auto a1 = b.a.actions().find( Automaton::ActionKey( 1, s.term[ base+n]));
		VR_CHECK( a1 != b.a.actions().end() && a1->second.type() == Action::Shift, "no shift of the marker");
		auto a2 = b.a.actions().find( Automaton::ActionKey( a1->second.state(), s.term[ p]));
		VR_CHECK( a2 != b.a.actions().end() && a2->second.type() == Action::Shift, "no shift of the marker");
		std::set<int> got, want;
		for (auto ai = b.a.actions().lower_bound( Automaton::ActionKey( a2->second.state(), 0)); ai != b.a.actions().end() && ai->first.state() == a2->second.state(); ++ai) got.insert( ai->first.terminal());
		for (int t : fs.first[n]) want.insert( s.term[t]);
		if (fs.nullable[n]) want.insert( s.term[y]);
		for (int t=0; t<=h.nterm; ++t)
		{
			int id = t ? s.term[t] : 0;
			std::string nm = t ? gram::termSpelling( h, t) : std::string("$ (end of input)");
			if (got.count( id) && !want.count( id) && !(t == 0 && fsmark.first[n].count( 0))) vr::fail( t == y ? vr::cat( "the nonterminal ", gram::nontName(n), " counts as nullable and derives not the empty string") : vr::cat( "FIRST of ", gram::nontName(n), " contains ", nm, " and no sentence of it starts with that"));
			if (!got.count( id) && want.count( id)) vr::fail( t == y ? vr::cat( "the nonterminal ", gram::nontName(n), " derives the empty string and does not count as nullable") : vr::cat( "FIRST of ", gram::nontName(n), " lacks ", nm));
		}
	}
}

// ---- limits
static std::string num( int n) { return vr::cat( n); }
static void expectBuild( const std::string& what, const std::string& text, int code)
{
	vr::begin( what + "\n" + text.substr( 0, 400));
	alarm( 240);
	Built b = build( text);
	alarm( 60);
	if (code == 0) VR_CHECK( b.ok, what, ": refused with error ", b.code, " though inside the limits");
	else VR_CHECK( !b.ok && b.code == code, what, ": ", b.ok ? vr::cat("accepted") : vr::cat("refused with error ", b.code), " instead of error ", code);
}
static void limits()
{
	// production length
	for (int n : {1,2,14,15,16,17,30})
	{
		std::string t = "S =";
		for (int i=0; i<n; ++i) t += " \"a" + num(i) + "\"";
		expectBuild( vr::cat( "production of length ", n), t + ";\n", n >= Automaton::MaxProductionLength ? Error::ComplexityMaxProductionLengthInGrammarDef : 0);
		expectBuild( vr::cat( "second production of length ", n), "S = A ; A = \"x\" |" + t.substr(3) + ";\n", n >= Automaton::MaxProductionLength ? Error::ComplexityMaxProductionLengthInGrammarDef : 0);
	}
	// priorities
	struct P { const char* s; int code; };
	for (auto const& p : std::vector<P>{ {"0",0},{"1",0},{"31",0},{"32",Error::ComplexityMaxProductionPriorityInGrammarDef},{"L31",0},{"31R",0},{"L32",Error::ComplexityMaxProductionPriorityInGrammarDef},{"32R",Error::ComplexityMaxProductionPriorityInGrammarDef},
		{"32767",-1},{"32768",-1},{"65535",-1},{"65536",-1},{"65537",-1},{"L65537",-1},{"65538R",-1},{"131072",-1},{"2147483647",-1},{"2147483648",-1},{"4294967295",-1},{"4294967296",-1},{"4294967297",-1},{"L4294967298",-1},{"18446744073709551617",-1},{"99999999999999999999999999",-1} })
	{
		std::string t = vr::cat( "S = E ; E/", p.s, " = E \"+\" E ; E = \"i\" ;\n");
		vr::begin( vr::cat( "priority ", p.s, "\n", t));
		Built b = build( t);
		if (p.code == 0) VR_CHECK( b.ok, "priority ", p.s, " refused with ", b.code);
		else VR_CHECK( !b.ok && (b.code == Error::ComplexityMaxProductionPriorityInGrammarDef || b.code == Error::ValueOutOfRangeInGrammarDef), "priority ", p.s, " is ", b.ok ? "accepted" : vr::cat( "refused with error ", b.code));
	}
	// numbers in lexer definitions
	for (auto const& p : std::vector<P>{ {"1",0},{"4",0},{"4294967297",-1},{"8589934596",-1},{"18446744073709551617",-1},{"2147483648",-1} })
	{
		std::string t = vr::cat( "% INDENTL IND UND NL ", p.s, ";\nS = IND \"a\" NL UND ;\n");
		vr::begin( vr::cat( "tab size ", p.s, "\n", t));
		Built b = build( t);
		if (p.code == 0) VR_CHECK( b.ok, "tab size ", p.s, " refused with ", b.code);
		else VR_CHECK( !b.ok && b.code == Error::ValueOutOfRangeInGrammarDef, "tab size ", p.s, " is ", b.ok ? "accepted" : vr::cat( "refused with error ", b.code));
	}
	for (auto const& p : std::vector<P>{ {"1",0},{"4294967297",-1},{"18446744073709551617",-1},{"2147483648",-1} })
	{
		std::string t = vr::cat( "ID: '([a-z]+)' ", p.s, ";\nS = ID ;\n");
		vr::begin( vr::cat( "pattern select ", p.s, "\n", t));
		Built b = build( t);
		if (p.code == 0) VR_CHECK( b.ok, "pattern select ", p.s, " refused with ", b.code);
		else VR_CHECK( !b.ok && b.code == Error::ValueOutOfRangeInGrammarDef, "pattern select ", p.s, " is ", b.ok ? "accepted" : vr::cat( "refused with error ", b.code));
	}
	// nonterminals: the start symbol and n-1 others
	for (int n : {2,100,255,256,257,300})
	{
		std::string t = "S = N1;\n";
		for (int i=1; i<n-1; ++i) t += vr::cat( "N", i, " = \"a\" N", i+1, ";\n");
		t += vr::cat( "N", n-1, " = \"a\";\n");
		expectBuild( vr::cat( n, " nonterminals"), t, n >= Automaton::MaxNonterminal ? Error::ComplexityMaxNonterminalInGrammarDef : 0);
	}
	// productions
	for (int n : {3,510,511,512,513,600})
	{
		std::string t = "S = A;\nA = \"b\" \"c\"";
		// length 2..: words over four letters, all different
		int cnt = 2;
		for (int i=0; cnt < n; ++i,++cnt)
		{
			int k = i; t += "\n |";
			for (int d=0; d<5; ++d,k/=4) t += vr::cat( " \"", (char)('p'+k%4), "\"");
		}
		expectBuild( vr::cat( n, " productions"), t + ";\n", n >= Automaton::MaxNofProductions ? Error::ComplexityMaxNofProductionsInGrammarDef : 0);
	}
	// terminals: spread over productions of length 15
	for (int n : {15,1020,1022,1023,1024,1025,1500})
	{
		std::string t = "S = A;\nA =";
		for (int i=0; i<n; ++i) { if (i && i % 15 == 0) t += "\n |"; t += vr::cat( " \"t", i, "\""); }
		expectBuild( vr::cat( n, " terminals"), t + ";\n", n >= Automaton::MaxTerminal ? Error::ComplexityMaxTerminalInGrammarDef : 0);
	}
	// lookahead sets: numbered with the same bits as terminals, each occurrence of a nonterminal followed by something new gets a new one
	for (int kind=0; kind<2; ++kind) for (int n : {300,1030,1150})
	{
		std::string t = kind ? "S = \"s\" X \"e\" ;\nX =" : "S = X;\nX =";
		std::string y;
		int half = 1000, ny = 0;
		std::vector<std::string> el;
		for (int i=0; i<n; ++i)
		{
			if (i < half) el.push_back( vr::cat( "N \"u", i, "\""));
			else { el.push_back( vr::cat( "N Y", ny, " \"u", i-half, "\"")); ++ny; }
		}
		// every production starts with a terminal of its own
		int col = 0;
		for (size_t i=0; i<el.size(); ++i)
		{
			int w = i < (size_t)half ? 2 : 3;
			if (col + w > 15) { t += "\n |"; col = 0; }
			if (col == 0) { t += vr::cat( " \"u", i % half, "\" \"q\""); col = 2; }
			t += " " + el[i];
			col += w;
		}
		t += ";\nN = \"n\";\n";
		if (ny > 200) continue;
		for (int i=0; i<ny; ++i) t += vr::cat( "Y", i, " = \"u", i, "\" | \"u", i+1, "\";\n");
		vr::begin( vr::cat( n, " lookahead sets\n", t.substr( 0, 600)));
		alarm( 240);
		Built b = build( t);
		alarm( 60);
		VR_CHECK( b.ok || b.code == Error::ComplexityLR1FollowSetsInGrammarDef, n, " lookahead sets: refused with error ", b.code);
		if (n >= 1100) VR_CHECK( !b.ok, n, " lookahead sets are accepted though only ", (int)Automaton::MaxTerminal, " can be told apart");
		if (n <= 300) VR_CHECK( b.ok, n, " lookahead sets refused with error ", b.code);
	}
}
// limit of states: chains of terminals, each symbol of a production is a state of its own
static void statesLimit( vr::Rng& rng)
{
	for (int n : {1200,4095,4096,4200})
	{
		// states: start, A, and one per terminal position; productions of 15 terminals with distinct first terminals
		int want = n - 2, pr = 0;
		std::string t = "S = A;\nA =";
		while (want > 0)
		{
			int len = std::min( want, 15);
			if (pr) t += "\n |";
			t += vr::cat( " \"t", pr, "\"");
			for (int i=1; i<len; ++i) t += " \"x\"";
			want -= len; ++pr;
		}
		expectBuild( vr::cat( n, " states"), t + ";\n", n >= Automaton::MaxState ? Error::ComplexityMaxStateInGrammarDef : 0);
		if (!vr::more( 0.95)) break;
	}
}

static void knownGrammars( std::vector<Grammar>& out)
{
	for (auto const& t : gram::classics()) out.push_back( t);
}

int main( int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng rng( vr::seed());
	std::string prop = vr::prop();
	if (prop == "limits") { limits(); statesLimit( rng); return vr::finish(); }
	std::vector<Grammar> fixed;
	knownGrammars( fixed);
	for (int round=0; vr::more(); ++round)
	{
		Grammar g = round < (int)fixed.size() ? fixed[ round] : (prop == "accept" ? round % 2 : round % 4 == 1) ? gram::structured( rng) : gram::random( rng, prop == "resolve" ? 2 : prop == "accept" ? (round % 3 == 0 ? 2 : 1) : 0);
		if (prop == "first") { checkFirst( g); continue; }
		std::string text = gram::print( g);
		vr::begin( text);
		Built b = build( text);
		if (!b.ok)
		{
			VR_CHECK( b.code == Error::ComplexityLR1FollowSetsInGrammarDef, "grammar refused with error ", b.code);
			continue;
		}
		if (prop == "resolve") checkTables( g, b);
		else if (b.warnings.empty()) checkLanguage( rng, g, b);
	}
	return vr::finish();
}
