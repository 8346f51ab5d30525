// Context free grammars for the replay harnesses: random generation, text form, LALR(1) item sets, FIRST sets and derivability,
// all written from the definitions and independent of the code under test.
#pragma once
#include "vr.hpp"
#include <algorithm>
namespace gram {
struct Prio
{
	int value = 0; char assoc = 0;
	bool defined() const { return value || assoc; }
	bool operator==( const Prio& o) const { return value == o.value && assoc == o.assoc; }
};
struct Prod
{
	int left = 0; std::vector<int> rhs; /* > 0 nonterminal, < 0 terminal */ Prio prio; int callidx = 0; int scope = 0; std::string call;
};
struct Grammar { int nnont = 0; int nterm = 0; bool named = false; std::vector<Prod> prods; };

inline std::string nontName( int n) { return vr::cat( "N", n); }
// every second terminal is a named token in grammars flagged so
inline bool isNamed( const Grammar& g, int t) { return g.named && t % 2 == 0; }
inline std::string termSpelling( const Grammar& g, int t) { return isNamed( g, t) ? vr::cat( "TOK", t) : vr::cat( "k", t, "k"); }
inline std::string symText( const Grammar& g, int s) { return s > 0 ? nontName( s) : isNamed( g, -s) ? termSpelling( g, -s) : "\"" + termSpelling( g, -s) + "\""; }
inline std::string prioText( const Prio& p) { std::string r; if (p.assoc) r += p.assoc; if (p.value || !p.assoc) r += vr::cat( p.value); return r; }
inline std::string prodHead( const Grammar& g, int p) { auto const& x = g.prods[p]; return x.prio.defined() ? vr::cat( nontName( x.left), "/", prioText( x.prio)) : vr::cat( nontName( x.left), " ="); }
inline std::string rhsText( const Grammar& g, const Prod& p)
{
	std::string r;
	for (int s : p.rhs) r += " " + symText( g, s);
	if (p.rhs.empty() && (p.left + p.callidx) % 2) r += " ε";
	const char* sc[] = {"",">>","{}"};
	if (p.scope || p.callidx) r += vr::cat( " (", sc[ p.scope], p.scope && p.callidx ? " " : "", p.call, ")");
	return r;
}
inline std::string prodText( const Grammar& g, int p)
{
	auto const& x = g.prods[p];
	return nontName( x.left) + (x.prio.defined() ? "/" + prioText( x.prio) : std::string()) + " =" + rhsText( g, x);
}
inline std::string print( const Grammar& g)
{
	std::string r;
	if (g.named) for (int t=2; t<=g.nterm; t+=2) r += vr::cat( termSpelling( g, t), " : \"n", t, "n[a-z]*\";\n");
	for (size_t i=0; i<g.prods.size(); ++i)
	{
		r += prodText( g, i);
		while (i+1 < g.prods.size() && g.prods[i+1].left == g.prods[i].left && g.prods[i+1].prio == g.prods[i].prio && i % 3) { ++i; r += " |" + rhsText( g, g.prods[i]); }
		r += ";\n";
	}
	return r;
}
struct FirstSets
{
	std::vector<std::set<int> > first; std::vector<bool> nullable;
	// endmark: the sets as the code under test has them, with a 0 for each nullable nonterminal that is inherited like a terminal (known finding)
	explicit FirstSets( const Grammar& g, bool endmark=false) : first( g.nnont+1), nullable( g.nnont+1, false)
	{
		for (bool ch=true; ch; )
		{
			ch = false;
			for (auto const& p : g.prods)
			{
				bool all = true;
				for (int s : p.rhs)
				{
					if (s < 0) { ch |= first[p.left].insert( -s).second; all = false; break; }
					for (int t : std::set<int>( first[s])) ch |= first[p.left].insert( t).second;
					if (!nullable[s]) { all = false; break; }
				}
				if (all && !nullable[p.left]) { nullable[p.left] = true; ch = true; }
				if (all && endmark) ch |= first[p.left].insert( 0).second;
			}
		}
	}
};
// LALR(1): canonical LR(1) item sets merged by their cores
struct Lr
{
	typedef std::pair<int,int> Core;			// production, position
	typedef std::map<Core,std::set<int> > Items;	// with lookaheads
	const Grammar& g; FirstSets fs;
	std::vector<Items> states; std::vector<std::map<int,int> > trans;
	std::vector<std::vector<int> > byLeft;
	bool shared;
	// shared: the items of a state with the same nonterminal on the left share their lookaheads, as in the code under test (known finding)
	explicit Lr( const Grammar& g_, bool endmark=false, bool shared_=false) : g(g_),fs(g_,endmark),byLeft( g_.nnont+1),shared(shared_)
	{
		for (size_t i=0; i<g.prods.size(); ++i) byLeft[ g.prods[i].left].push_back( i);
		std::vector<Items> c; std::vector<std::map<int,int> > ct; std::map<Items,int> idx;
		Items start; start[ Core(0,0)].insert( 0); close( start);
		c.push_back( start); ct.emplace_back(); idx[ start] = 0;
		for (size_t i=0; i<c.size(); ++i)
		{
			std::map<int,Items> nx;
			for (auto const& it : c[i]) { auto const& r = g.prods[ it.first.first].rhs; if (it.first.second < (int)r.size()) nx[ r[ it.first.second]][ Core( it.first.first, it.first.second+1)] = it.second; }
			for (auto& n : nx)
			{
				close( n.second);
				auto ins = idx.insert( {n.second, (int)c.size()});
				if (ins.second) { c.push_back( n.second); ct.emplace_back(); }
				ct[i][ n.first] = ins.first->second;
			}
			if (c.size() > 3000) break;
		}
		std::map<std::set<Core>,int> cores; std::vector<int> mp( c.size());
		for (size_t i=0; i<c.size(); ++i)
		{
			std::set<Core> k; for (auto const& it : c[i]) k.insert( it.first);
			auto ins = cores.insert( {k,(int)states.size()});
			if (ins.second) { states.emplace_back(); trans.emplace_back(); }
			mp[i] = ins.first->second;
			for (auto const& it : c[i]) states[ mp[i]][ it.first].insert( it.second.begin(), it.second.end());
		}
		for (size_t i=0; i<c.size(); ++i) for (auto const& t : ct[i]) trans[ mp[i]][ t.first] = mp[ t.second];
	}
	void close( Items& s)
	{
		if (shared)
		{
			std::map<int,std::set<int> > fol;
			for (auto const& it : s) fol[ g.prods[ it.first.first].left].insert( it.second.begin(), it.second.end());
			// the least solution, items and sets of the left sides grow until both agree
			for (bool ch=true; ch; )
			{
				ch = false;
				close1( s);
				for (auto const& it : s) fol[ g.prods[ it.first.first].left].insert( it.second.begin(), it.second.end());
				for (auto& it : s) { auto const& f = fol[ g.prods[ it.first.first].left]; if (it.second != f) { ch = true; it.second = f; } }
			}
		}
		else close1( s);
	}
	void close1( Items& s)
	{
		std::vector<Core> todo; for (auto const& it : s) todo.push_back( it.first);
		while (!todo.empty())
		{
			Core k = todo.back(); todo.pop_back();
			auto const& r = g.prods[ k.first].rhs;
			if (k.second >= (int)r.size() || r[ k.second] < 0) continue;
			std::set<int> la; bool all = true;
			for (size_t j=k.second+1; j<r.size(); ++j)
			{
				if (r[j] < 0) { la.insert( -r[j]); all = false; break; }
				la.insert( fs.first[ r[j]].begin(), fs.first[ r[j]].end());
				if (!fs.nullable[ r[j]]) { all = false; break; }
			}
			if (all) la.insert( s[k].begin(), s[k].end());
			for (int p : byLeft[ r[ k.second]])
			{
				bool isnew = !s.count( Core(p,0));
				auto& dst = s[ Core(p,0)]; size_t n = dst.size();
				dst.insert( la.begin(), la.end());
				if (isnew || dst.size() != n) todo.push_back( Core(p,0));
			}
		}
	}
	int go( int st, int n) const { auto i = trans[st].find( n); return i == trans[st].end() ? -1 : i->second; }
	int cell( int st, int t, std::vector<Prio>& shiftPrio, std::vector<int>& reds) const
	{
		for (auto const& it : states[st])
		{
			auto const& p = g.prods[ it.first.first];
			if (it.first.second < (int)p.rhs.size()) { if (t && p.rhs[ it.first.second] == -t) shiftPrio.push_back( p.prio); }
			else if (it.second.count( t)) reds.push_back( it.first.first);
		}
		return t ? go( st, -t) : -1;
	}
	bool conflictFree() const
	{
		for (size_t s=0; s<states.size(); ++s) for (int t=0; t<=g.nterm; ++t)
		{
			std::vector<Prio> sp; std::vector<int> rd;
			int to = cell( s, t, sp, rd);
			if ((to >= 0) + rd.size() > 1) return false;
		}
		return true;
	}
};
// derivability of a token sequence by memoised spans (least fixpoint)
struct Derives
{
	const Grammar& g;
	explicit Derives( const Grammar& g_) : g(g_) {}
	bool sentence( const std::vector<int>& w) const
	{
		int n = w.size();
		// d[X] = set of spans i*(n+1)+j
		std::vector<std::vector<char> > d( g.nnont+1, std::vector<char>( (n+1)*(n+1), 0));
		for (bool ch=true; ch; )
		{
			ch = false;
			for (auto const& p : g.prods)
				for (int i=0; i<=n; ++i)
				{
					std::vector<char> at( n+1, 0); at[i] = 1;
					for (int s : p.rhs)
					{
						std::vector<char> nx( n+1, 0);
						for (int k=i; k<=n; ++k) if (at[k])
						{
							if (s < 0) { if (k < n && w[k] == -s) nx[k+1] = 1; }
							else for (int j=k; j<=n; ++j) if (d[s][ k*(n+1)+j]) nx[j] = 1;
						}
						at.swap( nx);
					}
					for (int j=i; j<=n; ++j) if (at[j] && !d[p.left][ i*(n+1)+j]) { d[p.left][ i*(n+1)+j] = 1; ch = true; }
				}
		}
		return d[ g.prods[0].left][ n];
	}
};
inline bool randomSentence( vr::Rng& rng, const Grammar& g, std::vector<int>& out, int maxlen)
{
	std::vector<int> form( 1, g.prods[0].left);
	for (int step=0; step<120; ++step)
	{
		size_t i = 0; while (i < form.size() && form[i] < 0) ++i;
		if (i == form.size()) { for (int s : form) out.push_back( -s); return true; }
		std::vector<int> c; for (size_t p=0; p<g.prods.size(); ++p) if (g.prods[p].left == form[i]) c.push_back( p);
		if (c.empty()) return false;
		int p = c[ rng.below( c.size())];
		if (step > 25) for (int x : c) if (g.prods[x].rhs.size() < g.prods[p].rhs.size()) p = x;
		std::vector<int> nf( form.begin(), form.begin()+i);
		nf.insert( nf.end(), g.prods[p].rhs.begin(), g.prods[p].rhs.end());
		nf.insert( nf.end(), form.begin()+i+1, form.end());
		if ((int)nf.size() > maxlen) return false;
		form.swap( nf);
	}
	return false;
}
// calls: numbered by their first occurrence in the text
inline void addCalls( vr::Rng& rng, Grammar& g, int pct, bool args=false)
{
	std::map<std::string,int> ids;
	for (auto& p : g.prods)
	{
		p.callidx = 0; p.scope = 0; p.call.clear();
		if (!rng.chance( pct)) { continue; }
		p.scope = rng.chance( 40) ? rng.range( 1, 2) : 0;
		if (p.scope && rng.chance( 15)) continue;
		p.call = vr::cat( "call", rng.below( 6));
		if (args) switch (rng.below( 5))
		{
			case 0: p.call += vr::cat( " \"s", rng.below(3), "\""); break;
			case 1: p.call += vr::cat( " obj", rng.below(3)); break;
			case 2: p.call += vr::cat( " ", rng.below(30)); break;
			case 3: p.call += vr::cat( " {a=", rng.below(4), ",b=\"x\"}"); break;
		}
	}
	for (auto& p : g.prods) if (!p.call.empty()) { auto ins = ids.insert( {p.call,(int)ids.size()+1}); p.callidx = ins.first->second; }
}
inline bool usable( const Grammar& g)
{
	std::set<std::vector<int> > dup;
	for (auto const& p : g.prods) { std::vector<int> k( 1, p.left); k.insert( k.end(), p.rhs.begin(), p.rhs.end()); if (!dup.insert( k).second) return false; }
	std::vector<bool> used( g.nnont+1,false), def( g.nnont+1,false), ut( g.nterm+1,false);
	for (auto const& p : g.prods) { def[p.left] = true; for (int s : p.rhs) if (s > 0) used[s] = true; else ut[-s] = true; }
	std::vector<bool> prd( g.nnont+1,false);
	for (bool ch=true; ch; ) { ch = false; for (auto const& p : g.prods) { bool ok = !prd[p.left]; for (int s : p.rhs) if (s > 0 && !prd[s]) ok = false; if (ok) { prd[p.left] = true; ch = true; } } }
	for (int n=1; n<=g.nnont; ++n) if (!prd[n]) return false;
	int start = g.prods[0].left;
	for (int n=1; n<=g.nnont; ++n) { if (!def[n] || (used[n] == (n == start))) return false; }
	for (int t=1; t<=g.nterm; ++t) if (!ut[t]) return false;
	return true;
}
// kind 0: no priorities, no calls; 1: no priorities; 2: priorities
inline Grammar random( vr::Rng& rng, int kind)
{
	for (;;)
	{
		Grammar g;
		int style = rng.below( 10);
		g.named = rng.chance( 30);
		if (style < 4 && kind == 2)
		{
			// expression grammars with operators of random priorities
			int nop = rng.range( 1, 3);
			g.nterm = nop + 1; g.nnont = 2;
			Prod s; s.left = 1; s.rhs = {2}; g.prods.push_back( s);
			for (int o=1; o<=nop; ++o)
			{
				Prod p; p.left = 2; int f = rng.below( 6);
				if (f < 4) p.rhs = {2,-o,2}; else if (f == 4) p.rhs = {-o,2}; else p.rhs = {2,-o};
				if (rng.chance( 90)) { p.prio.value = rng.below( 4); p.prio.assoc = "\0LR"[ rng.below( 3)]; }
				g.prods.push_back( p);
			}
			Prod a; a.left = 2; a.rhs = {-(nop+1)}; if (rng.chance( 20)) { a.prio.value = rng.below(3); a.prio.assoc = 'L'; } g.prods.push_back( a);
			if (rng.chance( 30)) { Prod p; p.left = 2; p.rhs = {2,-rng.range(1,nop),2,-rng.range(1,nop+1),2}; p.prio.value = rng.below( 4); p.prio.assoc = "\0LR"[ rng.below( 3)]; g.prods.push_back( p); }
		}
		else
		{
			g.nnont = rng.range( 2, rng.chance( 30) ? 7 : 5); g.nterm = rng.range( 1, 4);
			int np = rng.range( g.nnont, g.nnont + 5);
			for (int i=0; i<np; ++i)
			{
				Prod p; p.left = i == 0 ? 1 : i < g.nnont ? i+1 : rng.range( 2, g.nnont);
				int len = rng.chance( 20) ? 0 : rng.chance( 80) ? rng.range( 1, 3) : 4;
				if (i == 0 && !len) len = 1;
				for (int j=0; j<len; ++j) p.rhs.push_back( rng.chance( 45) ? -rng.range( 1, g.nterm) : rng.range( 2, g.nnont));
				if (kind == 2 && rng.chance( 60)) { p.prio.value = rng.below( 4); p.prio.assoc = "\0LR"[ rng.below( 3)]; }
				g.prods.push_back( p);
			}
			std::stable_sort( g.prods.begin(), g.prods.end(), []( const Prod& a, const Prod& b){ return a.left < b.left; });
		}
		if (!usable( g)) continue;
		if (kind) addCalls( rng, g, 50);
		return g;
	}
}
// grammars like those of programming languages, seldom with conflicts: optional parts, lists, chains, brackets, in any order of definition
inline Grammar structured( vr::Rng& rng)
{
	for (;;)
	{
		Grammar g; g.named = rng.chance( 30);
		int n = rng.range( 3, 8), nt = 0;
		auto term = [&]() { if (nt == 0 || (nt < 8 && rng.chance( 75))) return -(++nt); return -rng.range( 1, nt); };
		auto nont = [&]( int k) { return k >= n || rng.chance( 3) ? rng.range( 2, n) : rng.chance( 60) ? k+1 : rng.range( k+1, n); };
		auto sym = [&]( int k) { return k >= n || rng.chance( 30) ? term() : nont( k); };
		auto add = [&]( int k, std::vector<int> r) { Prod p; p.left = k; p.rhs = r; g.prods.push_back( p); };
		add( 1, {2});
		for (int k=2; k<=n; ++k)
		{
			int style = k == 2 ? 3 : rng.below( 8);
			switch (style)
			{
				case 0: add( k, {term()}); add( k, {}); break;
				case 1: add( k, {sym( k)}); break;
				case 2: { int c = sym( k); if (rng.chance( 50)) add( k, {k,c}); else add( k, {c,k}); if (rng.chance( 50)) add( k, {c}); else add( k, {}); break; }
				case 3: case 4:
				{
					std::vector<int> r; int len = rng.range( 2, 5);
					for (int i=0; i<len; ++i) { int c = sym( k); if (c < 0 || i == 0 || rng.chance( 15) || std::find( r.begin(), r.end(), c) == r.end()) r.push_back( c); }
					if (rng.chance( 50)) r.push_back( term());
					add( k, r); break;
				}
				case 5: add( k, {term(),rng.chance( 50) ? 2 : nont( k),term()}); add( k, {term()}); break;
				case 6: add( k, {term(),sym( k)}); add( k, {term(),sym( k)}); if (rng.chance( 40)) add( k, {}); break;
				case 7: { int c = sym( k); add( k, {k,term(),c}); add( k, {c}); break; }
			}
		}
		g.nnont = n; g.nterm = nt;
		std::vector<int> perm( n+1); for (int i=0; i<=n; ++i) perm[i] = i;
		for (int i=n; i>2; --i) if (rng.chance( 50)) std::swap( perm[i], perm[ rng.range( 2, i)]);
		for (auto& p : g.prods) { p.left = perm[ p.left]; for (int& s : p.rhs) if (s > 0) s = perm[s]; }
		std::stable_sort( g.prods.begin(), g.prods.end(), []( const Prod& a, const Prod& b){ return a.left < b.left; });
		if (!usable( g)) continue;
		addCalls( rng, g, 30);
		return g;
	}
}
inline Grammar make( int nnont, int nterm, std::vector<std::vector<int> > rules)
{
	Grammar g; g.nnont = nnont; g.nterm = nterm;
	for (auto const& r : rules) { Prod p; p.left = r[0]; p.rhs.assign( r.begin()+1, r.end()); g.prods.push_back( p); }
	return g;
}
inline std::vector<Grammar> classics()
{
	std::vector<Grammar> r;
	r.push_back( make( 4, 5, {{1,2},{2,2,-1,3},{2,3},{3,3,-2,4},{3,4},{4,-3},{4,-4,2,-5}}));
	r.push_back( make( 3, 2, {{1,2},{2,3,3},{3,-1,3},{3,-2}}));
	r.push_back( make( 4, 3, {{1,2},{2,3,4,-1},{3},{3,-2},{4},{4,-3}}));
	r.push_back( make( 3, 2, {{1,2},{2,2,3},{2},{3,-1},{3,-2,2,-2}}));
	r.push_back( make( 4, 3, {{1,2},{2,3,-1,4},{2,4},{3,-2,4},{3,-3},{4,3}}));
	r.push_back( make( 5, 3, {{1,2},{2,3,4,5},{3,-1},{3},{4,-2},{4},{5,-3},{5}}));
	return r;
}
}
