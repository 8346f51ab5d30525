// packed tables (C11), transition items and priorities (C12), FlatSet (C13)
#include "vr.hpp"
#include "automaton.hpp"
#include "automaton_structs.hpp"
#include <limits>
using namespace mewa;
using vr::cat;
typedef Automaton A;

static std::vector<int> around(int lim)
{
	std::set<int> s;
	for (int b=1; b<=lim; b*=2) for (int d=-1; d<=1; ++d) if (b+d >= 0 && b+d < lim) s.insert(b+d);
	s.insert(0); s.insert(lim-1); s.insert(lim/2); s.insert(lim/3);
	return {s.begin(),s.end()};
}

static void packing(vr::Rng& r)
{
	// state x terminal exhaustively
	for (int st=0; st<4096; ++st)
	{
		vr::begin( cat( "action and goto keys with state ", st), st > 0);
		for (int t=0; t<1024; ++t)
		{
			A::ActionKey k( st, t); A::ActionKey u = A::ActionKey::unpack( k.packed());
			VR_CHECK( k.state() == st && k.terminal() == t, "ActionKey fields state=", st, " terminal=", t);
			VR_CHECK( u.state() == st && u.terminal() == t && u == k && !(u != k) && !(u < k) && !(k < u), "ActionKey round trip state=", st, " terminal=", t, " got state=", u.state(), " terminal=", u.terminal());
			VR_CHECK( k.packed() > 0 || (!st && !t && k.packed() == 0), "ActionKey packed value ", k.packed(), " not positive state=", st, " terminal=", t);
			if (t < 256)
			{
				A::GotoKey g( st, t); A::GotoKey v = A::GotoKey::unpack( g.packed());
				VR_CHECK( g.state() == st && g.nonterminal() == t, "GotoKey fields state=", st, " nonterminal=", t);
				VR_CHECK( v.state() == st && v.nonterminal() == t && v == g && !(v != g) && !(v < g) && !(g < v), "GotoKey round trip state=", st, " nonterminal=", t);
				VR_CHECK( g.packed() > 0 || (!st && !t && g.packed() == 0), "GotoKey packed value not positive state=", st, " nonterminal=", t);
			}
		}
		A::Goto g( st); VR_CHECK( A::Goto::unpack( g.packed()) == g && g.state() == st && A::Goto::unpack( g.packed()).state() == st, "Goto round trip state=", st);
		VR_CHECK( g.packed() >= 0 && (g.packed() > 0) == (st > 0), "Goto packed value ", g.packed(), " state=", st);
		int o = r.below( 4096); A::Goto h( o); VR_CHECK( (g == h) == (st == o) && (g != h) == (st != o), "Goto comparison ", st, " ", o);
	}
	// actions: every pair of fields exhaustively, others at boundaries, in random and grid combinations
	std::vector<int> vs = around( 4096), cs = around( 1024);
	auto chk = [&]( int ty, int sf, int v, int c, int n)
	{
		A::Action a( (A::Action::Type)ty, (A::Action::ScopeFlag)sf, v, c, n);
		A::Action u = A::Action::unpack( a.packed());
		VR_CHECK( u.type() == ty && u.scopeflag() == sf && u.state() == v && u.nonterminal() == v && u.call() == c && u.count() == n && u == a && !(u != a),
			"Action round trip type=", ty, " scopeflag=", sf, " value=", v, " call=", c, " count=", n, " got type=", (int)u.type(), " scopeflag=", (int)u.scopeflag(), " value=", u.state(), " call=", u.call(), " count=", u.count());
		VR_CHECK( a.packed() > 0 || !(ty||sf||v||c||n), "Action packed value ", a.packed(), " not positive type=", ty, " scopeflag=", sf, " value=", v, " call=", c, " count=", n);
		int f[5] = {ty,sf,v,c,n}; int lim[5] = {3,3,4096,1024,16};
		for (int i=0; i<5; ++i)
		{	// one field changed
			int g[5]; std::copy( f, f+5, g); g[i] = (f[i] + 1 + (i >= 2 ? r.below(lim[i]-1) : r.below(2))) % lim[i];
			A::Action b( (A::Action::Type)g[0], (A::Action::ScopeFlag)g[1], g[2], g[3], g[4]);
			VR_CHECK( !(a == b) && (a != b) && a.packed() != b.packed(), "different actions equal: type=", ty, " scopeflag=", sf, " value=", v, " call=", c, " count=", n, " changed field ", i, " to ", g[i]);
		}
	};
	for (int ty=0; ty<3; ++ty) for (int sf=0; sf<3; ++sf) for (int n=0; n<16; ++n)
	{
		vr::begin( cat( "actions type=", ty, " scopeflag=", sf, " count=", n));
		for (int v : vs) for (int c : cs) chk( ty, sf, v, c, n);
		VR_CHECK( A::Action::reduce( n, (A::Action::ScopeFlag)sf, n*7, n) == A::Action( A::Action::Reduce, (A::Action::ScopeFlag)sf, n, n*7, n), "reduce() fields");
		VR_CHECK( A::Action::accept( n, (A::Action::ScopeFlag)sf, n*7, n) == A::Action( A::Action::Accept, (A::Action::ScopeFlag)sf, n, n*7, n), "accept() fields");
	}
	for (int v=0; v<4096; ++v) VR_CHECK( A::Action::shift( v) == A::Action( A::Action::Shift, A::Action::NoScope, v, 0, 0), "shift() fields");
	vr::begin( "actions: each value with each call at one count");
	for (int v=0; v<4096; ++v) chk( v%3, v%2, v, (v*7)%1024, v%16);
	while (vr::more( 0.6)) { vr::begin( cat( "random actions ", vr::evals())); for (int i=0; i<1000; ++i) chk( r.below(3), r.below(3), r.below(4096), r.below(1024), r.below(16)); }
	while (vr::more())
	{
		vr::begin( cat( "order of random keys ", vr::evals()));
		for (int i=0; i<1000; ++i)
		{
			int s = r.below(4096), t = r.below(1024), s2 = r.chance(40) ? s : r.below(4096), t2 = r.chance(40) ? t : r.below(1024);
			bool l = s < s2 || (s == s2 && t < t2), e = s == s2 && t == t2;
			A::ActionKey a( s, t), b( s2, t2);
			VR_CHECK( (a < b) == l && (a == b) == e && (a != b) == !e && (a.packed() == b.packed()) == e, "ActionKey comparison of (", s, ",", t, ") and (", s2, ",", t2, ")");
			t %= 256; t2 %= 256; l = s < s2 || (s == s2 && t < t2); e = s == s2 && t == t2;
			A::GotoKey c( s, t), d( s2, t2);
			VR_CHECK( (c < d) == l && (c == d) == e && (c != d) == !e && (c.packed() == d.packed()) == e, "GotoKey comparison of (", s, ",", t, ") and (", s2, ",", t2, ")");
		}
	}
}

static void items(vr::Rng& r)
{
	for (int p=0; p<512; ++p)
	{
		vr::begin( cat( "items of production ", p), p > 0);
		for (int q=0; q<16; ++q) for (int f=0; f<1024; ++f)
		{
			TransitionItem i( p, q, f), u = TransitionItem::unpack( i.packed());
			VR_CHECK( u.prodindex == p && u.prodpos == q && u.follow == f, "item round trip production=", p, " position=", q, " lookahead=", f, " got production=", u.prodindex, " position=", u.prodpos, " lookahead=", u.follow);
			VR_CHECK( u == i && !(u != i) && u.equal( i), "item equality production=", p, " position=", q, " lookahead=", f);
			VR_CHECK( i.packed() >= 0 && (i.packed() > 0) == (p||q||f), "item packed value ", i.packed());
		}
	}
	while (vr::more( 0.5))
	{
		vr::begin( cat( "random items ", vr::evals()));
		for (int k=0; k<1000; ++k)
		{
			int a[3] = {r.below(512),r.below(16),r.below(1024)}, b[3] = {r.chance(50) ? a[0] : r.below(512), r.chance(50) ? a[1] : r.below(16), r.chance(50) ? a[2] : r.below(1024)};
			bool l = std::lexicographical_compare( a, a+3, b, b+3), e = std::equal( a, a+3, b);
			TransitionItem x( a[0], a[1], a[2]), y( b[0], b[1], b[2]);
			VR_CHECK( (x < y) == l && (x == y) == e && (x != y) == !e && (x.packed() < y.packed()) == l, "item order of (", a[0], ",", a[1], ",", a[2], ") and (", b[0], ",", b[1], ",", b[2], ")");
		}
	}
	for (int v=0; v<32768; v += (v < 300 ? 1 : 37)) for (int s=0; s<3; ++s)
	{
		vr::begin( cat( "priority ", v, " associativity ", s), v > 0);
		Priority p( v, (Assoziativity)s), u = Priority::unpack( p.packed());
		VR_CHECK( u.value == v && (int)u.assoziativity == s && u == p && !(u != p) && !(u < p) && !(p < u), "priority round trip value=", v, " associativity=", s, " got value=", u.value, " associativity=", (int)u.assoziativity);
		VR_CHECK( p.defined() == (v || s), "priority defined value=", v, " associativity=", s);
		for (int k=0; k<20; ++k)
		{
			int v2 = r.chance(50) ? v : r.below(32768), s2 = r.below(3);
			Priority q( v2, (Assoziativity)s2);
			bool e = v == v2 && s == s2, l = v < v2 || (v == v2 && s < s2);
			VR_CHECK( (p == q) == e && (p != q) == !e && (p < q) == l && (p.packed() == q.packed()) == e, "priority comparison of (", v, ",", s, ") and (", v2, ",", s2, ")");
		}
	}
}

static void same( const FlatSet<int>& f, const std::set<int>& s, const char* what)
{
	VR_CHECK( f.size() == s.size(), what, ": size ", f.size(), " expected ", s.size());
	auto si = s.begin();
	for (int x : f) { VR_CHECK( x == *si, what, ": element ", x, " expected ", *si); ++si; }
	VR_CHECK( f.empty() == s.empty(), what, ": empty()");
}

static void flatset(vr::Rng& r)
{
	for (long it=0; vr::more(); ++it)
	{
		std::string tx;
		FlatSet<int> f[3]; std::set<int> s[3];
		int n = it < 50 ? 3 : r.range( 1, r.chance(3) ? 400 : 25), span = r.chance(20) ? 1000000000 : r.range( 2, 40);
		vr::begin( "", false);
		std::ostringstream o;
		vr::lazycur() = [&]() { return o.str(); };
		auto val = [&]() { int x = r.range( -span, span); if (r.chance(2)) x = r.chance(50) ? std::numeric_limits<int>::max() : std::numeric_limits<int>::min(); return x; };
		for (int i=0; i<n; ++i)
		{
			int a = r.below(3), b = r.below(3);
			switch (r.below(11))
			{
				case 0: case 1: case 2: case 3: { int x = val(); o << "s" << a << ".insert(" << x << "); "; bool e = s[a].insert( x).second, g = f[a].insert( x); VR_CHECK( e == g, "insert of ", x, " returned ", g); break; }
				case 4: { std::vector<int> v; int k = r.chance(5) ? 200 : r.below(6); for (int j=0; j<k; ++j) v.push_back( val()); o << "s" << a << ".insert({"; for (int x : v) o << x << ","; o << "}); ";
					bool e = false; for (int x : v) e |= s[a].insert( x).second; bool g = f[a].insert( v.begin(), v.end()); VR_CHECK( e == g, "insert of a range returned ", g); break; }
				case 5: if (a != b) { o << "s" << a << ".insert(s" << b << "); "; bool e = false; for (int x : s[b]) e |= s[a].insert( x).second; bool g = f[a].insert( f[b].begin(), f[b].end()); VR_CHECK( e == g, "union returned ", g); } break;
				case 6: { o << "s" << a << "=s" << b << "; "; FlatSet<int>& x = f[a]; x = f[b]; s[a] = std::set<int>( s[b]); break; }
				case 7: { o << "s" << a << "=copy of s" << b << "; "; FlatSet<int> c( f[b]); same( c, s[b], "copy"); f[a] = std::move( c); s[a] = std::set<int>( s[b]); break; }
				case 8: { int x = val(), y = val(), z = val(); o << "s" << a << "={" << x << "," << y << "," << z << "}; "; FlatSet<int> c{ x, y, z}; f[a] = std::move( c); s[a] = {x,y,z}; break; }
				case 9: if (r.chance(15)) { o << "s" << a << ".clear(); "; f[a].clear(); s[a].clear(); } break;
				case 10: { o << "TransitionState of s" << a << "; "; TransitionState t; std::set<int> e; for (int x : s[a]) { int y = x & 0x7fffff; t.insert( TransitionItem::unpack( y)); e.insert( y); } same( t.packedElements(), e, "packed elements of a transition state");
					TransitionState t2( t), t3; t3.insert( TransitionItem( 1, 2, 3)); t3 = t; VR_CHECK( t2 == t && t3 == t && !(t2 != t) && t.hash() == t2.hash(), "copies of a transition state are equal"); std::set<int> j = e; TransitionState t4; t4.insert( TransitionItem( 5, 1, 2)); j.insert( TransitionItem( 5, 1, 2).packed()); t4.join( t); same( t4.packedElements(), j, "joined transition states");
					auto u = t.unpack(); VR_CHECK( u.size() == e.size() && t.size() == e.size(), "number of items of a transition state"); auto ei = e.begin(); for (auto& x : u) { VR_CHECK( x.packed() == *ei, "item of a transition state"); ++ei; } break; }
			}
			for (int k=0; k<3; ++k) same( f[k], s[k], "set");
			int x = val();
			for (int k=0; k<3; ++k) { VR_CHECK( f[k].contains( x) == (s[k].count( x) > 0), "contains(", x, ") of s", k); if (!s[k].empty()) { int y = *std::next( s[k].begin(), r.below( s[k].size())); VR_CHECK( f[k].contains( y), "contains(", y, ") of s", k, " is false"); } }
			for (int k=0; k<3; ++k) for (int m=0; m<3; ++m)
			{
				bool e = s[k] == s[m];
				VR_CHECK( (f[k] == f[m]) == e && (f[k] != f[m]) == !e, "equality of s", k, " and s", m);
				VR_CHECK( (f[k] < f[m]) + (f[m] < f[k]) == !e, "order of s", k, " and s", m, " is not total");
			}
		}
		std::string t = o.str(); if (n > 1) vr::seen().insert( vr::hash( t)); if (vr::samples().size() < 4) vr::samples().push_back( t.substr( 0, 300));
		vr::lazycur() = nullptr;
	}
	// handles of sets
	while (vr::more( 1.3))
	{
		IntSetHandleMap h; std::map<std::vector<int>,int> m;
		vr::begin( cat( "set handles ", vr::evals()));
		for (int i=0; i<60; ++i)
		{
			FlatSet<int> f; int n = r.below(4); for (int k=0; k<n; ++k) f.insert( r.below(6));
			int hd = h.get( f); auto in = m.insert( {f, hd});
			VR_CHECK( in.first->second == hd, "handle of a set changed");
			for (auto& e : m) { VR_CHECK( (e.second == hd) == (e.first == (const std::vector<int>&)f), "two sets share a handle"); VR_CHECK( (const std::vector<int>&)h.content( e.second) == e.first, "content of a handle"); }
		}
	}
}

int main( int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng r( vr::seed());
	if (vr::prop() == "packing") packing( r); else if (vr::prop() == "items") items( r); else if (vr::prop() == "flatset") flatset( r);
	return vr::finish();
}
