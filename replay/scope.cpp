#include "vr.hpp"
#include "scope.hpp"
#include "memory_resource.hpp"
using namespace mewa;
using vr::cat;
typedef std::pair<int,int> Sc;
static bool nests(const Sc& a, const Sc& b) { return a.second <= b.first || b.second <= a.first || (a.first <= b.first && b.second <= a.second) || (b.first <= a.first && a.second <= b.second); }
static bool contains(const Sc& a, const Sc& b) { return a.first <= b.first && b.second <= a.second; }
static std::string str(const Sc& s) { return cat("[", s.first, ",", s.second, ")"); }

// random laminar family, in random order
static std::vector<Sc> family(vr::Rng& r, int n, int maxstep)
{
	std::vector<Sc> rt;
	for (int tries=0; (int)rt.size() < n && tries < n*8; ++tries)
	{
		Sc s;
		if (!rt.empty() && r.chance(50))
		{	// derived from an existing scope: same end, same start, adjacent, nested by one
			const Sc& o = rt[ r.below( rt.size())];
			switch (r.below(6)) { case 0: s = {r.range(0,o.second-1), o.second}; break; case 1: if (o.first >= maxstep) continue; s = {o.first, r.range(o.first+1,maxstep)}; break; case 2: if (o.second > maxstep) continue; s = {o.second, r.range(o.second+1, maxstep+1)}; break;
				case 3: s = {o.first+1,o.second-1}; break; case 4: s = {o.first-1,o.second < maxstep ? o.second+1 : maxstep}; break; default: s = o; }
		}
		else { int a = r.range(0,maxstep-1); s = {a, r.range(a+1,maxstep)}; }
		if (r.chance(3)) s = {0, std::numeric_limits<int>::max()};
		if (s.first < 0 || s.first >= s.second) continue;
		bool ok = true;
		for (auto& o : rt) if (!nests(o,s)) { ok = false; break; }
		if (ok) rt.push_back( s);
	}
	return rt;
}

struct Def { Sc sc; int key; int val; };
static std::string hist(const std::vector<Def>& ds, const char* op) { std::string s; for (auto& d : ds) s += cat(op, " scope=", str(d.sc), " key=", d.key, " value=", d.val, "; "); return s; }

static std::vector<int> steps(const std::vector<Def>& ds)
{
	std::set<int> st{0,1};
	for (auto& d : ds) for (long x : {d.sc.first-1L,d.sc.first+0L,d.sc.first+1L,d.sc.second-1L,d.sc.second+0L,d.sc.second+1L}) if (x >= 0 && x < std::numeric_limits<int>::max()) st.insert(x);
	return {st.begin(),st.end()};
}

static const int NUL = -77;
static int oracle(const std::vector<Def>& ds, int step, int key)
{
	const Def* best = nullptr;
	for (auto& d : ds) if (d.key == key && d.sc.first <= step && step < d.sc.second) if (!best || contains(best->sc,d.sc)) best = &d;
	return best ? best->val : NUL;
}
static int oracle_def(const std::vector<Def>& ds, Sc sc, int key) { for (auto& d : ds) if (d.key == key && d.sc == sc) return d.val; return NUL; }

static void checkInstance(const std::vector<Def>& ops)
{
	vr::begin( hist( ops, "set"), ops.size() > 1);
	ScopedInstance<int> inst( std::pmr::get_default_resource(), NUL, 0);
	std::vector<Def> ds;
	for (auto& o : ops)
	{
		inst.set( Scope(o.sc.first,o.sc.second), o.val);
		bool f = false;
		for (auto& d : ds) if (d.sc == o.sc) { d.val = o.val; f = true; }
		if (!f) ds.push_back( o);
		for (auto& d : ds) VR_CHECK( inst.getThis( Scope(d.sc.first,d.sc.second)) == d.val, "exact lookup of ", str(d.sc), " expected ", d.val, " got ", inst.getThis( Scope(d.sc.first,d.sc.second)));
		for (int s : steps( ds)) { int e = oracle( ds, s, 0), g = inst.get( s); VR_CHECK( g == e, "lookup at step ", s, " expected ", e, " got ", g); }
	}
	for (auto& d : ds) for (int k=0; k<4; ++k)
	{
		Sc sc{d.sc.first + (k==0) - (k==1), d.sc.second == std::numeric_limits<int>::max() ? d.sc.second - (k==3) : d.sc.second + (k==2) - (k==3)};
		if (sc.first < 0 || sc.second <= sc.first) continue;
		int e = oracle_def( ds, sc, 0), g = inst.getThis( Scope(sc.first,sc.second));
		VR_CHECK( g == e, "exact lookup of ", str(sc), " expected ", e, " got ", g);
	}
}

static void checkMap(const std::vector<Def>& ops, vr::Rng& r)
{
	std::vector<int> mode; for (size_t i=0; i<ops.size(); ++i) mode.push_back( r.below(2));
	std::string tx; for (size_t i=0; i<ops.size(); ++i) tx += hist( {ops[i]}, mode[i] ? "getOrSet" : "set");
	vr::begin( tx, ops.size() > 1);
	ScopedMap<int,int> m( std::pmr::get_default_resource(), NUL, 0);
	std::vector<Def> ds;
	std::set<int> keys;
	for (size_t i=0; i<ops.size(); ++i)
	{
		const Def& o = ops[i];
		Scope sc(o.sc.first,o.sc.second);
		int old = oracle_def( ds, o.sc, o.key);
		if (mode[i]) { int g = m.getOrSet( sc, o.key, o.val); VR_CHECK( g == old, "getOrSet returned ", g, " expected ", old); }
		else { bool g = m.set( sc, o.key, o.val); VR_CHECK( g == (old == NUL), "set returned ", g); }
		if (old == NUL) ds.push_back( o);
		keys.insert( o.key); keys.insert( o.key+1);
		for (int k : keys)
		{
			for (auto& d : ds) { int e = oracle_def( ds, d.sc, k), g = m.getDef( Scope(d.sc.first,d.sc.second), k); VR_CHECK( g == e, "exact lookup of ", str(d.sc), " key ", k, " expected ", e, " got ", g); }
			for (int s : steps( ds))
			{
				int e = oracle( ds, s, k), g = m.get( s, k); VR_CHECK( g == e, "lookup at step ", s, " key ", k, " expected ", e, " got ", g);
				// all visible definitions of the key, innermost first
				std::vector<int> want, got;
				std::vector<Def> vis; for (auto& d : ds) if (d.key == k && d.sc.first <= s && s < d.sc.second) vis.push_back( d);
				std::sort( vis.begin(), vis.end(), [](const Def& a, const Def& b){ return a.sc.second - (long)a.sc.first < b.sc.second - (long)b.sc.first; });
				for (auto& d : vis) want.push_back( d.val);
				auto rg = m.match_range( s, k); int guard = 0;
				for (auto ri = rg.first; ri != rg.second && guard < 1000; ++ri, ++guard) got.push_back( *ri);
				VR_CHECK( got == want, "definitions visible at step ", s, " key ", k, ": ", got.size(), " instead of ", want.size(), " or in the wrong order");
			}
		}
	}
}

struct Rel { Sc sc; int left, right, val, tag; float w; };
static void checkRel(vr::Rng& r, int nfam, int maxstep, int nkeys, int nops, int ntags)
{
	auto fam = family( r, nfam, maxstep);
	std::vector<Rel> ops;
	for (int i=0; i<nops; ++i)
	{
		static const int tg[] = {1,2,3,31,32,8,16,17};
		ops.push_back( {fam[r.below(fam.size())], r.below(nkeys), r.below(nkeys), r.below(4), r.chance(2) ? (r.chance(50) ? 0 : 33) : tg[ r.below( ntags)], r.chance(2) ? -0.5f : 0.25f * r.below(5)});
	}
	std::string tx; for (auto& o : ops) tx += cat("set scope=", str(o.sc), " ", o.left, "->", o.right, " value=", o.val, " tag=", o.tag, " weight=", o.w, "; ");
	vr::begin( tx, ops.size() > 1);
	ScopedRelationMap<int,int> m( std::pmr::get_default_resource(), 0);
	std::vector<Rel> ds;
	for (auto& o : ops)
	{
		int exp = 0;
		const Rel* dup = nullptr;
		for (auto& d : ds) if (d.sc == o.sc && d.left == o.left && d.right == o.right && d.tag == o.tag) dup = &d;
		if (o.tag < 1 || o.tag > 32) exp = Error::BadRelationTag;
		else if (o.w < 0) exp = Error::BadRelationWeight;
		else if (dup && dup->val != o.val) exp = Error::DuplicateDefinition;
		int got = 0;
		try { m.set( Scope(o.sc.first,o.sc.second), o.left, o.right, o.val, o.tag, o.w); } catch (const Error& e) { got = e.code(); }
		VR_CHECK( got == exp, "set scope=", str(o.sc), " ", o.left, "->", o.right, " value=", o.val, " tag=", o.tag, " result code ", got, " expected ", exp);
		if (!exp && !dup) ds.push_back( o);
	}
	std::vector<Def> dd; for (auto& d : ds) dd.push_back( {d.sc,d.left,0});
	for (int s : steps( dd)) for (int k=0; k<nkeys; ++k)
	{
		std::set<unsigned> masks{0xffffffffu, 1u, 2u, 0u, 0x80000000u, (unsigned)r.next()};
		for (unsigned mask : masks)
		{
			struct E { int right, val, tagval; float w; };
			std::vector<E> want;
			std::vector<Rel> vis; for (auto& d : ds) if (d.left == k && d.sc.first <= s && s < d.sc.second) vis.push_back( d);
			std::stable_sort( vis.begin(), vis.end(), [](const Rel& a, const Rel& b){ return a.sc.second - (long)a.sc.first < b.sc.second - (long)b.sc.first; });
			for (auto& d : vis) if (mask >> (d.tag-1) & 1u)
			{
				bool f = false; for (auto& w : want) f |= w.right == d.right;
				if (!f) want.push_back( {d.right,d.val,d.tag-1,d.w});
			}
			auto got = m.get( s, k, TagMask(mask), std::pmr::get_default_resource());
			bool eq = got.size() == want.size();
			for (size_t i=0; eq && i<want.size(); ++i) eq = got[i].right() == want[i].right && got[i].value() == want[i].val && got[i].tagval() == want[i].tagval && got[i].weight() == want[i].w;
			VR_CHECK( eq, "relations of ", k, " at step ", s, " with tag mask ", mask, ": ", got.size(), " results, expected ", want.size(), " (or different content)");
		}
	}
}

static void enumerate(int maxstep, int n, const std::function<void(const std::vector<Sc>&)>& f)
{
	std::vector<Sc> all; for (int a=0; a<maxstep; ++a) for (int b=a+1; b<=maxstep; ++b) all.push_back( {a,b});
	std::vector<Sc> cur;
	std::function<void()> rec = [&]() {
		if (!cur.empty()) f( cur);
		if ((int)cur.size() == n) return;
		for (auto& s : all) { bool ok = true; for (auto& c : cur) ok = ok && nests( c, s); if (ok) { cur.push_back( s); rec(); cur.pop_back(); } }
	};
	rec();
}

template <class ITEM>
static void flat(const Tree<ITEM>& t, size_t idx, Sc parent, std::vector<std::pair<Sc,typename std::decay<decltype(std::declval<ITEM>().value)>::type>>& out, std::vector<Sc>& parents, int depth = 0)
{
	VR_CHECK( depth < 1000, "tree too deep");
	for (size_t ni = idx; ni; ni = t[ni].next())
	{
		const auto& it = t[ni].item();
		Sc sc{it.scope.start(),it.scope.end()};
		out.push_back( {sc,it.value}); parents.push_back( parent);
		VR_CHECK( out.size() < 10000, "tree does not end");
		if (t[ni].chld()) flat( t, t[ni].chld(), sc, out, parents, depth+1);
	}
}

static const Sc NOPAR{-1,-1};
// every definition occurs once, below the smallest enclosing scope that is in the tree
template <class VAL>
static void checkTreeShape(const std::vector<std::pair<Sc,VAL>>& out, const std::vector<Sc>& par)
{
	std::set<Sc> u; for (auto& o : out) { VR_CHECK( u.insert( o.first).second, "scope ", str(o.first), " twice in the tree"); }
	for (size_t i=0; i<out.size(); ++i)
	{
		const Sc* best = nullptr;
		for (auto& o : out) if (o.first != out[i].first && contains( o.first, out[i].first) && (!best || contains( *best, o.first))) best = &o.first;
		VR_CHECK( par[i] == (best ? *best : NOPAR), "scope ", str(out[i].first), " is below ", str(par[i]), " instead of ", best ? str(*best) : std::string("the root"));
	}
}
static void checkTreeInst(const std::vector<Def>& ops)
{
	vr::begin( "tree of " + hist( ops, "set"), ops.size() > 1);
	ScopedInstance<int> inst( std::pmr::get_default_resource(), NUL, 0);
	std::map<Sc,int> want;
	for (auto& o : ops) { inst.set( Scope(o.sc.first,o.sc.second), o.val); want[o.sc] = o.val; }
	auto t = inst.getTree();
	std::vector<std::pair<Sc,int>> out; std::vector<Sc> par;
	flat( t, 1, NOPAR, out, par);
	checkTreeShape( out, par);
	std::map<Sc,int> got; for (auto& o : out) if (!(o.second == NUL && !want.count(o.first))) got[o.first] = o.second;
	VR_CHECK( got == want, "the tree has ", got.size(), " definitions instead of ", want.size(), " (or other values)");
}
static void checkTreeMap(const std::vector<Def>& ops)
{
	vr::begin( "tree of map " + hist( ops, "set"), ops.size() > 1);
	ScopedMap<int,int> m( std::pmr::get_default_resource(), NUL, 0);
	std::map<Sc,std::set<std::pair<int,int>>> want;
	for (auto& o : ops) if (m.set( Scope(o.sc.first,o.sc.second), o.key, o.val)) want[o.sc].insert( {o.key,o.val});
	auto t = m.getTree();
	std::vector<std::pair<Sc,std::vector<std::pair<int,int>>>> out; std::vector<Sc> par;
	flat( t, 1, NOPAR, out, par);
	checkTreeShape( out, par);
	std::map<Sc,std::set<std::pair<int,int>>> got;
	for (auto& o : out) if (!o.second.empty()) { got[o.first] = std::set<std::pair<int,int>>( o.second.begin(), o.second.end()); VR_CHECK( got[o.first].size() == o.second.size(), "entry twice in the tree"); }
	VR_CHECK( got == want, "the tree of the map has ", got.size(), " scopes with definitions instead of ", want.size(), " (or other values)");
}

// tree of a relation map: every definition once, below the smallest enclosing scope
static void checkTreeRel(vr::Rng& r)
{
	auto fam = family( r, r.range(1,7), r.range(3,20));
	ScopedRelationMap<int,int> m( std::pmr::get_default_resource(), 0);
	typedef std::tuple<int,int,int,int,float> E;
	std::map<Sc,std::multiset<E>> want;
	std::string tx = "tree of relations ";
	int n = r.range(1,12), nk = r.range(1,3);
	for (int i=0; i<n; ++i)
	{
		Sc sc = fam[r.below(fam.size())]; int l = r.below(nk), q = r.below(nk), v = r.below(3), tag = r.chance(50) ? 1 : r.range(1,32); float w = 0.25f * r.below(4);
		tx += cat( str(sc), " ", l, "->", q, " value=", v, " tag=", tag, " weight=", w, "; ");
		bool dup = false; for (auto& e : want[sc]) dup |= std::get<0>(e) == l && std::get<1>(e) == q && std::get<3>(e) == tag;
		try { m.set( Scope(sc.first,sc.second), l, q, v, tag, w); } catch (const Error&) {}
		if (!dup) want[sc].insert( E(l,q,v,tag,w));
	}
	vr::begin( tx, n > 1);
	auto t = m.getTree();
	std::vector<std::pair<Sc,std::vector<ScopedRelationMap<int,int>::TreeNodeElement>>> out; std::vector<Sc> par;
	flat( t, 1, NOPAR, out, par);
	checkTreeShape( out, par);
	std::map<Sc,std::multiset<E>> got;
	for (auto& o : out) for (auto& e : o.second) got[o.first].insert( E(e.relation.first, e.relation.second, e.value, e.tag, e.weight));
	VR_CHECK( got == want, "the tree of the relations has other definitions than the map");
}
// the tree structure by itself: random additions of children and siblings against a plain list of children per node
struct TM { std::vector<int> item, par; std::vector<std::vector<int>> ch; };
static void dump(const TM& m, int n, int depth, std::vector<std::pair<int,int>>& out, bool dbl)
{
	out.push_back( {dbl ? 1000 + 2*m.item[n] : m.item[n], depth});
	for (int c : m.ch[n]) dump( m, c, depth+1, out, dbl);
}
static void dumpT(const Tree<int>& t, size_t n, int depth, std::vector<std::pair<int,int>>& out)
{
	VR_CHECK( out.size() < 5000, "tree does not end");
	out.push_back( {t[n].item(), depth});
	for (size_t c = t[n].chld(); c; c = t[c].next()) dumpT( t, c, depth+1, out);
}
static std::vector<std::pair<int,int>> listT(const Tree<int>& t) { std::vector<std::pair<int,int>> o; dumpT( t, 1, 0, o); VR_CHECK( t[1].next() == 0, "the root has a sibling"); return o; }
static void checkTree(vr::Rng& r, int n)
{
	Tree<int> t( 7);
	TM m; m.item = {0,7}; m.par = {0,0}; m.ch = {{},{}};
	std::string tx = "root(7) ";
	for (int i=0; i<n; ++i)
	{
		int v = r.range(0,99), at;
		bool sib = r.chance(30);
		if (sib) { do at = r.range(1, m.item.size()-1); while (at > 1 && m.ch[m.par[at]][0] != at); if (at == 1) sib = false; }
		else at = r.chance(30) ? (int)m.item.size()-1 : r.range(1, m.item.size()-1);
		int par = sib ? m.par[at] : at;
		tx += cat( sib ? "addSibling(" : "addChild(", at, ",", v, ") ");
		vr::begin( tx, i > 1);
		VR_CHECK( t.nextAddIndex() == m.item.size(), "next index ", t.nextAddIndex(), " instead of ", m.item.size());
		size_t idx = sib ? t.addSibling( at, v) : t.addChild( at, v);
		int id = m.item.size();
		m.item.push_back( v); m.par.push_back( par); m.ch.push_back( {}); m.ch[par].push_back( id);
		VR_CHECK( idx == (size_t)id, "index of the new node ", idx, " instead of ", id);
		std::vector<std::pair<int,int>> want, got;
		dump( m, 1, 0, want, false);
		VR_CHECK( listT( t) == want, "tree differs after the last addition");
		for (size_t k=1; k<m.item.size(); ++k) VR_CHECK( t[k].item() == m.item[k], "item of node ", k, " is ", t[k].item(), " instead of ", m.item[k]);
		auto it = t.begin();
		for (; it != t.end() && got.size() <= want.size(); ++it) got.push_back( {it->item(), (int)it.depth()});
		for (auto& w : want) w.second += got.empty() ? 0 : got[0].second;
		VR_CHECK( got == want, "depth first iteration visits other nodes or in other order or depth");
		if (i == n-1)
		{
			want.clear(); dump( m, 1, 0, want, true);
			auto tr = [](int x) { return 1000 + 2*x; };
			Tree<int> q = t.translate<int>( tr);
			VR_CHECK( listT( q) == want, "translated tree differs");
			want.clear(); dump( m, 1, 0, want, false);
			Tree<int> c( t), a( 1); a = t;
			c.addChild( 1, 55); VR_CHECK( listT( t) == want && listT( a) == want, "copied tree differs");
			a.addChild( 1, 55); VR_CHECK( listT( t) == want && listT( c) == listT( a), "copied tree differs after an addition");
			Tree<int> mv( std::move( a)); VR_CHECK( listT( mv) == listT( c), "moved tree differs");
			Tree<int> ma( 7); ma.addChild( 1, 8); ma = std::move( mv); VR_CHECK( listT( ma) == listT( c), "tree assigned by move differs");
			{ auto x = ma.addChild( 1, 56); auto y = c.addChild( 1, 56); VR_CHECK( x == y && listT( ma) == listT( c), "tree assigned by move differs after an addition"); }
			for (int k=0; k<2; ++k) { bool th = false; try { if (k) c.addSibling( 1, 1); else c.addSibling( 0, 1); } catch (const Error& e) { th = e.code() == Error::LogicError; } VR_CHECK( th && listT( ma) == listT( c), "sibling of the root or of no node is accepted or changes the tree"); }
			for (int k=0; k<2; ++k) { bool th = false; try { if (k) (void)c[0]; else (void)static_cast<const Tree<int>&>(c)[0]; } catch (const Error& e) { th = e.code() == Error::LogicError; } VR_CHECK( th, "access of no node is accepted"); }
			bool thr = false; try { t.addChild( 0, 1); } catch (const Error& e) { thr = e.code() == Error::LogicError; }
			VR_CHECK( thr, "child of no node is accepted");
			VR_CHECK( listT( t) == want, "refused addition changes the tree");
		}
	}
}

int main(int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng r( vr::seed());
	const std::string p = vr::prop();
	auto defs = [&]( const std::vector<Sc>& scs, int nkeys) { std::vector<Def> d; int v = 1; for (auto& s : scs) d.push_back( {s, nkeys ? r.below(nkeys) : 0, v++}); return d; };
	if (p == "instance")
	{
		enumerate( 4, 4, [&]( const std::vector<Sc>& scs) { if (vr::more(0.5)) checkInstance( defs( scs, 0)); });
		while (vr::more()) checkInstance( defs( family( r, r.range(2,12), r.range(3,30)), 0));
	}
	else if (p == "map")
	{
		enumerate( 4, 3, [&]( const std::vector<Sc>& scs) { if (vr::more(0.4)) checkMap( defs( scs, 2), r); });
		while (vr::more()) checkMap( defs( family( r, r.range(2,14), r.range(3,30)), r.range(1,3)), r);
	}
	else if (p == "relation")
	{
		while (vr::more()) checkRel( r, r.range(1,7), r.range(3,20), r.range(1,4), r.range(1,14), r.range(1,8));
	}
	else if (p == "tagmask")
	{
		for (int a=-3; a<=36; ++a) for (int b=-3; b<=36; ++b) for (int base=0; base<4; ++base)
		{
			static const unsigned bs[] = {0u,0xffffffffu,0x80000001u,0x5555aaaau};
			vr::begin( cat("mask=", bs[base], " tags ", a, ",", b));
			unsigned want = bs[base]; bool ok = a >= 1 && a <= 32 && b >= 1 && b <= 32, thr = false;
			if (ok) want |= (1u << (a-1)) | (1u << (b-1));
			TagMask m( bs[base]);
			try { m |= a; m |= b; } catch (const Error& e) { thr = true; VR_CHECK( e.code() == Error::BadRelationTag, "wrong error ", (int)e.code()); }
			VR_CHECK( thr == !ok, "tag range check");
			if (ok) VR_CHECK( m.mask() == want, "mask ", m.mask(), " expected ", want);
			TagMask q( bs[base]); thr = false;
			try { TagMask w = (q | a) | b; if (ok) VR_CHECK( w.mask() == want, "operator | gives mask ", w.mask(), " expected ", want); } catch (const Error&) { thr = true; }
			VR_CHECK( thr == !ok, "tag range check of operator |");
			VR_CHECK( q.mask() == bs[base], "operand changed");
			for (int t=1; t<=32; ++t) VR_CHECK( TagMask( bs[base]).matches( TagMask::tagValFromTag( t)) == ((bs[base] >> (t-1) & 1) != 0), "matches tag ", t);
			for (int t=1; t<=32; ++t) VR_CHECK( TagMask::tagFromTagVal( TagMask::tagValFromTag( t)) == t, "tag conversion ", t);
		}
	}
	else if (p == "tree")
	{
		for (int i=0; i<4000 && vr::more(0.3); ++i) checkTree( r, r.range( 1, i < 2000 ? 6 : 25));
		enumerate( 4, 3, [&]( const std::vector<Sc>& scs) { if (vr::more(0.4)) { checkTreeInst( defs( scs, 0)); } });
		while (vr::more()) { auto d = defs( family( r, r.range(1,10), r.range(3,30)), r.range(1,3)); checkTreeMap( d); checkTreeInst( d); checkTreeRel( r); }
	}
	return vr::finish();
}
