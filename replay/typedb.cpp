#include "vr.hpp"
#include "typedb.hpp"
#include "identmap.hpp"
#include <algorithm>
#include <cmath>
using namespace mewa;
using vr::cat;
typedef std::pair<int,int> Sc;
static bool contains(const Sc& a, const Sc& b) { return a.first <= b.first && b.second <= a.second; }
static bool nests(const Sc& a, const Sc& b) { return a.second <= b.first || b.second <= a.first || contains(a,b) || contains(b,a); }
static std::string str(const Sc& s) { return cat("[", s.first, ",", s.second, ")"); }
static std::vector<Sc> family(vr::Rng& r, int n, int maxstep)
{
	std::vector<Sc> rt;
	if (r.chance(40)) rt.push_back( {0, std::numeric_limits<int>::max()});
	for (int tries=0; (int)rt.size() < n && tries < n*10; ++tries)
	{
		int a = r.range(0,maxstep-1); Sc s = {a, r.range(a+1,maxstep)};
		bool ok = true; for (auto& o : rt) ok = ok && nests( o, s) && o != s;
		if (ok) rt.push_back( s);
	}
	return rt;
}
template <class F> static int codeOf(F f) { try { f(); } catch (const Error& e) { return e.code(); } return 0; }

// ---------------------------------------------------------------- identifiers
static std::string quoted(const std::string& s) { return s.size() > 60 ? cat( "\"", vr::jesc( s.substr(0,40)), "...\"(", s.size(), " bytes)") : cat( "\"", vr::jesc( s), "\""); }
struct IdentCheck
{
	std::vector<char> mem; mewa::monotonic_buffer_resource rmap, rstr;
	IdentMap m; std::map<std::string,int> ids; std::vector<std::string> inv;
	std::string tx;
	explicit IdentCheck(int buckets) : mem(1<<16), rmap( mem.data(), mem.size()/2), rstr( mem.data()+mem.size()/2, mem.size()/2), m( &rmap, &rstr, buckets) {}
	void lookup(const std::string& s)
	{
		tx += cat( "lookup ", quoted(s), "; "); if (tx.size() > 4000) tx.erase( 0, 2000);
		vr::begin( tx);
		auto fi = ids.find( s); int want = fi == ids.end() ? 0 : fi->second;
		int got = m.lookup( s);
		VR_CHECK( got == want, "lookup yields ", got, " instead of ", want);
		VR_CHECK( m.size() == inv.size(), "lookup changes the map");
	}
	void get(const std::string& s)
	{
		tx += cat( "get ", quoted(s), "; "); if (tx.size() > 4000) tx.erase( 0, 2000);
		vr::begin( tx, inv.size() > 1);
		auto fi = ids.find( s);
		std::string copy = s;	// the key must not depend on the memory of the argument
		int got = m.get( copy);
		std::fill( copy.begin(), copy.end(), '\x7e');
		if (fi != ids.end()) VR_CHECK( got == fi->second, "known string gets identifier ", got, " instead of ", fi->second);
		else
		{
			VR_CHECK( got > 0, "identifier ", got, " is not positive");
			for (auto& o : ids) VR_CHECK( o.second != got, "new string ", quoted(s), " gets the identifier ", got, " of ", quoted(o.first));
			ids[s] = got;
			if ((int)inv.size() < got) inv.resize( got);
			inv[got-1] = s;
		}
		VR_CHECK( m.size() == ids.size(), "size ", m.size(), " instead of ", ids.size());
		VR_CHECK( m.inv( got) == s, "string of the identifier ", got, " is ", quoted( std::string( m.inv( got))), " instead of ", quoted(s));
	}
	void all() { for (auto& o : ids) { VR_CHECK( m.inv( o.second) == o.first, "string of the identifier ", o.second, " is ", quoted( std::string( m.inv( o.second))), " instead of ", quoted(o.first)); VR_CHECK( m.lookup( o.first) == o.second, "lookup of ", quoted(o.first)); } }
};
static void checkIdent(vr::Rng& r, int round)
{
	IdentCheck c( r.chance(50) ? 1 : 64);
	std::vector<std::string> pool;
	int n = r.range( 2, 60);
	for (int i=0; i<n; ++i)
	{
		std::string s;
		if (!pool.empty() && r.chance(60))
		{
			s = pool[ r.below(pool.size())];
			switch (r.below(6)) { case 0: s += (char)r.below(3); break; case 1: if (!s.empty()) s.pop_back(); break; case 2: s += std::string( r.range(1,4), '\0'); break;
				case 3: if (!s.empty()) s[ r.below(s.size())] ^= 1 << r.below(8); break; case 4: if (s.size() > 1) std::swap( s[0], s[s.size()-1]); break; default: s = s.substr( 0, r.below(s.size()+1)) + pool[ r.below(pool.size())]; }
		}
		else { int len = r.chance(70) ? r.range(0,14) : r.range(0,300); for (int k=0; k<len; ++k) s += r.chance(80) ? (char)('a'+r.below(3)) : (char)r.below(256); }
		if (s.size() > 2000) s.resize( 2000);
		pool.push_back( s);
		if (r.chance(30)) c.lookup( s);
		c.get( s);
		if (r.chance(20)) c.get( pool[ r.below(pool.size())]);
	}
	c.all();
	if (round % 7 == 0)
	{
		vr::begin( c.tx + " copy");
		IdentMap cp( c.m), as( std::pmr::get_default_resource(), std::pmr::get_default_resource(), 1); as = c.m;
		for (auto& o : c.ids) { VR_CHECK( cp.lookup( o.first) == o.second && cp.inv( o.second) == o.first, "copy differs for ", quoted( o.first)); VR_CHECK( as.lookup( o.first) == o.second && as.inv( o.second) == o.first, "assigned copy differs for ", quoted( o.first)); }
		IdentMap mv( std::move( cp));
		for (auto& o : c.ids) VR_CHECK( mv.lookup( o.first) == o.second && mv.inv( o.second) == o.first, "moved map differs for ", quoted( o.first));
		std::string fresh = "a string not there before"; int id = mv.get( fresh);
		for (auto& o : c.ids) VR_CHECK( o.second != id, "copy gives the identifier of ", quoted( o.first), " to a new string");
		VR_CHECK( c.m.lookup( fresh) == 0 && as.lookup( fresh) == 0, "copy is not independent");
	}
}
static void checkIdentLong(vr::Rng& r)
{
	// all sizes of short strings, and sizes around the limits of the local buffer and of 16 bit
	IdentCheck c( 1);
	for (int len=0; len<=130; ++len) { c.get( std::string( len, 'x')); c.get( std::string( len, '\0')); if (len) c.get( std::string( len-1, 'x') + 'y'); }
	for (int len : {8179,8180,8183,8184,8185,8186,8187,8188,8189,8190,8191,8192,8193,8200,20000,32766,32767,32768,65520,65527,65528,65529,65530,65531,65532,65533,65534,65535,65536,65537,65540,70000,131071,131072,200000})
	{
		std::string s( len, 'x');
		c.lookup( s); c.get( s);
		s[len-1] = 'y'; c.lookup( s); c.get( s);
		s[0] = 'z'; c.get( s);
	}
	c.all();
	IdentCheck d( 1);	// many strings
	for (int i=0; i<30000; ++i) { std::string s = cat( "id", i); int id = d.m.get( s); VR_CHECK( id > 0 && d.m.inv( id) == s, "string ", i, " of many"); d.ids[s] = id; }
	std::set<int> u; for (auto& o : d.ids) { VR_CHECK( u.insert( o.second).second, "identifier ", o.second, " for two strings"); VR_CHECK( d.m.lookup( o.first) == o.second && d.m.inv( o.second) == o.first, "identifier of ", o.first, " changed"); }
}

// ---------------------------------------------------------------- type database
struct TRec { Sc sc; int ctx; std::string name; int constructor; std::vector<std::pair<int,int>> par; };
struct RDef { Sc sc; int from, to, constructor, tag; float w; };
struct Alias { Sc sc; int ctx; std::string name; int type; };
struct Obj { std::string name; Sc sc; int handle; };
struct Edge { int to, constructor, tag; float w; };
typedef TypeDatabase::TypeConstructorPair TCP;
struct World
{
	TypeDatabase db; vr::Rng& r;
	std::string tx;
	std::vector<int> handles;		// accepted handles
	std::map<int,TRec> types;
	std::vector<Alias> aliases;
	std::vector<RDef> redus;
	std::vector<Obj> objs;
	std::vector<Sc> fam;
	std::vector<std::string> names;
	int maxhandle;
	World(vr::Rng& r_, size_t mem) : db( mem), r(r_), maxhandle(0) {}

	Sc sc() { return fam[ r.below( fam.size())]; }
	int anytype() { return handles.empty() ? 0 : handles[ r.below( handles.size())]; }
	std::string name() { return names[ r.below( names.size())]; }
	std::vector<int> steps()
	{
		std::set<int> st{0};
		for (auto& s : fam) for (long x : {s.first-1L, s.first+0L, s.second-1L, s.second+0L}) if (x >= 0 && x < std::numeric_limits<int>::max()) st.insert( x);
		return {st.begin(), st.end()};
	}
	// handles defined with a name in a scope and context, in order of definition
	std::vector<int> defs(Sc s, int ctx, const std::string& n) const
	{
		std::vector<int> rt;
		for (auto& a : aliases) if (a.sc == s && a.ctx == ctx && a.name == n) rt.push_back( a.type);
		for (int h : handles) { auto& t = types.at(h); if (t.sc == s && t.ctx == ctx && t.name == n) rt.push_back( h); }
		return rt;
	}
	// definitions of the innermost scope
	std::vector<int> visible(int step, int ctx, const std::string& n) const
	{
		const Sc* best = nullptr;
		for (auto& s : fam) if (s.first <= step && step < s.second && !defs( s, ctx, n).empty()) if (!best || contains( *best, s)) best = &s;
		return best ? defs( *best, ctx, n) : std::vector<int>();
	}
	std::vector<Edge> edges(int step, int from, unsigned mask) const
	{
		std::vector<RDef> vis; for (auto& d : redus) if (d.from == from && d.sc.first <= step && step < d.sc.second && (mask >> (d.tag-1) & 1)) vis.push_back( d);
		std::stable_sort( vis.begin(), vis.end(), [](const RDef& a, const RDef& b){ return a.sc.second - (long)a.sc.first < b.sc.second - (long)b.sc.first; });
		std::vector<Edge> rt;
		for (auto& d : vis) { bool f = false; for (auto& e : rt) f |= e.to == d.to; if (!f) rt.push_back( {d.to, d.constructor, d.tag, d.w}); }
		return rt;
	}
	void defType(bool addparams)
	{
		Sc s = sc(); int ctx = r.chance(60) ? 0 : anytype(); std::string n = name(); int con = r.below(100);
		std::vector<std::pair<int,int>> par;
		if (addparams && r.chance(50)) { int k = r.range(0,3); for (int i=0; i<k; ++i) par.push_back( {anytype(), r.below(50)}); }
		if (addparams && !handles.empty() && r.chance(30)) { auto& t = types.at( anytype()); s = t.sc; ctx = t.ctx; n = t.name; if (r.chance(50)) { par = t.par; for (auto& p : par) p.second = r.below(50); if (r.chance(30)) par.push_back( {anytype(),1}); } }
		for (auto& a : aliases) { auto& t = types.at( a.type); if (t.sc == s && t.ctx == ctx && t.name == n) return; }
		tx += cat( "defineType scope=", str(s), " context=", ctx, " name=", n, " constructor=", con, " parameters=("); for (auto& p : par) tx += cat( p.first, ":", p.second, " "); tx += "); ";
		vr::begin( tx, handles.size() > 1);
		std::vector<TCP> pl; for (auto& p : par) pl.push_back( {p.first,p.second});
		bool dup = false;
		for (auto& a : aliases) dup |= a.sc == s && a.ctx == ctx && a.name == n;	// conflict with a synonym
		for (int h : defs( s, ctx, n)) { auto& q = types.at(h).par; bool eq = q.size() == par.size(); for (size_t i=0; eq && i<q.size(); ++i) eq = q[i].first == par[i].first; dup |= eq; }
		int got = -99; int ec = codeOf( [&] { got = db.defineType( Scope(s.first,s.second), ctx, n, con, pl); });
		VR_CHECK( ec == 0, "defineType fails with error ", ec);
		if (dup) VR_CHECK( got == -1, "definition with the same signature (or the name of a synonym) yields ", got, " instead of -1");
		else
		{
			VR_CHECK( got > 0 && !types.count( got), "defineType yields ", got, types.count( got) ? ", the handle of another type" : "");
			handles.push_back( got); types[got] = {s,ctx,n,con,par}; maxhandle = std::max( maxhandle, got);
		}
	}
	void syn()
	{
		if (handles.empty()) return;
		Sc s = sc(); int ctx = r.chance(60) ? 0 : anytype(); std::string n = name(); int t = anytype();
		// a synonym of a function with overloads is left out: what it denotes is not documented
		if (defs( types.at(t).sc, types.at(t).ctx, types.at(t).name).size() != 1) return;
		tx += cat( "defineTypeAs scope=", str(s), " context=", ctx, " name=", n, " type=", t, "; "); vr::begin( tx);
		bool dup = !defs( s, ctx, n).empty();
		int got = -99; int ec = codeOf( [&] { got = db.defineTypeAs( Scope(s.first,s.second), ctx, n, t); });
		VR_CHECK( ec == 0, "defineTypeAs fails with error ", ec);
		VR_CHECK( got == (dup ? 0 : t), "defineTypeAs yields ", got, " instead of ", dup ? 0 : t);
		if (!dup) aliases.push_back( {s,ctx,n,t});
	}
	void defRedu()
	{
		if (handles.size() < 2) return;
		Sc s = sc(); int from = anytype(), to = r.chance(10) ? 0 : anytype(); int con = r.below(5), tag = r.chance(70) ? r.range(1,3) : r.range(1,32); float w = 0.25f * r.below(5);
		if (!redus.empty() && r.chance(15)) { auto& o = redus[ r.below( redus.size())]; from = o.from; to = o.to; tag = o.tag; if (r.chance(50)) s = o.sc; }
		tx += cat( "defineReduction scope=", str(s), " ", from, "->", to, " constructor=", con, " tag=", tag, " weight=", w, "; "); vr::begin( tx);
		int exp = 0; bool dup = false;
		if (to == from) exp = Error::InvalidReductionDefinition;
		else for (auto& d : redus) if (d.sc == s && d.from == from && d.to == to && d.tag == tag) { dup = true; if (d.constructor != con) exp = Error::DuplicateDefinition; }
		int ec = codeOf( [&] { db.defineReduction( Scope(s.first,s.second), to, from, con, tag, w); });
		VR_CHECK( ec == exp, "defineReduction result code ", ec, " expected ", exp);
		if (!exp && !dup) redus.push_back( {s,from,to,con,tag,w});
	}
	void setObj()
	{
		Sc s = sc(); std::string n = name(); int h = r.range(1,1000);
		tx += cat( "setObjectInstance ", n, " scope=", str(s), " handle=", h, "; "); vr::begin( tx);
		db.setObjectInstance( n, Scope(s.first,s.second), h);
		for (auto& o : objs) if (o.name == n && o.sc == s) { o.handle = h; return; }
		objs.push_back( {n,s,h});
	}
	std::string typestr(int t) const
	{
		if (!t) return "";
		auto& d = types.at(t);
		std::string rt; if (d.ctx) rt = typestr( d.ctx) + "|";
		rt += d.name;
		if (!d.par.empty()) { rt += "("; for (size_t i=0; i<d.par.size(); ++i) { if (i) rt += ","; rt += typestr( d.par[i].first); } rt += ")"; }
		return rt;
	}
	void checkAccess()
	{
		vr::begin( tx + " accessors");
		for (int h : handles)
		{
			auto& t = types.at(h);
			VR_CHECK( db.typeName( h) == t.name, "name of type ", h, " is ", std::string( db.typeName( h)), " instead of ", t.name);
			VR_CHECK( db.typeContext( h) == t.ctx, "context of type ", h, " is ", db.typeContext( h), " instead of ", t.ctx);
			VR_CHECK( db.typeConstructor( h) == t.constructor, "constructor of type ", h, " is ", db.typeConstructor( h), " instead of ", t.constructor);
			VR_CHECK( db.typeScope( h).start() == t.sc.first && db.typeScope( h).end() == t.sc.second, "scope of type ", h);
			auto p = db.typeParameters( h);
			bool eq = p.size() == t.par.size(); for (size_t i=0; eq && i<t.par.size(); ++i) eq = p[i].type == t.par[i].first && p[i].constructor == t.par[i].second;
			VR_CHECK( eq, "parameters of type ", h, " differ from its definition");
			std::string ts = typestr( h);
			if (ts.size() < 2000) { TypeDatabase::ResultBuffer rb; auto g = db.typeToString( h, "|", rb); VR_CHECK( std::string( g.c_str(), g.size()) == ts, "text of type ", h, " is ", g.c_str(), " instead of ", ts); }
			std::vector<int> pl; for (auto& q : t.par) pl.push_back( q.first);
			int g = db.getType( Scope(t.sc.first,t.sc.second), t.ctx, t.name, TypeDatabase::TypeList( pl));
			VR_CHECK( g == h, "getType with the signature of type ", h, " yields ", g);
			pl.push_back( h);
			int want = 0; for (int o : defs( t.sc, t.ctx, t.name)) { auto& q = types.at(o).par; bool e = q.size() == pl.size(); for (size_t i=0; e && i<q.size(); ++i) e = q[i].first == pl[i]; if (e) want = o; }
			g = db.getType( Scope(t.sc.first,t.sc.second), t.ctx, t.name, TypeDatabase::TypeList( pl));
			VR_CHECK( g == want, "getType with another signature yields ", g, " instead of ", want);
		}
		VR_CHECK( db.typeName( 0) == "" && db.typeContext( 0) == 0 && db.typeConstructor( 0) == 0 && db.typeParameters( 0).size() == 0, "the empty type has content");
		{ TypeDatabase::ResultBuffer rb; VR_CHECK( db.typeToString( 0, "|", rb).empty() && db.typeScope( 0) == Scope( 0, -1), "the empty type has a text or a scope"); }
		if (int t = anytype())
		{
			// the empty type is no source of a reduction, negative constructors and object handles without meaning are refused
			const int E = Error::InvalidHandle; Scope s( fam[0].first, fam[0].second); TypeDatabase::ResultBuffer rb;
			VR_CHECK( codeOf( [&]{ db.defineReduction( s, t, 0, 0, 1, 1.0);}) == E, "a reduction from the empty type is accepted");
			VR_CHECK( codeOf( [&]{ db.defineReduction( s, 0, t, -1, 1, 1.0);}) == E, "a negative constructor of a reduction is accepted");
			VR_CHECK( codeOf( [&]{ db.defineType( s, 0, "unused", -1, std::vector<TCP>());}) == E, "a negative constructor of a type is accepted");
			VR_CHECK( codeOf( [&]{ db.defineTypeAs( s, 0, "unused", 0);}) == E, "a synonym of the empty type is accepted");
			VR_CHECK( codeOf( [&]{ db.getReductions( 1, 0, TagMask::matchAll(), TagMask(), rb);}) == E, "getReductions of the empty type is accepted");
			VR_CHECK( codeOf( [&]{ db.getReduction( 1, t, 0, TagMask::matchAll());}) == E, "getReduction from the empty type is accepted");
			VR_CHECK( codeOf( [&]{ db.deriveType( 1, t, 0, TagMask::matchAll(), TagMask(), -1, rb);}) == E, "deriveType from the empty type is accepted");
			for (int h : {0,-1}) VR_CHECK( codeOf( [&]{ db.setObjectInstance( names[0], s, h);}) == E, "setObjectInstance accepts the handle ", h);
		}
		for (int bad : {-1, -7, maxhandle + 1000, std::numeric_limits<int>::max(), std::numeric_limits<int>::min()}) checkBad( bad);
		if (lastok()) checkBad( maxhandle + 1);
		for (auto& s : fam) for (auto& n : names) for (int ctx : {0, anytype()})
		{
			TypeDatabase::ResultBuffer rb;
			auto g = db.getTypes( Scope(s.first,s.second), ctx, n, rb);
			auto want = defs( s, ctx, n);
			std::vector<int> gv( g.types.begin(), g.types.end());
			VR_CHECK( gv == want, "getTypes scope=", str(s), " context=", ctx, " name=", n, " yields ", gv.size(), " types instead of ", want.size(), " (or others)");
		}
		for (auto& n : names)
		{
			for (int st : steps())
			{
				const Obj* best = nullptr; for (auto& o : objs) if (o.name == n && o.sc.first <= st && st < o.sc.second) if (!best || contains( best->sc, o.sc)) best = &o;
				int want = best ? best->handle : -1, g = db.getObjectInstance( n, st);
				VR_CHECK( g == want, "object ", n, " at step ", st, " is ", g, " instead of ", want);
			}
			for (auto& s : fam)
			{
				int want = -1; for (auto& o : objs) if (o.name == n && o.sc == s) want = o.handle;
				int g = db.getObjectInstanceOfScope( n, Scope(s.first,s.second));
				VR_CHECK( g == want, "object ", n, " of scope ", str(s), " is ", g, " instead of ", want);
			}
		}
	}
	bool refused = false;
	bool lastok() const { return !refused; }
	void checkBad(int h)
	{
		TypeDatabase::ResultBuffer rb; const int E = Error::InvalidHandle; Scope s(0,10); int t = anytype();
		VR_CHECK( codeOf( [&]{ db.typeName( h);}) == E, "typeName accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.typeContext( h);}) == E, "typeContext accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.typeConstructor( h);}) == E, "typeConstructor accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.typeParameters( h);}) == E, "typeParameters accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.typeScope( h);}) == E, "typeScope accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.typeToString( h, " ", rb);}) == E, "typeToString accepts the handle ", h);
		VR_CHECK( codeOf( [&]{ db.defineType( s, h, names[0], 0, std::vector<TCP>());}) == E, "defineType accepts the context ", h);
		VR_CHECK( codeOf( [&]{ db.defineTypeAs( s, 0, names[0], h);}) == E, "defineTypeAs accepts the type ", h);
		VR_CHECK( codeOf( [&]{ db.getType( s, h, names[0], std::vector<int>());}) == E, "getType accepts the context ", h);
		VR_CHECK( codeOf( [&]{ db.getTypes( s, h, names[0], rb);}) == E, "getTypes accepts the context ", h);
		if (!t) return;
		VR_CHECK( codeOf( [&]{ db.defineTypeAs( s, h, names[0], t);}) == E, "defineTypeAs accepts the context ", h);
		VR_CHECK( codeOf( [&]{ db.defineReduction( s, h, t, 0, 1, 1.0);}) == E, "defineReduction accepts the target ", h);
		VR_CHECK( codeOf( [&]{ db.defineReduction( s, t, h, 0, 1, 1.0);}) == E, "defineReduction accepts the source ", h);
		VR_CHECK( codeOf( [&]{ db.getReduction( 1, h, t, TagMask::matchAll());}) == E, "getReduction accepts the target ", h);
		VR_CHECK( codeOf( [&]{ db.getReduction( 1, t, h, TagMask::matchAll());}) == E, "getReduction accepts the source ", h);
		VR_CHECK( codeOf( [&]{ db.getReductions( 1, h, TagMask::matchAll(), TagMask(), rb);}) == E, "getReductions accepts ", h);
		VR_CHECK( codeOf( [&]{ db.deriveType( 1, h, t, TagMask::matchAll(), TagMask(), -1, rb);}) == E, "deriveType accepts the target ", h);
		VR_CHECK( codeOf( [&]{ db.deriveType( 1, t, h, TagMask::matchAll(), TagMask(), -1, rb);}) == E, "deriveType accepts the source ", h);
		VR_CHECK( codeOf( [&]{ db.resolveType( 1, h, types.at(t).name, TagMask::matchAll(), rb);}) == E, "resolveType accepts the context ", h);
	}
	// all simple paths
	struct Path { std::vector<int> nodes; std::vector<Edge> es; float w; int cnt; };
	bool paths(int step, int from, unsigned mask, unsigned cntmask, int maxcnt, std::vector<Path>& out, size_t limit) const
	{
		Path p{{from},{},0,0};
		std::function<bool()> rec = [&]() -> bool {
			if (out.size() >= limit) return false;
			out.push_back( p);
			for (auto& e : edges( step, p.nodes.back(), mask))
			{
				if (std::find( p.nodes.begin(), p.nodes.end(), e.to) != p.nodes.end()) continue;
				int c = p.cnt + ((cntmask >> (e.tag-1)) & 1);
				if (c > maxcnt) continue;
				int pc = p.cnt; float pw = p.w;
				p.nodes.push_back( e.to); p.es.push_back( e); p.cnt = c; p.w += e.w;
				if (!rec()) return false;
				p.nodes.pop_back(); p.es.pop_back(); p.cnt = pc; p.w = pw;
			}
			return true;
		};
		return rec();
	}
	unsigned rmask() { switch (r.below(4)) { case 0: return 0xffffffffu; case 1: return 7; case 2: return 1 << r.below(3); default: return (unsigned)r.next(); } }
	void checkDerive(int q)
	{
		if (handles.empty()) return;
		auto st = steps();
		for (int i=0; i<q; ++i)
		{
			int step = st[ r.below(st.size())], from = anytype(), to = r.chance(10) ? 0 : anytype(); unsigned mask = rmask(), cm = r.chance(50) ? 0 : rmask(); int maxc = r.chance(50) ? -1 : r.below(3);
			vr::lazycur() = nullptr;
			vr::begin( cat( tx, "deriveType step=", step, " from=", from, " to=", to, " tags=", mask, " tagsCount=", cm, " maxCount=", maxc));
			std::vector<Path> ps; if (!paths( step, from, mask, cm, maxc < 0 ? std::numeric_limits<int>::max() : maxc, ps, 4000)) continue;
			const Path* best = nullptr; int cnt = 0;
			for (auto& p : ps) if (p.nodes.back() == to) { if (!best || p.w < best->w) { best = &p; cnt = 1; } else if (p.w == best->w) ++cnt; }
			TypeDatabase::ResultBuffer rb;
			auto res = db.deriveType( step, to, from, TagMask( mask), TagMask( cm), maxc, rb);
			VR_CHECK( res.defined == (best != nullptr), best ? "no path found though there is one" : "a path found though there is none");
			if (!best) { VR_CHECK( res.reductions.empty() && res.conflictPath.empty(), "reductions without a result"); continue; }
			VR_CHECK( res.weightsum == best->w, "weight sum ", res.weightsum, " but the smallest is ", best->w);
			auto match = [&]( const Path& p) { if (p.nodes.size() != res.reductions.size()+1 || p.nodes.back() != to || p.w != best->w) return false; for (size_t k=0; k<p.es.size(); ++k) if (res.reductions[k].type != p.es[k].to || res.reductions[k].constructor != p.es[k].constructor) return false; return true; };
			const Path* chosen = nullptr; for (auto& p : ps) if (match( p)) chosen = &p;
			VR_CHECK( chosen, "the reductions of the result are no cheapest path of visible reductions");
			VR_CHECK( res.conflictPath.empty() == (cnt == 1), cnt == 1 ? "a conflict is reported though the path is unique" : "a second path with the same weight is not reported");
			if (cnt > 1)
			{
				bool found = false;
				for (auto& p : ps) if (&p != chosen && p.nodes.back() == to && p.w == best->w && std::vector<int>( p.nodes.begin()+1, p.nodes.end()) == std::vector<int>( res.conflictPath.begin(), res.conflictPath.end())) found = true;
				VR_CHECK( found, "the conflict path is not another path with the same weight");
			}
		}
		for (int i=0; i<q; ++i)
		{
			int step = st[ r.below(st.size())], from = anytype(), to = anytype(); unsigned mask = rmask(), cm = rmask();
			vr::begin( cat( tx, "getReductions step=", step, " from=", from, " tags=", mask, " tagsCount=", cm));
			auto es = edges( step, from, mask);
			TypeDatabase::ResultBuffer rb;
			auto g = db.getReductions( step, from, TagMask( mask), TagMask( cm), rb);
			bool eq = g.reductions.size() == es.size();
			for (size_t k=0; eq && k<es.size(); ++k) eq = g.reductions[k].type == es[k].to && g.reductions[k].constructor == es[k].constructor && g.reductions[k].weight == es[k].w && g.reductions[k].count == (((cm >> (es[k].tag-1)) & 1) != 0);
			VR_CHECK( eq, "getReductions yields ", g.reductions.size(), " instead of ", es.size(), " reductions (or others)");
			if (r.chance(50) && !es.empty()) to = es[ r.below(es.size())].to;
			auto one = db.getReduction( step, to, from, TagMask( mask));
			const Edge* w = nullptr; for (auto& e : es) if (e.to == to) w = &e;
			VR_CHECK( one.defined() == (w != nullptr), "getReduction to ", to, " defined=", one.defined());
			if (w) VR_CHECK( one.weight == w->w && one.constructor == w->constructor, "getReduction to ", to, " yields constructor ", one.constructor, " instead of ", w->constructor);
		}
	}
	void checkResolve(int q)
	{
		auto st = steps();
		for (int i=0; i<q; ++i)
		{
			int step = st[ r.below(st.size())]; std::string n = r.chance(3) ? std::string("unknownname") : name(); unsigned mask = rmask();
			std::pmr::vector<int> roots; int nr = r.chance(50) ? 1 : r.range(1,4); for (int k=0; k<nr; ++k) roots.push_back( r.chance(20) ? 0 : anytype());
			std::string rs; for (int x : roots) rs += cat( x, " ");
			vr::begin( cat( tx, "resolveType step=", step, " contexts=", rs, " name=", n, " tags=", mask));
			std::vector<Path> ps; bool ok = true; std::set<int> seen;
			for (int x : roots) if (seen.insert( x).second) ok = ok && paths( step, x, mask, 0, 1<<30, ps, 4000);
			if (!ok) continue;
			float bw = 0; int cnt = 0; std::map<int,std::vector<int>> vis;
			auto V = [&]( int ctx) -> const std::vector<int>& { auto f = vis.find( ctx); if (f == vis.end()) f = vis.emplace( ctx, visible( step, ctx, n)).first; return f->second; };
			for (auto& p : ps) if (!V( p.nodes.back()).empty()) { if (!cnt || p.w < bw) { bw = p.w; cnt = 1; } else if (p.w == bw) ++cnt; }
			TypeDatabase::ResultBuffer rb;
			auto res = nr == 1 ? db.resolveType( step, roots[0], n, TagMask( mask), rb) : db.resolveType( step, roots, n, TagMask( mask), rb);
			if (!cnt) { VR_CHECK( res.items.empty() && res.contextType == -1 && res.conflictType == -1 && res.reductions.empty(), "a result though there is none"); continue; }
			VR_CHECK( res.contextType >= 0, "no result though context ", cnt, " paths lead to a context with this name");
			VR_CHECK( res.weightsum == bw, "weight sum ", res.weightsum, " but the smallest is ", bw);
			std::vector<int> items( res.items.begin(), res.items.end());
			VR_CHECK( items == V( res.contextType), "items of context ", res.contextType, " are other ones than defined");
			VR_CHECK( res.rootIndex >= 1 && res.rootIndex <= nr, "root index ", res.rootIndex, " is no index of a context");
			const Path* chosen = nullptr;
			for (auto& p : ps)
			{
				if (p.nodes.front() != roots[res.rootIndex-1] || p.nodes.back() != res.contextType || p.w != bw || p.es.size() != res.reductions.size()) continue;
				bool eq = true; for (size_t k=0; k<p.es.size(); ++k) eq = eq && res.reductions[k].type == p.es[k].to && res.reductions[k].constructor == p.es[k].constructor;
				if (eq) chosen = &p;
			}
			VR_CHECK( chosen, "the reductions of the result are no cheapest path from the root ", res.rootIndex, " to the context ", res.contextType);
			VR_CHECK( (res.conflictType >= 0) == (cnt > 1), cnt > 1 ? "a second path of the same weight to a context with this name is not reported" : "a conflict is reported though there is one path only");
			if (cnt > 1) { bool f = false; for (auto& p : ps) f |= &p != chosen && p.w == bw && p.nodes.back() == res.conflictType && !V( p.nodes.back()).empty(); VR_CHECK( f, "the conflict type ", res.conflictType, " is no other context reachable with the same weight"); }
		}
	}
	template <class T> void walk(const Tree<ScopeHierarchyTreeNode<T>>& t, size_t n, Sc par, const std::function<void(Sc,Sc,const T&)>& f) const
	{
		for (; n; n = t[n].next())
		{
			auto& it = t[n].item(); Sc s{it.scope.start(), it.scope.end()};
			f( s, par, it.value);
			if (t[n].chld()) walk( t, t[n].chld(), s, f);
		}
	}
	void checkTrees()
	{
		vr::begin( tx + " trees");
		std::map<Sc,std::multiset<int>> got, want; std::map<Sc,Sc> par;
		auto shape = [&]( const char* what, Sc s, Sc p) { VR_CHECK( par.emplace( s, p).second, "scope ", str(s), " twice in the tree of ", what); };
		auto shapeEnd = [&]( const char* what) { for (auto& e : par) { const Sc* best = nullptr; for (auto& o : par) if (o.first != e.first && contains( o.first, e.first) && (!best || contains( *best, o.first))) best = &o.first; VR_CHECK( e.second == (best ? *best : Sc{-1,-1}), "scope ", str(e.first), " is at the wrong place in the tree of ", what); } par.clear(); };
		auto t = db.getTypeDefinitionTree();
		walk<TypeDatabase::TypeDefinitionList>( t, 1, {-1,-1}, [&]( Sc s, Sc p, const TypeDatabase::TypeDefinitionList& l) { shape( "types", s, p); for (int x : l) got[s].insert( x); });
		shapeEnd( "types");
		// the tree has one entry per context and name, the first of the overloads
		for (auto& s : fam) { std::set<std::pair<int,std::string>> done; for (int h : handles) { auto& d = types.at(h); if (d.sc == s && done.insert( {d.ctx,d.name}).second) want[s].insert( h); } for (auto& a : aliases) if (a.sc == s) want[s].insert( a.type); }
		for (auto i = want.begin(); i != want.end();) if (i->second.empty()) i = want.erase( i); else ++i;
		auto show = []( const std::map<Sc,std::multiset<int>>& m) { std::string o; for (auto& e : m) { o += str( e.first) + ":"; for (int x : e.second) o += cat( " ", x); o += "; "; } return o; };
		VR_CHECK( got == want, "the tree of the types has the definitions ", show( got), " instead of ", show( want));
		typedef std::tuple<int,int,int,int,float> RE; std::map<Sc,std::multiset<RE>> rg, rw;
		auto rt = db.getReductionDefinitionTree();
		walk<TypeDatabase::ReductionDefinitionList>( rt, 1, {-1,-1}, [&]( Sc s, Sc p, const TypeDatabase::ReductionDefinitionList& l) { shape( "reductions", s, p); for (auto& x : l) rg[s].insert( RE( x.fromType, x.toType, x.constructor, x.tag, x.weight)); });
		shapeEnd( "reductions");
		for (auto& d : redus) rw[d.sc].insert( RE( d.from, d.to, d.constructor, d.tag, d.w));
		VR_CHECK( rg == rw, "the tree of the reductions has other definitions");
		for (auto& n : names)
		{
			std::map<Sc,int> og, ow;
			auto ot = db.getObjectInstanceTree( n);
			walk<int>( ot, 1, {-1,-1}, [&]( Sc s, Sc p, const int& v) { shape( "objects", s, p); if (v != -1) og[s] = v; });
			shapeEnd( "objects");
			for (auto& o : objs) if (o.name == n) ow[o.sc] = o.handle;
			VR_CHECK( og == ow, "the tree of the object ", n, " has other definitions");
		}
	}
};

// overloads of a function defined with the name of a synonym must not become overloads of the type the synonym stands for
static void checkSynonym(vr::Rng& r)
{
	TypeDatabase db( 1<<16);
	Scope g( 0, 100), in( 10, 20); bool inner = r.chance(50);
	vr::begin( cat( "a=defineType [0,100) \"a\"; defineTypeAs ", inner ? "[10,20)" : "[0,100)", " \"b\" a; defineType the same scope \"b\" (a)"));
	int a = db.defineType( g, 0, "a", 1, std::vector<TCP>());
	Scope s = inner ? in : g;
	VR_CHECK( db.defineTypeAs( s, 0, "b", a) == a, "synonym refused");
	int b = db.defineType( s, 0, "b", 2, std::vector<TCP>{TCP(a,0)});
	VR_CHECK( b == -1, "a type with the name of a synonym in the same scope is accepted");
	TypeDatabase::ResultBuffer rb;
	auto res = db.resolveType( 15, 0, "a", TagMask::matchAll(), rb);
	VR_CHECK( res.items.size() == 1 && res.items[0] == a, "resolving the name \"a\" yields ", res.items.size(), " items, also the type ", b, " defined with the name \"b\"");
	VR_CHECK( db.getType( g, 0, "a", std::vector<int>{a}) == 0, "getType \"a\"(a) yields the type defined as \"b\"(a)");
}

// limit of the number of parameters of a type
static void checkParamLimit(vr::Rng& r)
{
	TypeDatabase db( 1<<12);
	vr::begin( "types with 32767 and 32768 parameters");
	int a = db.defineType( Scope(0,100), 0, "a", 1, std::vector<TCP>());
	std::vector<TCP> pl; for (int i=0; i<32768; ++i) pl.push_back( TCP( a, i));
	VR_CHECK( codeOf( [&]{ db.defineType( Scope(0,100), 0, "f", 1, pl);}) == Error::TooManyTypeArguments, "32768 parameters are accepted");
	pl.pop_back();
	int f = 0, ec = codeOf( [&]{ f = db.defineType( Scope(0,100), a, "f", 1, pl);});
	VR_CHECK( ec == 0 && f > 0, "32767 parameters are refused, error ", ec);
	auto p = db.typeParameters( f);
	bool eq = p.size() == pl.size(); for (size_t i=0; eq && i<pl.size(); ++i) eq = p[i].type == pl[i].type && p[i].constructor == pl[i].constructor;
	VR_CHECK( eq, "32767 parameters are not kept");
	VR_CHECK( db.typeContext( f) == a && db.defineType( Scope(0,100), f, "g", 1, std::vector<TCP>()) > 0, "the last type is refused as context");
}

int main(int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng r( vr::seed());
	const std::string p = vr::prop();
	if (p == "ident")
	{
		checkIdentLong( r);
		for (int i=0; vr::more(); ++i) checkIdent( r, i);
		return vr::finish();
	}
	int round = 0;
	if (p == "types") checkParamLimit( r);
	while (vr::more())
	{
		++round;
		World w( r, 1<<(r.chance(50) ? 12 : 16));
		w.fam = family( r, r.range(1,5), r.range(3,16));
		w.names = {"a","b","f","+","ab",""}; w.names.resize( r.range(1,6)); if (r.chance(20)) w.names.push_back( std::string( 40, 'n'));
		int ntypes = r.range( 1, p == "types" ? 20 : 8), nredu = p == "types" ? 0 : r.range( 1, 16);
		if (p == "types") checkSynonym( r);
		for (int i=0; i<ntypes; ++i)
		{
			size_t before = w.handles.size();
			w.defType( p != "derive");
			w.refused = w.refused || w.handles.size() == before;
			if (r.chance( 15) && p != "derive") w.syn();
			if (p == "types" && r.chance( 30)) w.setObj();
		}
		for (int i=0; i<nredu; ++i) w.defRedu();
		if (p == "types") { w.checkAccess(); w.checkResolve( 4); }
		else if (p == "derive") w.checkDerive( 12);
		else if (p == "resolve") w.checkResolve( 12);
		else if (p == "trees") { for (int i=r.below(6); i>0; --i) w.setObj(); w.checkTrees(); }
	}
	return vr::finish();
}
