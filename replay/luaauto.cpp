// Bounded checks of the Lua side of the parser generator:
//   roundtrip  an automaton printed as Lua and loaded again is the same automaton (C20)
//   tree       the compiler hands the nodes of the derivation to Lua, with their arguments, lines, scopes and steps (C23)
//   describe   the description printed for other tools lists the declarations of the grammar with their attributes (C24)
#include "vr.hpp"
#include <unistd.h>
#include "gram.hpp"
#include "automaton.hpp"
#include "lua_load_automaton.hpp"
#include "lua_run_compiler.hpp"
#include "error.hpp"
#include "lexer.hpp"
#include "automaton_parser.hpp"
#include "languagedef_tostring.hpp"
extern "C" {
#include <lua.h>
#include <lauxlib.h>
#include <lualib.h>
}
using namespace mewa;
using gram::Grammar; using gram::Prod; using gram::Lr;

struct Lua
{
	lua_State* ls;
	Lua() :ls( luaL_newstate()) { luaL_openlibs( ls); }
	~Lua() { lua_close( ls); }
	bool run( const std::string& code, int nres, std::string& err)
	{
		if (luaL_loadbuffer( ls, code.data(), code.size(), "=chunk") || lua_pcall( ls, 0, nres, 0)) { const char* m = lua_tostring( ls, -1); err = m ? m : "?"; lua_pop( ls, 1); return false; }
		return true;
	}
};
static const char* TYPESYSTEM =
	"typesystem = {}\n"
	"result = {}\n"
	"local function ser( n)\n"
	"	if n.call then\n"
	"		local s = '('..n.call.name..' @'..tostring(n.line)\n"
	"		if n.step then s = s..' step '..n.step end\n"
	"		if n.scope then s = s..' scope '..n.scope[1]..'-'..n.scope[2] end\n"
	"		for i,a in ipairs( n.arg) do s = s..' '..ser( a) end\n"
	"		return s..')'\n"
	"	else return n.name..'='..n.value..'@'..n.line end\n"
	"end\n"
	"for i=0,5 do typesystem['call'..i] = function( node, obj) table.insert( result, ser( node)); if obj ~= node.call.obj then table.insert( result, 'BADOBJ') end end end\n"
	"for i=0,5 do typesystem['obj'..i] = {} end\n";

static std::string callText( const Automaton::Call& c) { return vr::cat( c.function(), "|", c.arg(), "|", (int)c.argtype()); }
static std::string defText( const Lexer& lx, const Lexer::Definition& d)
{
	std::string r = d.typeName();
	switch (d.type())
	{
		case Lexer::Definition::BadLexem: r += " " + d.bad(); break;
		case Lexer::Definition::NamedPatternLexem: r += vr::cat( " ", d.name(), " ", d.pattern(), " ", d.select()); break;
		case Lexer::Definition::KeywordLexem: r += " " + d.name(); break;
		case Lexer::Definition::IgnoreLexem: r += " " + d.ignore(); break;
		case Lexer::Definition::EolnComment: r += " " + d.start(); break;
		case Lexer::Definition::BracketComment: r += " " + d.start() + " " + d.end(); break;
		case Lexer::Definition::IndentLexems: r += vr::cat( " ", d.openind(), " ", d.closeind(), " ", d.newline(), " ", d.tabsize()); break;
	}
	return r;
}
static std::string tokens( const Lexer& lx, const std::string& src)
{
	std::string r;
	Scanner sc( src);
	for (int i=0; i<500; ++i)
	{
		Lexem l = lx.next( sc);
		if (l.empty()) return r;
		// the names of indentation lexems lose their quotes by loading (known finding)
		std::string nm( l.name()); if (l.value().empty() && nm.size() > 2 && nm[0] == '"') nm = nm.substr( 1, nm.size()-2);
		r += vr::cat( " ", l.id(), ":", nm, ":", l.value(), ":", l.line(), l.id() > 0 && lx.isKeyword( l.id()) ? "k" : "");
	}
	vr::fail( "lexer does not end");
}
static std::string quoted( vr::Rng& rng, const std::string& content)
{
	bool dq = content.find( '"') != std::string::npos, sq = content.find( '\'') != std::string::npos;
	char q = dq ? '\'' : sq ? '"' : rng.chance( 50) ? '"' : '\'';
	return q + content + q;
}
// text with any characters of a grammar string
static std::string anyText( vr::Rng& rng, bool backslash)
{
	static const char* ch[] = {"a","b","1"," ","'","\"","/","%","-","é","{","}","]]","--","\\\\","\\n","\\x"};
	std::string r; int n = rng.range( 1, 5);
	for (int i=0; i<n; ++i) r += ch[ rng.below( backslash ? 17 : 14)];
	if (r.find( '"') != std::string::npos) { std::string o; for (char c : r) if (c != '\'') o += c; r = o; }
	return r;
}
static void roundtrip( vr::Rng& rng)
{
	Grammar g = gram::random( rng, 2);
	gram::addCalls( rng, g, 60, true);
	std::string head, tail;
	std::vector<std::string> samples;
	if (rng.chance( 50)) head += "% LANGUAGE " + (rng.chance( 50) ? std::string("lang") : quoted( rng, anyText( rng, true))) + ";\n";
	if (rng.chance( 50)) head += "% TYPESYSTEM " + (rng.chance( 50) ? std::string("types") : quoted( rng, anyText( rng, true))) + ";\n";
	if (rng.chance( 40)) head += "% CMDLINE " + quoted( rng, anyText( rng, true)) + ";\n";
	if (rng.chance( 30)) head += "% BAD err;\n";
	if (rng.chance( 30)) head += "% COMMENT \"/*\" \"*/\";\n";
	if (rng.chance( 20)) head += "% COMMENT \"<!--\" '--\"';\n";
	if (rng.chance( 30)) head += "% COMMENT \"//\";\n";
	if (rng.chance( 20)) head += "% COMMENT \"#'\";\n";
	if (rng.chance( 25)) head += "% IGNORE \"[0-9]+\";\n";
	if (rng.chance( 25)) head += "% IGNORE '[x\"\\\\]+';\n";
	if (rng.chance( 20)) head += vr::cat( "% INDENTL IND UND NL ", rng.range( 1, 8), ";\n");
	std::vector<std::string> lex;
	if (rng.chance( 30)) lex.push_back( "STR : '[\"]((([^\\\\\"\\n])|([\\\\][^\"\\n]))*)[\"]' 1;\n");
	if (rng.chance( 30)) lex.push_back( "ID : \"[a-z]+[0-9a-z]*\";\n");
	if (rng.chance( 30)) lex.push_back( "NUM : '[0-9]+';\n");
	if (rng.chance( 20)) lex.push_back( "NUM : '[0-9]+[.][0-9]*';\n");
	if (rng.chance( 20)) lex.push_back( "BS : '[\\\\/]';\n");
	if (rng.chance( 15)) lex.push_back( "QQ : \"[']x\";\n");
	if (rng.chance( 25)) { int n = rng.chance( 70) ? rng.range( 1, 5) : rng.range( 6, 24), k = rng.range( 0, n); std::string pt; for (int i=0; i<n; ++i) pt += vr::cat( i ? "[.]" : "", "([", i % 10, "]+)"); lex.push_back( vr::cat( "VER : '", pt, "'", k || rng.chance( 50) ? vr::cat( " ", k) : std::string(), ";\n")); }
	for (auto const& l : lex) (rng.chance( 85) ? head : tail) += l;
	if (rng.chance( 20)) { size_t p = head.find( "% IGNORE"); if (p != std::string::npos) { size_t e = head.find( '\n', p); std::string l = head.substr( p, e+1-p); head.erase( p, e+1-p); head += l; } }
	std::string text = head;
	std::string body = gram::print( g);
	if (g.named && rng.chance( 25))
	{
		// definitions of the named tokens behind the productions
		size_t e = 0;
		while (body.compare( e, 3, "TOK") == 0) e = body.find( '\n', e) + 1;
		tail += body.substr( 0, e); body.erase( 0, e);
	}
	text += body + tail;
	// other kinds of arguments of calls
	std::map<std::string,std::string> objs;
	if (rng.chance( 40))
	{
		size_t p = text.find( "\"s0\"");
		if (p != std::string::npos)
		{
			std::string a = anyText( rng, false); if (rng.chance( 30)) a += "\\n";
			text.replace( p, 4, quoted( rng, a));
		}
		p = text.find( "{a=1,b=\"x\"}");
		if (p != std::string::npos) text.replace( p, 11, rng.chance( 50) ? "{ a=\"it's\" , b='say \"x\"'}" : "{a=1,b='y'}");
		p = text.find( "{a=2,b=\"x\"}");
		if (p != std::string::npos) text.replace( p, 11, rng.chance( 50) ? "{a=\"x\",b='y'}" : "{a='q\"',b=\"x\\\\\"}");
	}
	vr::begin( text);
	Automaton a;
	std::vector<Error> w;
	try { a.build( text, w); }
	catch (const Error& e)
	{
		VR_CHECK( e.code() == Error::ComplexityLR1FollowSetsInGrammarDef, "grammar refused: ", e.what());
		return;
	}
	std::string dump;
	try { dump = a.tostring(); } catch (const std::exception& e) { vr::fail( vr::cat( "the automaton cannot be printed: ", e.what())); }
	Lua lua; std::string err;
	VR_CHECK( lua.run( TYPESYSTEM, 0, err), "setup ", err);
	VR_CHECK( lua.run( "compilerdef = " + dump + "\nreturn compilerdef", 1, err), "the printed automaton is no Lua: ", err, "\n", dump);
	Automaton b;
	try { b = luaLoadAutomaton( lua.ls, -1); } catch (const std::exception& e) { vr::fail( vr::cat( "the printed automaton cannot be loaded: ", e.what(), "\n", dump)); }
	VR_CHECK( a.language() == b.language(), "language '", a.language(), "' becomes '", b.language(), "'");
	VR_CHECK( a.typesystem() == b.typesystem(), "typesystem '", a.typesystem(), "' becomes '", b.typesystem(), "'");
	VR_CHECK( a.cmdline() == b.cmdline(), "cmdline '", a.cmdline(), "' becomes '", b.cmdline(), "'");
	VR_CHECK( a.nonterminals() == b.nonterminals(), "nonterminals differ\n", dump);
	VR_CHECK( a.actions().size() == b.actions().size(), a.actions().size(), " actions become ", b.actions().size());
	for (auto const& x : a.actions())
	{
		auto y = b.actions().find( x.first);
		VR_CHECK( y != b.actions().end() && y->second.type() == x.second.type() && y->second.packed() == x.second.packed()
			  && y->first.state() == x.first.state() && y->first.terminal() == x.first.terminal(), "action of state ", x.first.state(), " token ", x.first.terminal(), " differs");
	}
	VR_CHECK( a.gotos().size() == b.gotos().size(), a.gotos().size(), " gotos become ", b.gotos().size());
	for (auto const& x : a.gotos())
	{
		auto y = b.gotos().find( x.first);
		VR_CHECK( y != b.gotos().end() && y->second.state() == x.second.state(), "goto of state ", x.first.state(), " nonterminal ", x.first.nonterminal(), " differs");
	}
	VR_CHECK( a.calls().size() == b.calls().size(), a.calls().size(), " calls become ", b.calls().size());
	for (size_t i=0; i<a.calls().size(); ++i)
	{
		VR_CHECK( callText( a.calls()[i]) == callText( b.calls()[i]), "call ", i+1, " ", callText( a.calls()[i]), " becomes ", callText( b.calls()[i]));
		// the object is the value of the argument
		auto const& c = a.calls()[i];
		lua_getfield( lua.ls, -1, "call"); lua_rawgeti( lua.ls, -1, i+1); lua_getfield( lua.ls, -1, "obj");
		if (c.argtype() == Automaton::Call::NoArg) VR_CHECK( lua_isnil( lua.ls, -1), "call ", callText( c), " has an argument after loading");
		else if (c.argtype() == Automaton::Call::StringArg)
		{
			VR_CHECK( lua_type( lua.ls, -1) == LUA_TSTRING, "argument of the call ", callText( c), " is no string after loading");
			if (c.arg().find( '\\') == std::string::npos) VR_CHECK( c.arg() == lua_tostring( lua.ls, -1), "argument of the call ", callText( c), " becomes ", lua_tostring( lua.ls, -1));
		}
		else
		{
			char f = c.arg()[0];
			if (f == '{') VR_CHECK( lua_istable( lua.ls, -1), "argument of the call ", callText( c), " is no table after loading");
			else if (f >= '0' && f <= '9') VR_CHECK( lua_isnumber( lua.ls, -1) && lua_tonumber( lua.ls, -1) == atof( c.arg().c_str()), "argument of the call ", callText( c), " has another value after loading");
			else
			{
				lua_getglobal( lua.ls, "typesystem"); lua_getfield( lua.ls, -1, c.arg().c_str());
				VR_CHECK( lua_rawequal( lua.ls, -1, -3), "argument of the call ", callText( c), " is not the element of the typesystem");
				lua_pop( lua.ls, 2);
			}
		}
		lua_pop( lua.ls, 1);
		lua_getfield( lua.ls, -1, "proc");
		lua_getglobal( lua.ls, "typesystem"); lua_getfield( lua.ls, -1, c.function().c_str());
		VR_CHECK( lua_rawequal( lua.ls, -1, -3), "function of the call ", callText( c), " is not the element of the typesystem");
		lua_pop( lua.ls, 5);
	}
	// definitions, class by class in order
	std::map<std::string,std::vector<std::string> > da, db;
	for (auto const& d : a.lexer().getDefinitions()) da[ d.typeName()].push_back( defText( a.lexer(), d));
	for (auto const& d : b.lexer().getDefinitions()) db[ d.typeName()].push_back( defText( b.lexer(), d));
	for (auto const& x : da) { auto const& y = db[ x.first]; VR_CHECK( x.second.size() == y.size(), x.second.size(), " lexer definitions '", x.first, "' become ", y.size(), "\n", dump); for (size_t i=0; i<y.size(); ++i) VR_CHECK( x.second[i] == y[i], "lexer definition '", x.second[i], "' becomes '", y[i], "'\n", dump); }
	VR_CHECK( da.size() == db.size() || db.size() == da.size(), "lexer definitions differ");
	// the same tokens
	static const char* piece[] = {"k1k","k2k","k3k","k4k","k5k","n2na","n4nzz","n2n"," ","\n","\n  ","\n\t","7","71.5","abc","x","\"","\"s\\\"","\"q\"","/*","*/","//","#'","<!--","--\"","\\","/","'x","é","?","k","xx\"\\"};
	for (int i=0; i<12; ++i)
	{
		std::string src; int n = rng.range( 1, 10);
		for (int k=0; k<n; ++k) src += piece[ rng.below( sizeof(piece)/sizeof(piece[0]))];
		std::string ta = tokens( a.lexer(), src), tb = tokens( b.lexer(), src);
		VR_CHECK( ta == tb, "the source\n", src, "\nhas the tokens\n", ta, "\nand after loading\n", tb, "\n", dump);
	}
}
// ---- tree
struct Node { bool leaf; std::string name, value; int line; int callidx; int scope; int s0, s1; std::vector<int> arg; };
static std::string show( const std::vector<Node>& ns, int i, const std::vector<std::string>& callname)
{
	const Node& n = ns[i];
	if (n.leaf) return vr::cat( n.name, "=", n.value, "@", n.line);
	std::string r = vr::cat( "(", callname[ n.callidx], " @", n.line);
	r += n.scope == 2 ? vr::cat( " scope ", n.s0, "-", n.s1) : vr::cat( " step ", n.s1);
	for (int a : n.arg) r += " " + show( ns, a, callname);
	return r + ")";
}
static std::string callName( const std::string& call)
{
	// name printed for a call: function and argument without the quotes of a string
	std::string r = call; size_t p = r.find( ' ');
	if (p != std::string::npos && r[p+1] == '"') { r.erase( p+1, 1); r.erase( r.size()-1); }
	return r;
}
static void tree( vr::Rng& rng, int round)
{
	Grammar g; int maxlen = 14;
	bool lng = round % 8 == 1;
	if (lng)
	{
		// lists of any length, right and left recursive
		g = rng.chance( 50) ? gram::make( 2, 2, {{1,2},{2,-2,2},{2,-2}}) : rng.chance( 50) ? gram::make( 3, 4, {{1,2},{2,3,2},{2},{3,-2},{3,-1,2,-3}, {3,-4}}) : gram::make( 2, 2, {{1,2},{2,2,-2},{2,-1}});
		g.named = true; maxlen = 3000;
		gram::addCalls( rng, g, 50, true);
	}
	else for (;;)
	{
		g = gram::random( rng, 1);
		g.named = g.nterm > 1;
		gram::addCalls( rng, g, 70, true);
		Lr lr( g);
		if (lr.conflictFree() && Lr( g, true, true).conflictFree()) break;
	}
	std::vector<std::string> callname( 1);
	{
		std::map<int,std::string> m; for (auto const& p : g.prods) if (p.callidx) m[ p.callidx] = callName( p.call);
		for (auto const& x : m) callname.push_back( x.second);
	}
	std::vector<int> used;
	for (auto const& p : g.prods) for (int x : p.rhs) if (x < 0 && std::find( used.begin(), used.end(), -x) == used.end()) used.push_back( -x);
	std::string text = gram::print( g);
	vr::begin( text);
	Automaton a; std::vector<Error> w;
	a.build( text, w);
	VR_CHECK( w.empty(), "warnings ", w[0].what());
	Lr lr( g);
	Lua lua; std::string err;
	VR_CHECK( lua.run( TYPESYSTEM, 0, err), "setup ", err);
	VR_CHECK( lua.run( "compilerdef = " + a.tostring() + "\nfor i,c in ipairs( compilerdef.call) do end\ncalltable = compilerdef.call", 0, err), "the printed automaton is no Lua: ", err);
	for (int k=0; k<6; ++k)
	{
		std::vector<int> in;
		if (lng)
		{
			int n = rng.chance( 50) ? rng.range( 1, 60) : rng.range( 100, 600);
			if (g.nnont == 3) { int open = 0; for (int i=0; i<n; ++i) { int c = rng.below( 10); if (c < 3) { in.push_back( 1); ++open; } else if (c < 6 && open) { in.push_back( 3); --open; } else in.push_back( rng.chance( 70) ? 2 : 4); } for (; open; --open) in.push_back( 3); }
			else if (g.prods[1].rhs[0] == 2) { in.push_back( 1); for (int i=0; i<n; ++i) in.push_back( 2); }
			else for (int i=0; i<n; ++i) in.push_back( 2);
		}
		else if (!gram::randomSentence( rng, g, in, maxlen)) continue;
		if (rng.chance( 25) && !used.empty())
		{
			// most likely no sentence anymore
			int kind = rng.below( 3);
			if (kind == 0 || in.empty()) in.insert( in.begin() + rng.below( in.size()+1), used[ rng.below( used.size())]);
			else if (kind == 1) in.erase( in.begin() + rng.below( in.size()));
			else in[ rng.below( in.size())] = used[ rng.below( used.size())];
		}
		// source with values and lines
		std::string src; int line = 1;
		std::vector<std::string> val; std::vector<int> ln;
		for (int t : in)
		{
			int nl = rng.below( 4) == 0 ? rng.range( 1, 2) : 0;
			for (int i=0; i<nl; ++i) { src += "\n"; ++line; }
			src += rng.chance( 20) ? "\t " : " ";
			std::string v = gram::isNamed( g, t) ? vr::cat( "n", t, "n", std::string( rng.below( 4), (char)('a' + rng.below( 26)))) : gram::termSpelling( g, t);
			src += v; val.push_back( v); ln.push_back( line);
		}
		if (rng.chance( 30)) src += "\n";
		vr::lazycur() = [=]{ return text + "source:\n" + src; };
		// expected
		std::vector<Node> ns;
		struct El { int state; std::vector<int> nodes; int start; };
		std::vector<El> st; st.push_back( {0,{},0});
		int counter = 0, curline = 0; size_t pos = 0;
		std::vector<int> roots; int errorpos = -1;
		for (;;)
		{
			int t = pos < in.size() ? in[pos] : 0;
			std::vector<gram::Prio> sp; std::vector<int> rd;
			int to = lr.cell( st.back().state, t, sp, rd);
			if (to >= 0)
			{
				El e{ to, {}, counter};
				if (gram::isNamed( g, t)) { ns.push_back( {true, gram::termSpelling( g, t), val[pos], ln[pos], 0, 0, 0, 0, {}}); e.nodes.push_back( ns.size()-1); curline = ln[pos]; }
				st.push_back( e); ++pos;
				continue;
			}
			if (rd.empty()) { errorpos = pos; break; }
			VR_CHECK( rd.size() == 1, "oracle");
			Prod const& p = g.prods[ rd[0]];
			size_t n = p.rhs.size();
			int start = n ? st[ st.size()-n].start : counter;
			std::vector<int> nodes;
			for (size_t i=st.size()-n; i<st.size(); ++i) nodes.insert( nodes.end(), st[i].nodes.begin(), st[i].nodes.end());
			if (p.callidx)
			{
				if (p.scope) ++counter;
				ns.push_back( {false, "", "", curline, p.callidx, p.scope, start, counter, nodes});
				nodes.assign( 1, ns.size()-1);
			}
			st.resize( st.size()-n);
			if (rd[0] == 0) { roots = nodes; break; }
			st.push_back( {lr.go( st.back().state, p.left), nodes, start});
		}
		std::string want; bool fails = false;
		for (int r : roots) { if (ns[r].leaf) { fails = true; break; } want += show( ns, r, callname) + "\n"; }
		if (errorpos >= 0) { want.clear(); fails = true; }
		else if (callname.size() == 1) { want.clear(); fails = false; } // nothing is called without calls
		VR_CHECK( lua.run( "result = {}", 0, err), err);
		int top = lua_gettop( lua.ls);
		lua_pushnil( lua.ls);
		bool failed = false; std::string what;
		try { luaRunCompiler( lua.ls, a, top+1, src, "calltable", nullptr); }
		catch (const Error& e) { 
			failed = true; what = e.what();
			if (errorpos >= 0)
			{
				VR_CHECK( e.code() == Error::UnexpectedTokenNotOneOf, "text that is no sentence of the grammar is refused with the error ", what);
				VR_CHECK( e.location().line() == (errorpos < (int)in.size() ? ln[ errorpos] : line + (!src.empty() && src.back() == '\n' ? 1 : 0)), "unexpected token reported for line ", e.location().line(), ": ", what);
			}
			else VR_CHECK( !fails || e.code() == Error::NoLuaFunctionDefinedForItem, "error ", what);
		}
		lua_settop( lua.ls, top);
		VR_CHECK( !failed || fails, "a sentence of the grammar is refused: ", what);
		VR_CHECK( failed || !fails, errorpos >= 0 ? "text that is no sentence of the grammar is accepted" : "a node without call is a root and this is not reported");
		VR_CHECK( lua.run( "return table.concat( result, '\\n')..(#result > 0 and '\\n' or '')", 1, err), err);
		std::string got( lua_tostring( lua.ls, -1)); lua_pop( lua.ls, 1);
		VR_CHECK( got == want, "the nodes handed to Lua are\n", got.substr( 0, 3000), "instead of\n", want.substr( 0, 3000));
		vr::lazycur() = nullptr;
	}
}
// ---- describe
struct Attr { std::string name; std::vector<std::string> content; };
struct Decl { std::string fields; std::vector<std::string> tok; int line = 0; std::vector<Attr> attr; bool prod = false; bool cont = false; };
static std::string luaFields( const std::map<std::string,std::string>& m) { std::string r; for (auto const& x : m) r += " " + x.first + "=" + x.second; return r; }
static void describe( vr::Rng& rng)
{
	Grammar g = gram::random( rng, 2);
	gram::addCalls( rng, g, 60, true);
	std::vector<Decl> decl;
	std::map<std::string,std::string> top;
	auto q = [&]( const std::string& x) { return "<" + x + ">"; };
	auto add = [&]( const std::map<std::string,std::string>& f, std::vector<std::string> tok) -> Decl& { Decl d; d.fields = luaFields( f); d.tok = tok; decl.push_back( d); return decl.back(); };
	if (rng.chance( 50)) { std::string v = rng.chance( 50) ? std::string("lang") : anyText( rng, true); top["LANGUAGE"] = v; add( {}, {"%","LANGUAGE",quoted( rng, v),";"}); }
	if (rng.chance( 50)) { std::string v = anyText( rng, true); top["TYPESYSTEM"] = v; add( {}, {"%","TYPESYSTEM",quoted( rng, v),";"}); }
	if (rng.chance( 30)) { std::string v = anyText( rng, true); top["CMDLINE"] = v; add( {}, {"%","CMDLINE",quoted( rng, v),";"}); }
	if (rng.chance( 30)) add( {{"op",q("BAD")},{"name",q("err")}}, {"%","BAD","err",";"});
	if (rng.chance( 30)) add( {{"op",q("COMMENT")},{"open",q("/*")},{"close",q("*/")}}, {"%","COMMENT","\"/*\"","\"*/\"",";"});
	if (rng.chance( 30)) add( {{"op",q("COMMENT")},{"open",q("//")}}, {"%","COMMENT","\"//\"",";"});
	if (rng.chance( 20)) add( {{"op",q("COMMENT")},{"open",q("#")}}, {"%","COMMENT","'#'",";"});
	if (rng.chance( 30)) add( {{"op",q("IGNORE")},{"pattern",q("[x\"\\\\]+")}}, {"%","IGNORE","'[x\"\\\\]+'",";"});
	if (rng.chance( 30)) add( {{"op",q("TOKEN")},{"name",q("STR")},{"pattern",q("[\"]((([^\\\\\"\\n])|([\\\\][^\"\\n]))*)[\"]")},{"select","1"}}, {"STR",":","'[\"]((([^\\\\\"\\n])|([\\\\][^\"\\n]))*)[\"]'","1",";"});
	if (rng.chance( 30)) add( {{"op",q("TOKEN")},{"name",q("NUM")},{"pattern",q("[0-9]+")}}, {"NUM",":","'[0-9]+'",";"});
	if (rng.chance( 30)) add( {{"op",q("TOKEN")},{"name",q("NUM")},{"pattern",q("[0-9]+[.][0-9]*")}}, {"NUM",":","'[0-9]+[.][0-9]*'",";"});
	if (rng.chance( 20)) add( {{"op",q("TOKEN")},{"name",q("SL")},{"pattern",q("//#")}}, {"SL",":","\"//#\"",";"});
	if (g.named) for (int t=2; t<=g.nterm; t+=2) add( {{"op",q("TOKEN")},{"name",q(gram::termSpelling( g, t))},{"pattern",q(vr::cat( "n", t, "n[a-z]*"))}}, {gram::termSpelling( g, t),":",vr::cat( "\"n", t, "n[a-z]*\""),";"});
	for (size_t i=0; i<g.prods.size(); ++i)
	{
		auto const& p = g.prods[i];
		std::map<std::string,std::string> f; f["op"] = q("PROD"); f["left"] = q( gram::nontName( p.left));
		std::string r; for (int x : p.rhs) r += vr::cat( "[", x > 0 || gram::isNamed( g, -x) ? "name" : "symbol", " ", x > 0 ? gram::nontName( x) : gram::termSpelling( g, -x), "]");
		f["right"] = r;
		if (p.prio.defined()) f["priority"] = q( vr::cat( p.prio.assoc ? std::string( 1, p.prio.assoc) : std::string(), p.prio.value));
		if (p.scope) f["scope"] = q( p.scope == 1 ? ">>" : "{}");
		if (p.callidx) f["call"] = q( p.call);
		std::vector<std::string> tok;
		bool cont = i && g.prods[i-1].left == p.left && g.prods[i-1].prio == p.prio && rng.chance( 60);
		if (cont) { decl.back().tok.pop_back(); tok.push_back( "|"); }
		else { tok.push_back( gram::nontName( p.left)); if (p.prio.defined()) { tok.push_back( "/"); tok.push_back( gram::prioText( p.prio)); } tok.push_back( "="); }
		for (int x : p.rhs) tok.push_back( gram::symText( g, x));
		const char* sc[] = {"",">>","{}"};
		if (p.scope || p.callidx) { tok.push_back( "("); if (p.scope) tok.push_back( sc[ p.scope]); if (p.callidx) tok.push_back( p.call); tok.push_back( ")"); }
		tok.push_back( ";");
		Decl& d = add( f, tok); d.prod = true; d.cont = cont;
	}
	// layout with comments
	static const char* attrname[] = {"rule","descr","note","Abc_1","x","end","not"};
	static const char* words[] = {"a","word","::=","\"","'","\\","//","#","/*","%","{","é","x@y","--","]]",";","|","("};
	auto text1 = [&]{ std::string r; int n = rng.range( 1, 4); for (int i=0; i<n; ++i) r += std::string( i ? " " : "") + words[ rng.below( 18)]; return r; };
	bool reserved = false; std::string src; int line = 1;
	auto put = [&]( const std::string& x) { src += x; for (char c : x) if (c == '\n') ++line; };
	auto comments = [&]( Decl* d)
	{
		// lines with the index of the attribute they begin or continue, -1 for a line before the first one
		std::vector<std::pair<std::string,int>> ln;
		std::map<size_t,std::string> begins;
		if (rng.chance( 25)) ln.push_back( {text1(),-1});
		std::set<std::string> had;
		if (d && rng.chance( 60)) for (int k=rng.range( 1, 3); k>0; --k)
		{
			Attr a; a.name = attrname[ rng.below( 7)];
			if (rng.below( 400) == 0) { static const char* rs[] = {"op","name","pattern","open","close","tabsize","nl","select","priority","left","right","scope","call","line"}; a.name = rs[ rng.below( 14)]; reserved = true; }
			if (!had.insert( a.name).second) continue;
			d->attr.push_back( a); int ai = d->attr.size()-1;
			std::string first = text1(); begins[ ln.size()] = first;
			ln.push_back( {vr::cat( "@", rng.chance( 20) ? " " : "", a.name, rng.chance( 20) ? "\t" : " ", first), ai});
			for (int j=rng.below( 4); j>0; --j) ln.push_back( {rng.chance( 15) ? std::string() : text1(), ai});
		}
		int cur = -1;
		auto said = [&]( size_t i) { cur = ln[i].second; if (cur >= 0) { auto b = begins.find( i); d->attr[ cur].content.push_back( b == begins.end() ? ln[i].first : b->second); } };
		for (size_t i=0; i<ln.size();)
		{
			if (rng.chance( 30)) put( rng.chance( 50) ? "\n" : "  ");
			switch (rng.below( 3))
			{
				case 0: put( vr::cat( "#", rng.chance( 70) ? " " : "", ln[i].first, "\n")); said( i); ++i; break;
				case 1: put( vr::cat( "//", rng.chance( 70) ? " " : "", ln[i].first, "\n")); said( i); ++i; break;
				case 2:
				{
					bool nl = rng.chance( 40); std::string c = nl ? "\n" : " "; size_t n = rng.range( 1, 4), i0 = i, last = i;
					for (size_t k=0; k<n && i<ln.size(); ++k,++i) { if (ln[i].first.find( "*/") != std::string::npos) break; if (k) c += "\n"; c += rng.chance( 30) ? "\t" : " "; c += ln[i].first; if (!ln[i].first.empty()) last = i+1; }
					// blank lines at the end of a block comment are no part of its text, other ones are
					if (nl && last > i0 && cur >= 0) d->attr[ cur].content.push_back( "");
					for (size_t k=i0; k<last; ++k) said( k);
					put( "/*" + c + (rng.chance( 40) ? "\n" : " ") + "*/"); put( rng.chance( 70) ? "\n" : rng.chance( 50) ? "" : " ");
					break;
				}
			}
		}
	};
	for (auto& d : decl)
	{
		if (d.cont && src.back() != '\n') put( "\n");
		if (!d.cont || rng.chance( 50)) comments( d.fields.empty() ? nullptr : &d);
		d.line = line;
		for (size_t i=0; i<d.tok.size(); ++i)
		{
			if (i && rng.chance( 15)) put( rng.chance( 50) ? "\n" : "\n\t"); else if (i) put( " ");
			put( d.tok[i]);
		}
		bool open = d.tok.back() != ";";
		put( rng.chance( 15) ? " \n" : "\n");
		if (!open && rng.chance( 10)) put( "\n\n");
	}
	comments( nullptr);
	if (rng.chance( 30) && src.back() == '\n') src.pop_back();
	vr::begin( src);
	std::string out;
	alarm( 8);
	try
	{
		LanguageDef ld = parseLanguageDef( src);
		LanguageDecoratorMap dm = parseLanguageDecoratorMap( src);
		VR_CHECK( !reserved, "a reserved name of an attribute is not refused");
		out = printLuaLanguageDefinition( ld, dm);
	}
	catch (const Error& e)
	{
		VR_CHECK( reserved && e.code() == Error::UsingReservedAttributeNameInGrammarDef, "grammar refused: ", e.what());
		return;
	}
	std::vector<std::string> lexs, prods;
	for (auto const& d : decl) if (!d.fields.empty())
	{
		std::string r = d.fields + vr::cat( " line=", d.line);
		std::map<std::string,std::string> as; for (auto const& a : d.attr) { std::string c; for (auto const& x : a.content) c += "[" + x + "]"; as[ a.name] = c; }
		r += " :" + luaFields( as);
		(d.prod ? prods : lexs).push_back( r);
	}
	Lua lua; std::string err;
	VR_CHECK( lua.run( "src = [===[\n" + out + "]===]", 0, err) || true, err);
	VR_CHECK( lua.run( "langdef = (function()\n" + out + "end)()", 0, err), "the description is no Lua: ", err, "\n", out);
	VR_CHECK( lua.run( std::string(
		"local known = {op=1,name=1,pattern=1,open=1,close=1,tabsize=1,nl=1,select=1,priority=1,left=1,scope=1,call=1}\n"
		"lexs, prods = {}, {}\n"
		"for i,r in ipairs( langdef.RULES) do\n"
		"	local f, as = {}, {}\n"
		"	for k,v in pairs( r) do\n"
		"		if k == 'right' then local s = ''; for j,e in ipairs( v) do s = s..'['..e.type..' '..e.value..']' end; table.insert( f, ' right='..s)\n"
		"		elseif k == 'line' then\n"
		"		elseif known[k] then table.insert( f, ' '..k..'='..(type(v) == 'string' and '<'..v..'>' or tostring(v)))\n"
		"		else local s = ''; for j,e in ipairs( v) do s = s..'['..e..']' end; table.insert( as, ' '..k..'='..s) end\n"
		"	end\n"
		"	table.sort( f); table.sort( as)\n"
		"	table.insert( r.op == 'PROD' and prods or lexs, table.concat( f)..' line='..r.line..' :'..table.concat( as))\n"
		"end"), 0, err), "the description has not the structure documented: ", err, "\n", out);
	for (int k=0; k<2; ++k)
	{
		auto& want = k ? prods : lexs;
		std::vector<std::string> got;
		lua_getglobal( lua.ls, k ? "prods" : "lexs");
		for (int i=1;; ++i) { lua_rawgeti( lua.ls, -1, i); if (lua_isnil( lua.ls, -1)) break; got.push_back( lua_tostring( lua.ls, -1)); lua_pop( lua.ls, 1); }
		lua_pop( lua.ls, 2);
		if (!k) { std::sort( want.begin(), want.end()); std::sort( got.begin(), got.end()); }
		for (size_t i=0; i<want.size() || i<got.size(); ++i)
			VR_CHECK( i < want.size() && i < got.size() && want[i] == got[i], "declaration", i < want.size() ? want[i] : " none", " is described as", i < got.size() ? got[i] : " missing", "\n", out);
	}
	for (const char* t : {"LANGUAGE","TYPESYSTEM","CMDLINE"})
	{
		VR_CHECK( lua.run( vr::cat( "return langdef.", t, " or ''"), 1, err), err);
		std::string got( lua_tostring( lua.ls, -1)); lua_pop( lua.ls, 1);
		VR_CHECK( got == top[t], t, " '", top[t], "' is described as '", got, "'");
	}
}
int main( int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng rng( vr::seed());
	std::string prop = vr::prop();
	for (int round=0; vr::more(); ++round)
	{
		if (prop == "roundtrip") roundtrip( rng); else if (prop == "describe") describe( rng); else tree( rng, round);
	}
	return vr::finish();
}
