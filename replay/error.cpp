#include "vr.hpp"
#include "error.hpp"
#include <limits>
using namespace mewa;
using vr::cat;
static std::string q(const char* s) { return s ? cat( "\"", vr::jesc( s), "\"") : std::string("none"); }
static std::string str(const Error& e) { return cat( "code ", (int)e.code(), " line ", e.location().line(), " file ", q( e.location().filename()), " argument ", q( e.arg())); }
static std::string argof(const Error& e) { return e.arg() ? e.arg() : ""; }
static std::vector<int> codes()
{
	std::vector<int> rt;
	for (int c=1; c<300; ++c) if (Error::code2String( c)[0]) rt.push_back( c);
	for (int c=400; c<700; ++c) if (std::string( Error::code2String( c)) != "Unknown error") rt.push_back( c);
	return rt;
}
static void roundtrip(int code, const std::string& arg, const std::string& file, int line)
{
	vr::begin( cat( "Error code=", code, " argument=\"", vr::jesc(arg), "\" file=\"", vr::jesc(file), "\" line=", line), !arg.empty() || line);
	Error::Code c = (Error::Code)code;
	bool hasloc = line || c == Error::CompileError;		// no location without a line
	std::string wantfile = hasloc ? file.substr( 0, 79) : std::string();
	Error e = file.empty() ? (line ? Error( c, arg, Error::Location( line)) : Error( c, arg)) : Error( c, arg, Error::Location( file, line));
	VR_CHECK( e.code() == c && e.location().line() == line && file.substr( 0, 79) == e.location().filename(), "error has ", str( e));
	VR_CHECK( argof( e) == arg, "argument of the error is ", q( e.arg()));
	std::string what = e.what();
	if (c != Error::CompileError) VR_CHECK( what.find( cat( "#", code, " \"", Error::code2String( code), "\"")) == 0, "text does not start with code and message: ", what);
	if (line) VR_CHECK( what.find( cat( "at line ", line)) != std::string::npos, "line missing in the text: ", what);
	Error p = Error::parseError( e.what());
	VR_CHECK( p.code() == c, "code after parsing: ", str( p), " of ", what);
	VR_CHECK( p.location().line() == line, "line after parsing: ", str( p), " of ", what);
	VR_CHECK( wantfile == p.location().filename(), "file after parsing: ", str( p), " of ", what);
	VR_CHECK( argof( p) == arg, "argument after parsing: ", str( p), " of ", what);
	VR_CHECK( what == p.what() || !hasloc, "text after parsing: ", p.what(), " instead of ", what);
	Error cp( e);
	VR_CHECK( cp.code() == c && what == cp.what() && argof( cp) == arg && cp.location().line() == line, "copy differs: ", str( cp));
	Error other( e, Error::Location( "other.txt", 77));
	VR_CHECK( other.code() == c && argof( other) == arg && other.location().line() == 77 && std::string( "other.txt") == other.location().filename(), "error with another location differs: ", str( other));
	Error po = Error::parseError( other.what());
	VR_CHECK( po.code() == c && argof( po) == arg && po.location().line() == 77 && std::string( "other.txt") == po.location().filename(), "error with another location after parsing: ", str( po));
	Error sv( c, std::string_view( arg), Error::Location( line));
	VR_CHECK( argof( sv) == arg.substr( 0, 511), "argument passed as view is ", q( sv.arg()));
	Error cs( c, arg.c_str(), Error::Location( line));
	VR_CHECK( argof( cs) == arg, "argument passed as pointer is ", q( cs.arg()));
	Error na( c, Error::Location( line));
	Error pn = Error::parseError( na.what());
	VR_CHECK( argof( na) == "" && pn.code() == c && argof( pn) == "" && pn.location().line() == line, "error without argument: ", str( pn));
}
// a text and what a strict reader takes it for
struct Want { int code; int line; std::string file, arg; };
static bool number(const char*& s, long long& n) { bool neg = *s == '-'; if (neg) ++s; if (*s < '0' || *s > '9') return false; n = 0; for (; *s >= '0' && *s <= '9'; ++s) { n = n*10 + (*s-'0'); if (n > 1000000000000ll) n = 1000000000000ll; } if (neg) n = -n; return true; }
static bool strict(const std::string& t, Want& w)
{
	const char* s = t.c_str(); long long n = 0;
	w = {0,0,"",""};
	if (*s == '#')
	{
		++s;
		if (*s < '0' || *s > '9' || !number( s, n) || n <= 0 || n > 32767 || *s != ' ') return false;
		w.code = n; ++s;
		std::string m = cat( "\"", Error::code2String( n), "\"");
		if (std::strncmp( s, m.c_str(), m.size())) return false;
		s += m.size();
		if (!std::strncmp( s, " at line ", 9)) { s += 9; if (!number( s, n) || n > 2147483647ll || n < -2147483647ll) return false; w.line = n; }
		else if (!*s) return true;
		else if (s[0] == ':' && s[1] == ' ') { w.arg = s+2; return true; }
		else return false;
	}
	else if (!std::strncmp( s, "Error at line ", 14)) { s += 14; if (!number( s, n) || n > 2147483647ll || n < -2147483647ll) return false; w.code = Error::CompileError; w.line = n; }
	else return false;
	if (!std::strncmp( s, " in file \"", 10))
	{
		s += 10;
		const char* e = s; while (*e && !(*e == '"' && (!e[1] || (e[1] == ':' && e[2] == ' ')))) ++e;
		if (!*e) return false;
		w.file = std::string( s, e-s).substr( 0, 79); s = e+1;
	}
	if (!*s) return true;
	if (s[0] == ':' && s[1] == ' ') { w.arg = s+2; return true; }
	return false;
}
static void foreign(const std::string& t)
{
	vr::begin( cat( "parse text \"", vr::jesc( t), "\""), !t.empty());
	Want w;
	bool is = strict( t, w);
	Error p = Error::parseError( t.c_str());
	if (t.empty()) { VR_CHECK( p.code() == Error::Ok, "empty text is ", str( p)); return; }
	if (is)
	{
		VR_CHECK( p.code() == w.code && p.location().line() == w.line && w.file == p.location().filename() && argof( p) == w.arg, "text of an error is parsed as ", str( p));
		return;
	}
	// sloppy variants with more or less space between the parts are accepted too, but they denote the same code
	int code = p.code();
	if (code == Error::RuntimeException)
	{
		bool loc = !std::strncmp( t.c_str(), "at line ", 8) || !std::strncmp( t.c_str(), "#403", 4) || t[0] == ':';
		if (!loc) VR_CHECK( argof( p) == t, "text is lost, argument is ", q( p.arg()));
		return;
	}
	if (code == Error::CompileError && t[0] != '#')
	{
		VR_CHECK( !std::strncmp( t.c_str(), "Error at line ", 14), "text without the head of a compile error is one: ", str( p));
		return;
	}
	const char* s = t.c_str(); long long n = 0;
	VR_CHECK( *s == '#', "text without code is taken for ", str( p));
	++s;
	VR_CHECK( *s != '-' && number( s, n) && n == code && n > 0, "text with code ", n, " is taken for ", str( p));
	while (*s && (unsigned char)*s <= 32) ++s;
	std::string m = cat( "\"", Error::code2String( n), "\"");
	VR_CHECK( !std::strncmp( s, m.c_str(), m.size()), "text without the message of the code is taken for ", str( p));
}

int main(int argc, const char** argv)
{
	vr::init( argc, argv);
	vr::Rng r( vr::seed());
	auto cs = codes();
	VR_CHECK( cs.size() > 200, "only ", cs.size(), " error codes");
	static const char* args[] = {"", "x", "int, float", "a: b", ": ", ":", "\"quoted\"", " at line 5", "at line 5 in file \"x\": y", "in file \"a\"", "#455 \"Invalid\"", "Error at line 7: z", " ", "\n", "tab\tline\nend", "'", "100%", "%s%n%d", "\xc3\xa4\xff"};
	static const char* files[] = {"", "file.txt", "dir/other file.lua", "a: b.txt", "[C]", "[string \"return 1\"]", "[string \"it's\"]", "x\"y", "it's", "Duplicate definition", "#1", "at line 3"};
	for (int c : cs) for (const char* a : args) { roundtrip( c, a, "", 0); roundtrip( c, a, "", 12); roundtrip( c, a, "file.txt", 345); if (c < 300 && c > 3 && c % 37) break; }
	for (int c : {1,2,12,400,403,423,431,455,463,586,604}) for (const char* a : args) for (const char* f : files) for (int l : {0,1,9,10,-1,99999,2147483647}) roundtrip( c, a, f, l);
	for (int n : {78,79,80,81,200}) for (int l : {1,1000000}) for (int c : cs) { roundtrip( c, "arg", std::string( n, 'f'), l); if (!vr::more(0.5)) break; }
	for (int n : {500,510,511,512,513,4095,4096,5000}) roundtrip( 455, std::string( n, 'a'), "f", 3);
	static const char* heads[] = {"#", "#0", "#1", "#455", "#4", "#403", "#423", "#463", "#4294967751", "#18446744073709552071", "#99999999999999999999999", "#32767", "#32768", "#-455", "#65991", "#999", "#455455", "", "#0455", "Error at line ", "at line ", "Error", "Error: "};
	static const char* mids[] = {" ", "", " \"Invalid\"", " \"\"", " \"I\"", " \"Duplicate definition\"", " \"Duplicate definitio\"", " \"Duplicate definition \"", " \"Duplicate\" definition\"", "\"", "12", "-1", "12345678901", "2147483648", " Duplicate definition", " \"Invalid handle (constructor,type,object) assigned. Expected to be a positive/non negative integer number\"", " \"Invalid handle (constructor,type,object) assigned. Expected to be a positive/non negative integer numberxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx\"", " \"Unknown error\"", " \"Runtime error exception\"", " \"Compile error\""};
	static const char* tails[] = {"", ": arg", " at line 5", " at line 5: arg", " at line 5 in file \"f\": arg", " at line 5 in file \"f", " at line 5 in file f: x", " at line", " at line x", " at line 4294967296", ":", " : x", "rest", " in file \"f\"", "\""};
	for (auto h : heads) for (auto m : mids) for (auto t : tails) foreign( cat( h, m, t));
	while (vr::more())
	{
		std::string a, f;
		auto rnd = [&]( int n) { std::string s; for (int i=0; i<n; ++i) s += r.chance(25) ? ": \"'#\n at"[ r.below(8)] : r.chance(90) ? (char)r.range(32,126) : (char)r.range(1,255); return s; };
		if (r.chance(60))
		{
			a = rnd( r.below(30));
			if (r.chance(60)) f = rnd( r.below(12));
			if (f.find( "\": ") != std::string::npos) continue;	// can not be told from the end of the file name
			if (!a.empty() && a[0] == 0) continue;
			roundtrip( cs[ r.below(cs.size())], a, f, r.chance(30) ? 0 : r.range(1,100000));
		}
		else if (r.chance(50)) foreign( rnd( r.range(1,40)));
		else
		{	// text of an error with something changed
			Error e( (Error::Code)cs[ r.below(cs.size())], rnd( r.below(10)), Error::Location( r.chance(50) ? "f.txt" : "", r.range(0,50)));
			std::string t = e.what();
			int k = r.range(1,3); for (int i=0; i<k && !t.empty(); ++i) switch (r.below(4)) { case 0: t.erase( r.below(t.size()), 1); break; case 1: t.insert( r.below(t.size()), 1, (char)r.range(32,126)); break; case 2: t[ r.below(t.size())] = (char)r.range(32,126); break; default: t.resize( r.below(t.size()+1)); }
			foreign( t);
		}
	}
	return vr::finish();
}
