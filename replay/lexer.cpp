// Scanner (C10), lexer (C09), UTF-8 helpers (C21): the real code against executable contracts.
#include <string_view>
#include <memory>
#include <bitset>
#include <regex>
#include <cstring>
#include "lexer.hpp"
#include <cstdint>
#include "utf8.hpp"
#include "error.hpp"
#include "vr.hpp"
using namespace mewa;
using vr::Rng;

static std::string show(const std::string& s)
{
	std::string o;
	for (unsigned char c : s) { if (c == '\n') o += "\\n"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
	return o;
}
struct Src	// the source in a heap block of exactly its size plus the terminator: every read outside is seen by the sanitizer
{
	std::unique_ptr<char[]> p; std::size_t n;
	explicit Src(const std::string& s) : p(new char[s.size()+1]), n(s.size()) { memcpy(p.get(), s.c_str(), n+1); }
	std::string_view view() const { return std::string_view(p.get(), n); }
};

static int lineAt(const std::string& s, std::size_t pos) { int l = 1; for (std::size_t i=0; i<pos; ++i) if (s[i] == '\n') ++l; return l; }
static std::size_t skipSpc(const std::string& s, std::size_t pos) { while (pos < s.size() && s[pos] && (unsigned char)s[pos] <= 32) ++pos; return pos; }
static int indentAt(const std::string& s, std::size_t pos, int tab)
{
	int rt = 0;
	for (; pos > 0 && s[pos-1] != '\n' && (unsigned char)s[pos-1] <= 32; --pos) rt += s[pos-1] == '\t' ? tab : 1;
	return pos == 0 || s[pos-1] == '\n' ? rt : -1;
}

// model of the indentation state
struct Indent
{
	std::vector<int> stk; bool consumed = false;
	Scanner::IndentToken token(int cnt)
	{
		if (consumed) { consumed = false; return Scanner::IndentNone; }
		if (cnt == -1) return Scanner::IndentNone;
		int top = stk.empty() ? 0 : stk.back();
		if (top < cnt) { stk.push_back(cnt); return Scanner::IndentOpen; }
		if (top > cnt) { stk.pop_back(); return Scanner::IndentClose; }
		consumed = true;
		return Scanner::IndentNewLine;
	}
	Scanner::IndentToken eof() { if (stk.empty()) return Scanner::IndentNone; stk.pop_back(); return Scanner::IndentClose; }
};

static std::string rndSource(Rng& r, int maxlen, const char* alpha, int na)
{
	std::string s;
	int n = r.below(maxlen+1);
	for (int i=0; i<n; ++i) s += alpha[r.below(na)];
	return s;
}

static void scannerCase(Rng& r, const std::string& src, int nofOps)
{
	Src buf(src);
	std::string log = vr::cat("source \"", show(src), "\"");
	auto fresh = [&]() { return r.chance(50) ? Scanner(buf.view()) : Scanner(std::string_view(buf.view())); };
	Scanner sc = fresh();
	std::size_t pos = 0;
	Indent ind;
	vr::begin(log);
	auto check = [&](const char* what) {
		VR_CHECK(sc.current() == buf.p.get() + pos, what, ": position ", (long)(sc.current() - buf.p.get()), " instead of ", pos);
		VR_CHECK(sc.line() == lineAt(src, pos), what, ": line ", sc.line(), " instead of ", lineAt(src, pos));
		VR_CHECK(sc.restsize() == src.size() - pos, what, ": restsize ", sc.restsize(), " instead of ", src.size() - pos);
	};
	for (int i=0; i<nofOps; ++i)
	{
		switch (r.below(8))
		{
			case 0: case 1: {
				int incr = r.chance(50) ? r.below(4) : r.chance(50) ? -r.below((int)pos+3) : r.below((int)(src.size()-pos)+3);
				log += vr::cat(" next(", incr, ")");
				vr::begin(log);
				long np = (long)pos + incr;
				bool ok = np >= 0 && np <= (long)src.size(), thrown = false;
				char const* rt = nullptr;
				try { rt = sc.next(incr); } catch (const Error& e) { thrown = true; VR_CHECK(e.code() == Error::ArrayBoundReadInLexer, "next: wrong error"); }
				VR_CHECK(thrown == !ok, thrown ? "next refuses a position inside the source" : "next accepts a position outside of the source");
				if (ok) { pos = skipSpc(src, np); VR_CHECK(rt == buf.p.get() + pos, "next returns a wrong position"); }
				check("next");
				break; }
			case 2: case 3: {
				std::string pat;
				if (r.chance(60) && pos < src.size()) { std::size_t a = r.range((int)pos, (int)src.size()-1); pat = src.substr(a, r.range(1,3)); }
				else pat = rndSource(r, 2, "ab/*\n", 5) + "a";
				if (pat.find('\0') != std::string::npos) break;
				log += vr::cat(" scan(\"", show(pat), "\")");
				vr::begin(log);
				std::size_t stop = src.find('\0', pos);
				std::size_t f = src.substr(0, stop).find(pat, pos);
				bool rt = sc.scan(pat.c_str());
				VR_CHECK(rt == (f != std::string::npos), "scan returns ", rt);
				if (rt) pos = skipSpc(src, f + pat.size());
				check("scan");
				break; }
			case 4: case 5: {
				std::string pat;
				if (r.chance(60)) { pat = src.substr(pos, r.range(1,3)); if (r.chance(30)) pat += "b"; }
				else pat = rndSource(r, 2, "ab/*\n ", 6);
				if (pat.find('\0') != std::string::npos) break;
				log += vr::cat(" match(\"", show(pat), "\")");
				vr::begin(log);
				bool exp = src.compare(pos, pat.size(), pat) == 0;
				bool rt = sc.match(pat.c_str());
				VR_CHECK(rt == exp, "match returns ", rt);
				if (exp) pos += pat.size();
				check("match");
				break; }
			case 6: {
				int tab = r.range(1,8);
				log += vr::cat(" indent(", tab, ")");
				vr::begin(log);
				VR_CHECK(sc.indentCount(tab) == indentAt(src, pos, tab), "indentCount yields ", sc.indentCount(tab), " instead of ", indentAt(src, pos, tab));
				auto e = ind.token(indentAt(src, pos, tab));
				auto g = sc.getIndentToken(tab);
				VR_CHECK(g == e, "getIndentToken yields ", (int)g, " instead of ", (int)e);
				check("getIndentToken");
				break; }
			case 7: {
				if (r.chance(30))
				{
					log += " eof";
					vr::begin(log);
					auto e = ind.eof();
					auto g = sc.getEofIndentToken();
					VR_CHECK(g == e, "getEofIndentToken yields ", (int)g, " instead of ", (int)e);
				}
				else
				{
					log += " copy";
					vr::begin(log);
					if (r.chance(50)) { Scanner c(sc); Scanner d(buf.view()); d = c; sc = d; } else { Scanner c(sc); sc = c; }
				}
				check("copy");
				break; }
		}
	}
}

static int scannerMain()
{
	Rng r(vr::seed());
	for (int k=0; vr::more() && k < 60000; ++k)
	{
		std::string s = rndSource(r, r.chance(20) ? 60 : 14, "ab/* \t\n\n \xC3\xA4", 11);
		if (r.chance(4) && !s.empty()) s[r.below(s.size())] = '\0';
		scannerCase(r, s, 12);
	}
	// lines
	for (int k=0; vr::more() && k < 2000; ++k)
	{
		std::string s;
		int nl = r.range(1,6);
		for (int i=0; i<nl; ++i) { s += std::string(r.below(3), '\t') + std::string(r.below(4), ' ') + (r.chance(80) ? "x" : "") + (r.chance(20) ? " y" : "") + "\n"; }
		scannerCase(r, s, 30);
	}
	// a string view not terminated by a null character is refused
	{
		vr::begin("string view without terminator");
		char b[4] = {'a','b','c','d'};
		bool thrown = false;
		try { Scanner sc(std::string_view(b, 2)); } catch (const Error&) { thrown = true; }
		VR_CHECK(thrown, "a source without terminator is accepted");
	}
	return vr::finish();
}

// --- lexer -------------------------------------------------------------------------------------------------------
struct Def { char kind; std::string name, a, b; int select = 0; int id = 0; std::shared_ptr<std::regex> re; };	// kind: t token, k keyword, i ignore, e eoln comment, b bracket comment
struct Config { std::vector<Def> defs; std::string bad = "?"; bool indent = false; int tab = 4; int open = 0, close = 0, newline = 0; std::string text; };
struct Tok { std::string name, value; int id, line; };

static std::string rndRegex(Rng& r, int depth);
static std::string rndAtom(Rng& r, int depth)
{
	static const char* esc[] = {"\\+","\\.","\\*","\\(","\\)","\\[","\\]","\\{","\\}","\\?","\\-","\\|","\\&","\\^","\\#","\\$","\\\\"};
	static const char* sets[] = {"[ab]","[a-c]","[^a]","[^ab]","[0-9]","[01]","[a-zA-Z_]","[+-]","[.]","[\\^a]","[c-a]","[x-~]","[^x-~]","[\"]","[ab-]","[a-z]","[p-r]","[A-F]","[0-9a-fA-F]","[!-/]","[^!-/a-z]","[z-x]"};
	switch (r.below(depth > 0 ? 12 : 9))
	{
		case 0: case 1: case 2: case 3: return std::string(1, "abcx01_=/;%$\"!<"[r.below(depth >= 0 ? 7 : 15)]);
		case 4: return esc[r.below(sizeof(esc)/sizeof(*esc))];
		case 5: case 6: case 7: return sets[r.below(sizeof(sets)/sizeof(*sets))];
		case 8: return r.chance(30) ? "." : r.chance(20) ? "\xC3\xA4" : "=";
		case 9: return "(?:" + rndRegex(r, depth-1) + ")";
		default: return "(" + rndRegex(r, depth-1) + ")";
	}
}
static std::string rndRegex(Rng& r, int depth)
{
	static const char* mul[] = {"*","+","?","{0,1}","{1,2}","{0,2}","*?","+?","??","{2}","{0}"};
	std::string s;
	int na = r.chance(25) ? 2 : 1;
	for (int a=0; a<na; ++a)
	{
		if (a) s += "|";
		int n = r.range(1, 3);
		for (int i=0; i<n; ++i)
		{
			std::string at = rndAtom(r, depth);
			s += at;
			bool repeats = at[0] == '(' && at.find_first_of("*+}?", 3) != std::string::npos;	// no nested repetitions: the matcher of the library backtracks
			if (r.chance(35) && !(at[0] & 0x80)) s += repeats ? (r.chance(50) ? "?" : "{0,1}") : mul[r.below(r.chance(10) ? 11 : 7)];
		}
	}
	return s;
}

static bool prefixFree(const std::vector<std::string>& v, const std::string& s)
{
	for (auto& x : v) if (x.compare(0, std::min(x.size(), s.size()), s, 0, std::min(x.size(), s.size())) == 0) return false;
	return true;
}

static Config rndConfig(Rng& r)
{
	static const char* fixed[] = {"[a-zA-Z_][a-zA-Z_0-9]*","[0-9]+","[0-9]*([.][0-9]*){0,1}[ ]*([Ee][+-]{0,1}[0-9]+){0,1}","[\"]((([^\\\\\"\n]+)|([\\\\][^\"\n]))*)[\"]","((true)|(false))","(a|b)+","a?b","-?[0-9]+","[0123456789]*[.][0123456789]+"};
	static const char* kws[] = {"a","ab","b","+","++","+=","=","==","/","(",")","[","]","{","}","*","?",".","-","--","|","&","^","\\","#","$","$a","0","01","true","if","\xC3\xA4","%","!",";","<",">","<="};
	static const char* cmt[] = {"//","#","--","%","/*","(*","{","<!","a#","\xC3\xA4!","'"};
	static const char* cend[] = {"*/","*)","}","!>","\n#","b"};
	Config c;
	std::set<std::string> kwused;
	std::vector<std::string> opens;
	int n = r.range(1, 6);
	int tokno = 0;
	for (int i=0; i<n; ++i)
	{
		Def d;
		switch (r.below(10))
		{
			case 0: case 1: case 2:
				d.kind = 't'; d.name = vr::cat("T", tokno == 0 || r.chance(85) ? tokno++ : r.below(tokno));
				d.a = fixed[r.below(sizeof(fixed)/sizeof(*fixed))];
				if (d.a.find('(') != std::string::npos && r.chance(40)) d.select = 1;
				break;
			case 3: case 4:
				d.kind = 't'; d.name = vr::cat("T", tokno == 0 || r.chance(85) ? tokno++ : r.below(tokno));
				d.a = rndRegex(r, 2);
				if (r.chance(15)) d.select = r.range(1,2);
				if (r.chance(5)) d.a = "^(" + d.a + ")";
				break;
			case 5: case 6: case 7: {
				std::string k = kws[r.below(sizeof(kws)/sizeof(*kws))];
				if (!kwused.insert(k).second) continue;
				d.kind = 'k'; d.name = k; break; }
			case 8:
				d.kind = 'i'; d.a = r.chance(50) ? rndRegex(r, 1) : fixed[r.below(sizeof(fixed)/sizeof(*fixed))]; break;
			default: {
				std::string o = cmt[r.below(sizeof(cmt)/sizeof(*cmt))];
				if (!prefixFree(opens, o)) continue;
				opens.push_back(o);
				d.kind = r.chance(50) ? 'e' : 'b'; d.a = o; d.b = cend[r.below(sizeof(cend)/sizeof(*cend))]; }
		}
		if (d.kind == 't' || d.kind == 'i') d.re = std::make_shared<std::regex>(d.a);
		c.defs.push_back(d);
	}
	if (r.chance(20)) c.bad = "BAD";
	if (r.chance(30)) { c.indent = true; c.tab = r.range(1,8); }
	for (auto& d : c.defs) c.text += vr::cat(d.kind == 't' ? "token " : d.kind == 'k' ? "keyword " : d.kind == 'i' ? "ignore " : "comment ", d.name, " \"", show(d.a), "\" \"", show(d.b), "\" ", d.select, "\n");
	c.text += vr::cat("bad ", c.bad, c.indent ? vr::cat(" indent ", c.tab) : std::string(), "\n");
	return c;
}

struct Part	// a part of a bigger string, without terminator
{
	std::unique_ptr<char[]> p; std::size_t n;
	Part(const std::string& s, Rng& r) : p(new char[s.size()+1]), n(s.size()) { memcpy(p.get(), s.data(), n); p[n] = r.chance(50) ? 'x' : '+'; }
	std::string_view view() const { return std::string_view(p.get(), n); }
};

static Lexer build(Config& c, Rng& r)
{
	Lexer lx;
	int nid = 0;
	std::map<std::string,int> ids;
	bool indAt0 = c.indent && (c.text.size() % 2);
	auto ind = [&]() { lx.defineIndentLexems(1, "OPN", "CLS", "NWL", c.tab); c.open = ++nid; c.close = ++nid; c.newline = ++nid; };
	if (indAt0) ind();
	for (auto& d : c.defs)
	{
		int id = 0;
		switch (d.kind)
		{
			case 't': id = lx.defineLexem(1, Part(d.name, r).view(), Part(d.a, r).view(), d.select); break;
			case 'k': id = lx.defineLexem(Part(d.name, r).view()); break;
			case 'i': lx.defineIgnore(1, Part(d.a, r).view()); break;
			case 'e': lx.defineEolnComment(1, Part(d.a, r).view()); break;
			case 'b': lx.defineBracketComment(1, Part(d.a, r).view(), Part(d.b, r).view()); break;
		}
		if (d.kind == 't' || d.kind == 'k')
		{
			if (!ids.count(d.name)) ids[d.name] = ++nid;
			VR_CHECK(id == ids[d.name], "identifier of the lexem is ", id, " instead of ", ids[d.name]);
			VR_CHECK(lx.lexemId(d.name) == id, "lexemId yields ", lx.lexemId(d.name), " instead of ", id);
			VR_CHECK(lx.isKeyword(id) == (d.kind == 'k'), "isKeyword yields ", lx.isKeyword(id));
			if (d.kind == 't') VR_CHECK(lx.lexemName(id) == d.name, "lexemName yields ", lx.lexemName(id));
			else
			{
				std::string nm = lx.lexemName(id), q = d.name.find('"') != std::string::npos ? "'" : d.name.size() == 1 && d.name != "'" ? "'" : "\"";
				VR_CHECK(nm == q + d.name + q, "keyword ", d.name, " is named ", nm);
				bool refused = false;
				if (r.chance(10))
				{
					try { Lexer l2(lx); l2.defineLexem(d.name); } catch (const std::exception&) { refused = true; }
					VR_CHECK(refused, "a keyword defined twice is accepted: ", d.name);
				}
			}
			d.id = id;
		}
	}
	if (c.bad != "?") lx.defineBadLexem(1, c.bad);
	if (c.indent && !indAt0) ind();
	for (int id : {0, -1, nid+1})
	{
		bool refused = false;
		try { (void)lx.lexemName(id); } catch (const Error&) { refused = true; }
		VR_CHECK(refused, "name of a lexem not defined: ", id);
	}
	VR_CHECK(lx.lexemId("not defined") == 0, "identifier of a lexem not defined");
	VR_CHECK(lx.nofTerminals() == nid, "number of terminals is ", lx.nofTerminals(), " instead of ", nid);
	return lx;
}

static std::vector<Tok> oracle(const Config& c, const std::string& s)
{
	std::vector<Tok> rt;
	std::size_t pos = 0;
	Indent ind;
	for (;;)
	{
		pos = skipSpc(s, pos);
		if (pos >= s.size())
		{
			if (c.indent) while (ind.eof() == Scanner::IndentClose) rt.push_back({"CLS", "", c.close, lineAt(s, pos)});
			rt.push_back({"", "", 0, lineAt(s, pos)});
			return rt;
		}
		const Def* cm = nullptr;
		for (auto& d : c.defs) if ((d.kind == 'e' || d.kind == 'b') && s.compare(pos, d.a.size(), d.a) == 0) cm = &d;
		if (cm)
		{
			std::size_t after = pos + cm->a.size();
			std::size_t e = s.find(cm->kind == 'e' ? std::string("\n") : cm->b, after);
			if (e != std::string::npos) pos = e + (cm->kind == 'e' ? 1 : cm->b.size());
			else if (cm->kind == 'e') pos = s.size();
			else { pos = after; rt.push_back({c.bad, cm->a, -1, lineAt(s, pos)}); }
			continue;
		}
		int best = 0; const Def* bd = nullptr; std::string bv;
		for (auto& d : c.defs)
		{
			int len = 0; std::string v;
			if (d.kind == 'k')
			{
				if (s.compare(pos, d.name.size(), d.name) == 0) { len = d.name.size(); v = d.name; }
			}
			else if (d.kind == 't' || d.kind == 'i')
			{
				std::cmatch m;
				if (std::regex_search(s.data()+pos, s.data()+s.size(), m, *d.re, std::regex_constants::match_continuous | std::regex_constants::match_not_null) && (int)m.size() > d.select)
				{
					len = m.length(0); v = m.str(d.select);
				}
			}
			if (len > best || (len && len == best && d.kind == 'k')) { best = len; bd = &d; bv = v; }
		}
		int line = lineAt(s, pos);
		if (!bd)
		{
			std::size_t e = pos+1;
			if ((unsigned char)s[pos] >= 128) while (e < s.size() && ((unsigned char)s[e] & 0xC0) == 0x80) ++e;
			rt.push_back({c.bad, s.substr(pos, e-pos), -1, line});
			pos = e;
		}
		else if (bd->kind == 'i') pos += best;
		else
		{
			if (c.indent)
			{
				auto t = ind.token(indentAt(s, pos, c.tab));
				if (t == Scanner::IndentNewLine) { rt.push_back({"NWL", "", c.newline, line}); continue; }
				if (t == Scanner::IndentOpen) { rt.push_back({"OPN", "", c.open, line}); continue; }
				if (t == Scanner::IndentClose) { rt.push_back({"CLS", "", c.close, line}); continue; }
			}
			rt.push_back({bd->name, bv, bd->id, line});
			pos += best;
		}
	}
}

static std::string toktext(const Tok& t) { return vr::cat(t.name, " \"", show(t.value), "\" id ", t.id, " line ", t.line); }

static void lexCompare(const Lexer& lx, const std::vector<Tok>& exp, const std::string& s, const char* what)
{
	Src buf(s);
	Scanner sc(buf.view());
	for (std::size_t i=0; i<exp.size(); ++i)
	{
		Lexem l = lx.next(sc);
		Tok g{std::string(l.name()), std::string(l.value()), l.id(), l.line()};
		if (g.name.size() == 5 && g.name[0] == '"' && g.name[4] == '"') g.name = g.name.substr(1, 3);	// the lexems of the indentation are named in quotes
		VR_CHECK(g.name == exp[i].name && g.value == exp[i].value && g.id == exp[i].id && g.line == exp[i].line, what, ": token ", i+1, " is ", toktext(g), " instead of ", toktext(exp[i]));
	}
	// the end of the source is stable
	Lexem l = lx.next(sc);
	VR_CHECK(l.empty() && l.id() == 0, what, ": a token follows the end of the source");
}

static std::string rndText(Rng& r, const Config& c)
{
	std::string s;
	int n = r.range(1, 8);
	for (int i=0; i<n; ++i)
	{
		switch (r.below(10))
		{
			case 0: s += rndSource(r, 3, "ab01cx_+-.=/*#$;\"", 17); break;
			case 1: s += r.chance(50) ? "\n" : " "; break;
			case 2: s += "\n" + std::string(r.below(3), r.chance(50) ? ' ' : '\t'); break;
			case 3: s += r.chance(50) ? "\xC3\xA4" : r.chance(50) ? "\xE2\x82\xAC" : "\xF0\x9F\x98\x80"; break;
			case 4: s += "true"; break;
			case 5: s += rndSource(r, 4, "ab", 2); break;
			default: {
				if (c.defs.empty()) break;
				auto& d = c.defs[r.below(c.defs.size())];
				s += d.kind == 'k' ? d.name : d.kind == 'e' ? d.a + "x\n" : d.kind == 'b' ? d.a + "y" + d.b : rndSource(r, 3, "ab01.+", 6);
				if (r.chance(30)) s += " ";
			}
		}
	}
	if (r.chance(10) && !s.empty()) s[r.below(s.size())] = (char)r.range(128, 255);
	return s;
}

// every printable first character for a single pattern
static void firstCharacters(Rng& r)
{
	Config c;
	Def d;
	d.kind = 't'; d.name = "T"; d.a = rndRegex(r, 2);
	try { d.re = std::make_shared<std::regex>(d.a); } catch (const std::regex_error&) { return; }
	c.defs.push_back(d);
	c.text = "token T \"" + show(d.a) + "\"\n";
	vr::begin(c.text);
	Lexer lx;
	try { lx.defineLexem(1, "T", d.a); } catch (const Error&) { return; }	// patterns matching nothing but empty strings are refused
	for (int ch=33; ch<127; ++ch)
	{
		std::string s = std::string(1, (char)ch) + (r.chance(50) ? "" : rndSource(r, 3, "ab01.+", 6));
		vr::begin(c.text + "source \"" + show(s) + "\"");
		std::vector<Tok> exp;
		c.defs[0].id = 1;
		try { exp = oracle(c, s); } catch (const std::regex_error&) { continue; }
		lexCompare(lx, exp, s, "first characters");
	}
}

static void refusals()
{
	vr::begin("definitions refused");
	auto refused = [](auto f) { Lexer lx; try { f(lx); } catch (const Error&) { return true; } return false; };
	VR_CHECK(refused([](Lexer& l) { l.defineEolnComment(1, ""); }), "an empty comment start is accepted");
	VR_CHECK(refused([](Lexer& l) { l.defineBracketComment(1, "", "*/"); }), "an empty comment start is accepted");
	VR_CHECK(refused([](Lexer& l) { l.defineBracketComment(1, "/*", ""); }), "an empty comment end is accepted");
	VR_CHECK(refused([](Lexer& l) { l.defineLexem(1, "T", "(a"); }), "an unbalanced pattern is accepted");
	VR_CHECK(refused([](Lexer& l) { l.defineLexem(1, "T", "[a"); }), "an unbalanced pattern is accepted");
	VR_CHECK(refused([](Lexer& l) { l.defineIndentLexems(1, "A", "B", "C", 4); l.defineIndentLexems(1, "D", "E", "F", 4); }), "indentation lexems are accepted twice");
}

static int lexerMain()
{
	Rng r(vr::seed());
	refusals();
	for (int k=0; vr::more(0.3) && k < 1500; ++k) firstCharacters(r);
	for (int k=0; vr::more() && k < 100000; ++k)
	{
		Config c;
		try { c = rndConfig(r); } catch (const std::regex_error&) { continue; }
		if (c.defs.empty()) continue;
		vr::begin(c.text);
		Lexer lx = build(c, r);
		Lexer lx2(lx.getDefinitions());
		for (int i=0; i<6; ++i)
		{
			std::string s = rndText(r, c);
			vr::begin(c.text + "source \"" + show(s) + "\"");
			std::vector<Tok> exp;
			try { exp = oracle(c, s); } catch (const std::regex_error&) { continue; }
			lexCompare(lx, exp, s, "lexer");
			lexCompare(lx2, exp, s, "lexer built from the definitions");
		}
	}
	return vr::finish();
}

// --- UTF-8 -------------------------------------------------------------------------------------------------------
static std::string enc(unsigned cp)
{
	std::string s;
	if (cp < 0x80) s += (char)cp;
	else if (cp < 0x800) { s += (char)(0xC0|(cp>>6)); s += (char)(0x80|(cp&63)); }
	else if (cp < 0x10000) { s += (char)(0xE0|(cp>>12)); s += (char)(0x80|((cp>>6)&63)); s += (char)(0x80|(cp&63)); }
	else { s += (char)(0xF0|(cp>>18)); s += (char)(0x80|((cp>>12)&63)); s += (char)(0x80|((cp>>6)&63)); s += (char)(0x80|(cp&63)); }
	return s;
}
static int utf8Main()
{
	for (int b=0; b<256; ++b)
	{
		vr::begin(vr::cat("byte ", b));
		int hi = 0;
		for (int k=0; k<8; ++k) if (b & (1<<k)) hi = k+1;
		VR_CHECK(bitScanReverse((unsigned char)b) == hi, "bitScanReverse yields ", bitScanReverse((unsigned char)b), " instead of ", hi);
		VR_CHECK(utf8mid((unsigned char)b) == ((b & 0xC0) == 0x80), "utf8mid yields ", utf8mid((unsigned char)b));
		int len = b < 0xC0 ? 1 : b < 0xE0 ? 2 : b < 0xF0 ? 3 : b < 0xF8 ? 4 : 0;
		if (len) VR_CHECK(utf8charlen((unsigned char)b) == len, "utf8charlen yields ", utf8charlen((unsigned char)b), " instead of ", len);
	}
	Rng r(vr::seed());
	Lexer lx;
	lx.defineLexem(1, "ID", "[a-z]+");
	auto one = [&](unsigned cp, unsigned cp2) {
		if ((cp >= 0xD800 && cp < 0xE000) || (cp2 >= 0xD800 && cp2 < 0xE000)) return;
		std::string a = enc(cp), b = enc(cp2), s = a + b + "x";
		vr::begin(vr::cat("characters ", cp, " ", cp2));
		Src buf(s);
		Scanner sc(buf.view());
		Lexem l1 = lx.next(sc);
		VR_CHECK(l1.id() == -1 && l1.value() == a, "bad character reported as \"", show(std::string(l1.value())), "\" instead of \"", show(a), "\"");
		Lexem l2 = lx.next(sc);
		VR_CHECK(l2.id() == -1 && l2.value() == b, "second bad character reported as \"", show(std::string(l2.value())), "\" instead of \"", show(b), "\"");
		Lexem l3 = lx.next(sc);
		VR_CHECK(l3.id() == 1 && l3.value() == "x", "token after the bad characters is \"", show(std::string(l3.value())), "\"");
		VR_CHECK((int)a.size() == utf8charlen((unsigned char)a[0]), "length of the character is ", utf8charlen((unsigned char)a[0]));
	};
	for (unsigned cp : {0x80u,0x7FFu,0x800u,0xFFFFu,0x10000u,0x10FFFFu,0x20ACu,0xE4u,0x3FFFFu,0x40000u,0xFFFFFu,0x100000u}) for (unsigned c2 : {0x80u,0x7FFu,0x800u,0xFFFFu,0x10000u,0x10FFFFu}) one(cp, c2);
	for (int k=0; vr::more() && k < 50000; ++k) one(r.range(0x80, r.chance(50) ? 0xFFF : 0x10FFFF), r.range(0x80, r.chance(50) ? 0xFFF : 0x10FFFF));
	// patterns and keywords beginning with a character of several bytes
	for (int k=0; vr::more(1.5) && k < 300; ++k)
	{
		unsigned cp = r.range(0x80, r.chance(50) ? 0xFFF : 0x10FFFF);
		if (cp >= 0xD800 && cp < 0xE000) continue;
		std::string a = enc(cp);
		vr::begin(vr::cat("keyword and pattern of character ", cp));
		Lexer l;
		l.defineLexem(a + "z");
		l.defineLexem(1, "T", a + "[a-y]*");
		std::string s = a + "z " + a + "ab";
		Src buf(s);
		Scanner sc(buf.view());
		Lexem l1 = l.next(sc), l2 = l.next(sc);
		VR_CHECK(l1.id() == 1 && l1.value() == a + "z", "keyword not recognized");
		VR_CHECK(l2.id() == 2 && l2.value() == a + "ab", "pattern not recognized");
	}
	return vr::finish();
}

int main(int argc, const char** argv)
{
	vr::init(argc, argv);
	if (vr::prop() == "scanner") return scannerMain();
	if (vr::prop() == "lexer") return lexerMain();
	return utf8Main();
}
