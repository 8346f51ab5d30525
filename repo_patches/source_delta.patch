From eee4b87e51732bec7376da5a3ded06f3e4116b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:06 +0000
Subject: [PATCH 01/31] fix: TagMask::operator| keeps the tags already in the
 mask

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..bc825ed 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -775,7 +775,7 @@ public:
 	}
 	TagMask operator | (int tag_) const
 	{
-		TagMask rt;
+		TagMask rt( *this);
 		rt.add( tag_);
 		return rt;
 	}
-- 
2.43.0


From 259b9e9c293caf2bd9ed7285d1411609243549c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:07 +0000
Subject: [PATCH 02/31] fix: FlatSet copy assignment replaces the elements of
 the target

---
 src/automaton_structs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton_structs.hpp b/src/automaton_structs.hpp
index a059dab..0c1f3f4 100644
--- a/src/automaton_structs.hpp
+++ b/src/automaton_structs.hpp
@@ -324,7 +324,7 @@ public:
 		:std::vector<TYPE>(std::move(o)){}
 	FlatSet& operator=( const FlatSet<TYPE>& o)
 		{std::vector<TYPE>::reserve( reserveSize( o.size()));
-		 std::vector<TYPE>::insert( std::vector<TYPE>::end(), o.begin(), o.end()); return *this;}
+		 std::vector<TYPE>::operator=( o); return *this;}
 	FlatSet& operator=( FlatSet<TYPE>&& o) noexcept
 		{std::vector<TYPE>::operator=(std::move(o)); return *this;}
 	FlatSet( const std::initializer_list<TYPE>& itemlist)
-- 
2.43.0


From 2ecbdf7234ac3940e2bbf03b3084c90f30cdd163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:20 +0000
Subject: [PATCH 03/31] fix: buffer resource aligns the address of a block and
 does not wrap on huge sizes

---
 src/memory_resource.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 24ac975..75c1de4 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -14,6 +14,8 @@
 #if __cplusplus >= 201703L
 #include <memory_resource>
 #include <cstddef>
+#include <cstdint>
+#include <cstdlib>
 #include <new>
 
 namespace mewa {
@@ -126,7 +128,7 @@ private:
 	void skip_align( size_t alignment_)
 	{
 		if (!isPowerOfTwo( alignment_)) throw std::bad_alloc();
-		size_t rest = m_index & (alignment_-1);
+		size_t rest = ((std::uintptr_t)m_baseptr + m_index) & (alignment_-1);
 		if (rest != 0)
 		{
 			m_index += (alignment_ - rest);
@@ -136,7 +138,7 @@ private:
 	void* allocate_( size_t __bytes, size_t __alignment)
 	{
 		skip_align( __alignment);
-		if (m_index + __bytes > m_size)
+		if (m_index > m_size || __bytes > m_size - m_index)
 		{
 			return m_upstream->allocate( __bytes, __alignment);
 		}
-- 
2.43.0


From 7e94b5f0bb92e3597bcdb88346b72dd10cd0cf7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 04/31] fix: buffer resource without a buffer of its own uses
 the upstream

---
 src/memory_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 75c1de4..de436ef 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -63,6 +63,7 @@ public:
 	{
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
+		if (!m_ownership_baseptr) m_size = 0;
 	}
 	explicit monotonic_buffer_resource( std::size_t initsize)
 		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
@@ -70,6 +71,7 @@ public:
 		init_new_upstream();
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
+		if (!m_ownership_baseptr) m_size = 0;
 	}
 	~monotonic_buffer_resource()
 	{
-- 
2.43.0


From 5ca47b7dcb82bebd4038009eb27e73bf85541356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 05/31] fix: keyword not matching the source is not selected as
 token by the lexer

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..8ecab8e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -592,7 +592,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From ec5a77c90b1365aa4d52f97c729ce0eb6f531163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:33 +0000
Subject: [PATCH 06/31] fix: lexer consumes ignored lexems

---
 src/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 8ecab8e..bf240be 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -625,6 +625,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... ignored lexem consumed, fetch next lexem
+			}
 		}
 	}
 }
-- 
2.43.0


From e64a6d220c5e3bdc1ddc66788fc7090339da094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 07/31] fix: indentation is closed at the end of a source
 ending with a comment without end of line

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index bf240be..80e9c66 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -570,7 +570,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( std::strlen( scanner.current())); //... no EOLN then the comment ends with EOF
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From ed122f5f36408bcd51210add6c59f5d07b307d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 08/31] fix: lexer constructor from definitions takes the
 pattern of ignored lexems

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 80e9c66..830d884 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -685,7 +685,7 @@ Lexer::Lexer( const std::vector<Definition>& definitions)
 			case Definition::BadLexem:		defineBadLexem( def.line(), def.name()); break;
 			case Definition::NamedPatternLexem:	defineLexem( def.line(), def.name(), def.pattern(), def.select()); break;
 			case Definition::KeywordLexem:		defineLexem( def.name()); break;
-			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.pattern());
+			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.ignore()); break;
 			case Definition::EolnComment:		defineEolnComment( def.line(), def.start()); break;
 			case Definition::BracketComment:	defineBracketComment( def.line(), def.start(), def.end()); break;
 			case Definition::IndentLexems:		m_indentLexems = {def.line(),def.openind(),def.closeind(),def.newline(),def.tabsize()}; break;
-- 
2.43.0


From 13edcd174e2d5ba43b11d1f4a94a9105a32aebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 09/31] fix: character range with the highest character as end
 terminates

---
 src/lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 830d884..1f5d504 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -81,9 +81,9 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 			{
 				char to = parseFirstChar( si, false/*!allowNonAscii*/);
 				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
+				for (int ch = from+1; ch <= to; ++ch)
 				{
-					res.push_back( from);
+					res.push_back( ch);
 				}
 			}
 		}
-- 
2.43.0


From 05214debedee3fd80f98b6656e691c6b4865c351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 10/31] fix: first characters of a lexem pattern include those
 of all alternatives and of what follows optional elements

---
 src/lexer.cpp | 134 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 91 insertions(+), 43 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 1f5d504..d50e9e5 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -125,80 +125,128 @@ static bool skipBrackets( char const*& si, char eb)
 
 static bool skipMultiplicator( char const*& si)
 {
-	if (*si)
+	bool rt = true;
+	if (*si == '*' || *si == '?')
 	{
-		if (*si == '*')
-		{
-			++si;
-			return false;
-		}
-		if (*si == '{')
-		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
-		}
+		++si;
+		rt = false;
+	}
+	else if (*si == '+')
+	{
+		++si;
+	}
+	else if (*si == '{')
+	{
+		rt = !(si[1] == '0' && (si[2] == ',' || si[2] == '}'));
+		(void)skipBrackets( si, '}');
+	}
+	else
+	{
+		return true;
 	}
-	return true;
+	if (*si == '?') ++si; //... non greedy
+	return rt;
 }
 
 static std::string inverseCharset( const std::string& charset)
 {
 	std::string rt;
 	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
+	for (char ch : charset) cset.set( (unsigned char)ch);
 	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
 	return rt;
 }
 
-std::string LexemDef::activation( const std::string& source_)
+static void skipAlternative( char const*& si)
 {
-	std::string rt;
-	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	for (int depth = 0; *si && (depth > 0 || (*si != '|' && *si != ')')); ++si)
 	{
-		if (*si == '\0')
+		if (*si == '\\' && si[1])
 		{
-			return rt;
+			++si;
 		}
 		else if (*si == '[')
 		{
-			++si;
-			bool inverse = false;
-			if (*si == '^')
+			for (++si; *si && *si != ']'; ++si)
 			{
-				inverse = true;
-				++si;
+				if (*si == '\\' && si[1]) ++si;
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
+			if (!*si) throw Error( Error::SyntaxErrorInLexer);
 		}
 		else if (*si == '(')
 		{
-			for (;;)
+			++depth;
+		}
+		else if (*si == ')')
+		{
+			--depth;
+		}
+	}
+}
+
+/// \brief Collects the first characters of all alternatives of a pattern until the end of the pattern or its closing bracket
+/// \return true, if one of the alternatives may be empty
+static bool collectFirstCharacters( std::string& res, char const*& si)
+{
+	bool rt = false;
+	for (;;)
+	{
+		bool empty = true;
+		if (*si == '^') ++si;
+		while (empty && *si && *si != '|' && *si != ')')
+		{
+			if (*si == '[')
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
-				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
 				++si;
+				bool inverse = false;
+				if (*si == '^')
+				{
+					inverse = true;
+					++si;
+				}
+				std::string charset;
+				empty = !extractFirstCharacters( charset, si, ']');
+				res.append( inverse ? inverseCharset( charset) : charset);
 			}
+			else if (*si == '(')
+			{
+				++si;
+				if (si[0] == '?' && si[1] == ':') si += 2;
+				empty = collectFirstCharacters( res, si);
+				if (*si != ')') throw Error( Error::SyntaxErrorInLexer);
+				++si;
+			}
+			else if (*si == '.')
+			{
+				++si;
+				res.append( inverseCharset( ""));
+				empty = false;
+			}
+			else
+			{
+				res.push_back( parseFirstChar( si, true/*allowNonAscii*/));
+				empty = false;
+				if (utf8mid( *(si-1))) break; //... a multiplicator refers to the last byte only
+			}
+			if (!skipMultiplicator( si)) empty = true;
 		}
-		else
-		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
-		}
+		skipAlternative( si);
+		if (empty) rt = true;
+		if (*si != '|') break;
+		++si;
 	}
 	return rt;
 }
 
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)collectFirstCharacters( rt, si);
+	if (*si) throw Error( Error::SyntaxErrorInLexer);
+	return rt;
+}
+
 std::pair<std::string_view,int> LexemDef::match( const char* srcptr, std::size_t srclen) const
 {
 	std::match_results<char const*> pieces_match;
-- 
2.43.0


From 6389288a501e36affc91e4bd1db5f0671694a5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 11/31] fix: dollar sign is escaped in keyword patterns

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index d50e9e5..9221c32 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From de66ac652617f582fae6d1a1ae1dce6276399e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:34 +0000
Subject: [PATCH 12/31] fix: scanner checks that its source is null terminated

---
 src/lexer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.hpp b/src/lexer.hpp
index 3c226b5..44aad3c 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -95,7 +95,7 @@ class Scanner
 {
 public:
 	explicit Scanner( const std::string_view& src_)
-		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_indentConsumed(false){void checkNullTerminated();}
+		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_indentConsumed(false){checkNullTerminated();}
 	explicit Scanner( const std::string& src_)
 		:m_src(src_),m_srcitr(src_.c_str()),m_line(1),m_indentstk(),m_indentConsumed(false){}
 	Scanner( const Scanner& o)
-- 
2.43.0


From 8c2a06b4519b1cae61969bb7a9c0c1d7d14b97d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:31 +0000
Subject: [PATCH 13/31] fix: lexer constructor from definitions initializes the
 bad lexem and the indentation lexems

---
 src/lexer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 9221c32..a24b0c1 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -725,6 +725,7 @@ std::vector<Lexer::Definition> Lexer::getDefinitions() const
 }
 
 Lexer::Lexer( const std::vector<Definition>& definitions)
+	:Lexer()
 {
 	for (auto const& def : definitions)
 	{
-- 
2.43.0


From 9688dea99dbb086756124d80f8b3c9684481905f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:30 +0000
Subject: [PATCH 14/31] fix: minus sign at the end of a character set is one of
 its characters

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index a24b0c1..eb8bb7c 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -74,7 +74,7 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 			char from = res[ res.size()-1];
 			if (!*si || *si == eb)
 			{
-				res.push_back( from);
+				res.push_back( '-');
 				break;
 			}
 			else
-- 
2.43.0


From 0137f251b2bbfd4cdb236f48650d940195ca0d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:03 +0000
Subject: [PATCH 15/31] fix: identifiers longer than 65529 characters overflow
 the stack or are mixed up

---
 src/identmap.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..8812853 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -25,17 +25,17 @@ namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	std::uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
+		constexpr std::size_t maxsize = std::numeric_limits<std::int32_t>::max();
+		std::size_t strsize = src.size() > maxsize ? maxsize : src.size();
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		std::size_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		std::size_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
 		rt->size = strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
@@ -50,7 +50,7 @@ struct IdentKey
 	int alignedsize() const noexcept
 	{
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		std::size_t blksize = offs_buf + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From 5a40e47146833b0b0ebd2f88a3a1c695cc8dc318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:20 +0000
Subject: [PATCH 16/31] fix: overload with the name of a synonym does not
 become an overload of the type it stands for

---
 src/typedb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..c6c2af8 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -233,6 +233,10 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	int prev_typerec = m_typeTable->getOrSet( scope, typeDef, typerec);
 	if (prev_typerec/*already exists*/)
 	{
+		// A synonym (defineTypeAs) with this name in this scope is a conflict, its list is the one of another definition:
+		TypeRecord const& prev = m_typerecMap[ prev_typerec-1];
+		if (prev.inv != typeDef || prev.scope != scope) return -1;
+
 		// Check if there is a conflict, and find the end of the single linked list (-> lastListIndex):
 		int lastListIndex = 0;
 		int tri = findTypeWithSignature( prev_typerec, parameter, lastListIndex);
-- 
2.43.0


From 1fde3fdeab24831ca7006441b1ece32ba555556d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:43 +0000
Subject: [PATCH 17/31] fix: argument of an error whose message or file name
 contains a colon

---
 src/error.cpp | 19 +++++++++++++++++++
 src/error.hpp |  2 +-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..ec1dd37 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -318,6 +318,25 @@ const char* Error::code2String( int code_) noexcept
 	return "Unknown error";
 }
 
+const char* Error::arg() const noexcept
+{
+	// The message and the file name may contain ": " too, the argument starts after them:
+	char const* ai = what();
+	if (*ai == '#')
+	{
+		char const* msg = code2String( m_code);
+		char const* mi = std::strstr( ai, msg);
+		if (mi) ai = mi + std::strlen( msg);
+	}
+	if (m_location.filename()[0] && (m_location.line() || m_code == CompileError))
+	{
+		char const* fi = std::strstr( ai, m_location.filename());
+		if (fi) ai = fi + std::strlen( m_location.filename());
+	}
+	char const* rt = std::strstr( ai, ": ");
+	return rt ? (rt+2) : rt;
+}
+
 std::string Error::map2string( Code code_, const std::string_view& param_, const Location& location_)
 {
 	char parambuf[ 512];
diff --git a/src/error.hpp b/src/error.hpp
index f15bd0e..9f6d7d4 100644
--- a/src/error.hpp
+++ b/src/error.hpp
@@ -176,7 +176,7 @@ public:
 		:std::runtime_error(map2string(o.code(),o.arg(),location_)),m_code(o.m_code),m_location(location_){}
 
 	Code code() const noexcept			{return m_code;}
-	const char* arg() const noexcept		{char const* rt = std::strstr( what(), ": "); return rt?(rt+2):rt;}
+	const char* arg() const noexcept;
 	const Location& location() const noexcept	{return m_location;}
 
 	const char* what() const noexcept override
-- 
2.43.0


From 9da618880d3cd4098a1be09319d9ea6fa1edd782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 18/31] fix: text that is no error message is not parsed as one
 and not lost

---
 src/error.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index ec1dd37..e800524 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -45,7 +45,7 @@ Error Error::parseError( const char* errstr) noexcept
 				int cd = parseInteger( ei);
 				skipSpaces( ei);
 
-				if (cd < 0 || cd > std::numeric_limits<short>::max())
+				if (cd <= 0 || cd > std::numeric_limits<short>::max())
 				{
 					code_ = RuntimeException;
 					param_ = errstr;
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::strlen( code2String( code_)) == (std::size_t)(ei-msgstart) && 0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
 			{
 				++ei;
 				skipSpaces( ei);
@@ -148,6 +148,14 @@ Error Error::parseError( const char* errstr) noexcept
 			}
 			else
 			{
+				if (!param_)
+				{
+					//... not the text of an error
+					code_ = RuntimeException;
+					param_ = errstr;
+					line_ = 0;
+					filename_ = "";
+				}
 				state = StateEnd;
 			}
 			break;
@@ -170,7 +178,8 @@ int Error::parseInteger( char const*& si) noexcept
 	int rt = 0;
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = (rt * 10) + (*si - '0');
+		int digit = *si - '0';
+		rt = (rt > (std::numeric_limits<int>::max() - digit) / 10) ? std::numeric_limits<int>::max() : ((rt * 10) + digit);
 	}
 	return rt;
 }
-- 
2.43.0


From 8bdfce7f159139570ed285d2dbd289b62d3f9e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:53 +0000
Subject: [PATCH 19/31] fix: error location of a Lua chunk without file is
 parsed back

---
 src/error.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index e800524..22064a2 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -108,7 +108,10 @@ Error Error::parseError( const char* errstr) noexcept
 			if (ee-ei > 8 && 0==std::memcmp( ei, "at line ", 8))
 			{
 				ei += 8;
+				bool negative = (*ei == '-'); //... line of a function without script, printed by Lua as -1
+				if (negative) ++ei;
 				line_ = parseInteger( ei);
+				if (negative) line_ = -line_;
 				if (*ei == ' ')
 				{
 					++ei;
@@ -130,7 +133,18 @@ Error Error::parseError( const char* errstr) noexcept
 				ei += 8;
 				if (*ei == '"' || *ei == '\'')
 				{
-					filename_ = parseString( ei);
+					// The file name may contain quotes, as the names Lua gives to chunks loaded from a string:
+					char const* fe = std::strchr( ei+1, *ei);
+					while (fe && fe[1] && (fe[1] != ':' || fe[2] != ' ')) fe = std::strchr( fe+1, *ei);
+					if (fe)
+					{
+						filename_ = std::string_view( ei+1, fe-ei-1);
+						ei = fe+1;
+					}
+					else
+					{
+						filename_ = parseString( ei);
+					}
 				}
 			}
 			state = StateParseArgument;
-- 
2.43.0


From 2cc685cb8f922df57e68834286fe75a9d9ef17ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 20/31] fix: conflict of accept with a reduction is reported
 and not resolved by associativity

---
 src/automaton.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..aed13ae 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -903,8 +903,9 @@ static void insertAction(
 	{
 		priorityMap[ key] = priority;
 	}
-	else if (action.type() == ains.first->second.type())
+	else if ((action.type() == Automaton::Action::Shift) == (ains.first->second.type() == Automaton::Action::Shift))
 	{
+		//... both are shifts or both are reductions, accept is the reduction of the start production
 		if (ains.first->second != action)
 		{
 			Error::Code ec = action.type() == Automaton::Action::Shift ? Error::ShiftShiftConflictInGrammarDef : Error::ReduceReduceConflictInGrammarDef;
-- 
2.43.0


From 823bc962518262c5cfc3787a0cd331be6dd79ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:14 +0000
Subject: [PATCH 21/31] fix: error code for too many productions

---
 src/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index aed13ae..d7af982 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1285,7 +1285,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	// [2] Test complexity boundaries:
 	if (langdef.prodlist.size() >= (std::size_t)MaxNofProductions)
 	{
-		throw Error( Error::ComplexityMaxStateInGrammarDef);
+		throw Error( Error::ComplexityMaxNofProductionsInGrammarDef);
 	}
 	if (langdef.lexer.nofTerminals() >= MaxTerminal)
 	{
-- 
2.43.0


From c752c8ace35bcd61a26ae05a01d8b8cd0aaf103c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:25 +0000
Subject: [PATCH 22/31] fix: numbers in the grammar that do not fit are refused
 and not truncated

---
 src/automaton_parser.cpp | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..c0ed0f9 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -16,6 +16,7 @@
 #include "utf8.hpp"
 #include <map>
 #include <algorithm>
+#include <limits>
 #include <type_traits>
 
 using namespace mewa;
@@ -93,8 +94,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (std::numeric_limits<int>::max() - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
@@ -104,6 +105,16 @@ static int convertStringToInt( const std::string_view& str)
 	return rt;
 }
 
+static int convertStringToPriorityValue( const std::string_view& str)
+{
+	int rt = convertStringToInt( str);
+	if (rt >= Automaton::MaxPriority)
+	{
+		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+	}
+	return rt;
+}
+
 static Priority convertStringToPriority( const std::string_view& str)
 {
 	Priority rt;
@@ -114,20 +125,16 @@ static Priority convertStringToPriority( const std::string_view& str)
 	if (str[0] == 'L' || str[0] == 'R')
 	{
 		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToPriorityValue( str.substr( 1, str.size()-1)), assoz);
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
 		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		rt = Priority( convertStringToPriorityValue( str.substr( 0, str.size()-1)), assoz);
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
-	}
-	if (rt.value >= Automaton::MaxPriority)
-	{
-		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+		rt = Priority( convertStringToPriorityValue( str));
 	}
 	return rt;
 }
-- 
2.43.0


From 28549f25030faf8d16ad074fda6d8bd2e8b382d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:44 +0000
Subject: [PATCH 23/31] fix: strings with quotes, backslashes and line ends in
 printed Lua tables

---
 src/automaton_tostring.cpp   | 12 ++++++--
 src/languagedef_tostring.cpp | 58 ++++++++----------------------------
 2 files changed, 21 insertions(+), 49 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..c696bd0 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -182,15 +182,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printString( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printString( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printString( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..78d0e89 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -14,58 +14,24 @@
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
-{
-	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
-	{
-		if (*si == '\\')
-		{
-			rt.append( "\\\\");
-		}
-		else
-		{
-			rt.push_back( *si);
-		}
-	}
-	return rt;
-}
-
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
+	char quote = (str.find( '\"') != std::string::npos && str.find( '\'') == std::string::npos) ? '\'' : '\"';
+	outstream << quote;
+	for (char ch : str)
 	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
+		switch (ch)
 		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
+			case '\n': outstream << "\\n"; break;
+			case '\r': outstream << "\\r"; break;
+			case '\0': outstream << "\\000"; break;
+			default:
+				if (ch == '\\' || ch == quote) outstream << '\\';
+				outstream << ch;
+				break;
 		}
 	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	outstream << quote;
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
-- 
2.43.0


From fa706e1b35d21bd07361c30e6bf1a41461a70501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:55 +0000
Subject: [PATCH 24/31] fix: keywords get their ids after the named lexems
 wherever those are defined

---
 src/automaton_parser.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index c0ed0f9..f3f38b5 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -432,7 +432,6 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -624,7 +623,16 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
-		// [2] Label grammar production elements:
+		// [2] Define keywords, after all named lexems because a lexer loaded from a Lua table has to define them in the same order:
+		for (auto const& prod : rt.prodlist)
+		{
+			for (auto const& element : prod.right)
+			{
+				if (!element.symbol() && !rt.lexer.lexemId( element.name())) rt.lexer.defineLexem( element.name());
+			}
+		}
+
+		// [3] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
 			if (rt.lexer.lexemId( prod.left.name()))
@@ -654,7 +662,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 			}
 		}
 
-		// [3] Test if all rules are reachable and the first rule defines a valid start symbol:
+		// [4] Test if all rules are reachable and the first rule defines a valid start symbol:
 		std::string unreachableListString;
 		for (auto const& pr : prodmap)
 		{
@@ -679,7 +687,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		{
 			throw Error( Error::UnreachableNonTerminalInGrammarDef, unreachableListString);
 		}
-		// [4] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
+		// [5] Test if start symbol (head of first production) appears only once on the left side and never on the right side:
 		int startSymbolLeftCount = 0;
 		for (auto const& prod: rt.prodlist)
 		{
@@ -694,13 +702,13 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 			throw Error( Error::StartSymbolDefinedTwiceInGrammarDef, rt.prodlist[0].left.name());
 		}
 
-		// [5] Test complexity:
+		// [6] Test complexity:
 		if (nonTerminalIdMap.size() >= Automaton::MaxNonterminal)
 		{
 			throw Error( Error::ComplexityMaxNonterminalInGrammarDef);
 		}
 
-		// [6] Test for duplicate productions:
+		// [7] Test for duplicate productions:
 		std::set<std::string> prodset;
 		for (auto const& prod: rt.prodlist)
 		{
-- 
2.43.0


From 427d760a8c30a80378e82055d123da0c4dec9815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:25 +0000
Subject: [PATCH 25/31] fix: order of ignored and named lexems is kept in
 printed Lua tables

---
 src/automaton_tostring.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index c696bd0..31d8c63 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -69,7 +69,9 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 		int di = 0;
 		for (auto def : definitions)
 		{
-			defclassmap[ def.typeName()].push_back( di++);
+			// ... ignored lexems are printed as tokens without name to keep the order of definition, the first one wins if two matches have the same length
+			bool isIgnore = def.type() == Lexer::Definition::IgnoreLexem;
+			defclassmap[ isIgnore ? Lexer::Definition::typeName( Lexer::Definition::NamedPatternLexem) : def.typeName()].push_back( di++);
 		}
 		outstream << "\t" << tablename << " = {";
 
@@ -108,8 +110,9 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 						printString( outstream, def.name());
 						break;
 					case Lexer::Definition::IgnoreLexem:
-						outstream << sepc;
+						outstream << sepc << shft << "{ \"\", ";
 						printString( outstream, def.ignore());
+						outstream << " }";
 						break;
 					case Lexer::Definition::EolnComment:
 						outstream << sepc;
-- 
2.43.0


From c837fd839234fd9f5b5033d59529529c4a523262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:31 +0000
Subject: [PATCH 26/31] fix: keyword defined by a view without terminator

---
 src/lexer.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index eb8bb7c..92ee419 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -507,14 +507,13 @@ void Lexer::defineIndentLexems( int line, const std::string_view& open, const st
 static std::string stringToRegex( const std::string_view& opr)
 {
 	std::string rt;
-	char const* si = opr.data();
-	for (; *si; ++si)
+	for (char ch : opr)
 	{
-		if (0!=std::strchr( REGEX_ESCAPE_CHARS, *si))
+		if (ch && 0!=std::strchr( REGEX_ESCAPE_CHARS, ch))
 		{
 			rt.push_back( '\\');
 		}
-		rt.push_back( *si);
+		rt.push_back( ch);
 	}
 	return rt;
 }
-- 
2.43.0


From 249a67f8b0344d697c59c0fbb7af3ed55defc16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:40 +0000
Subject: [PATCH 27/31] fix: string argument of a call with double quotes in
 printed Lua tables

---
 src/automaton_tostring.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 31d8c63..4bed373 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -156,7 +156,11 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				{
+					// ... the argument is a Lua string, its escape sequences are kept
+					const char* quote = call.arg().find( '\"') == std::string::npos ? "\"" : "\'";
+					outstream << ", obj=" << quote << call.arg() << quote;
+				}
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
-- 
2.43.0


From de4f80f427f4285f1ea04ea01a41f51eb70c6335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:57 +0000
Subject: [PATCH 28/31] fix: Lua stack overflow for sources with many nodes on
 the stack of the compiler

---
 src/lua_run_compiler.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..0ed4afe 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -146,8 +146,16 @@ static int getLuaStackReductionSize( const std::pmr::vector<State>& stateStack,
 	return end-start;
 }
 
+static void checkLuaStack( lua_State* ls)
+{
+	// Upper bound of the stack elements needed for pushing a lexem, for a reduction or for a call of a function:
+	enum {NofLuaStackElements=16};
+	if (!lua_checkstack( ls, NofLuaStackElements)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory, "compiler");
+}
+
 static void luaPushLexem( lua_State* ls, const mewa::Lexem& lexem)
 {
+	checkLuaStack( ls);
 	lua_createtable( ls, 0/*size array*/, 3+1/*size struct + one reserved for free use*/);	// STK [TABLE]
 	lua_pushliteral( ls, "name");								// STK [TABLE] "name"
 	lua_pushlstring( ls, lexem.name().data(), lexem.name().size());				// STK [TABLE] "arg" [NAME]
@@ -202,6 +210,7 @@ static void luaReduceStruct(
 		lua_State* ls, CompilerContext& ctx, int reductionSize,
 		int callidx, const mewa::Automaton::Action::ScopeFlag scopeflag, int scopeStart)
 {
+	checkLuaStack( ls);
 	int stk_start = 0;
 	int stk_end = 0;
 
@@ -332,6 +341,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	checkLuaStack( ls);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
-- 
2.43.0


From 4e9f157a1d78b1a6160af2c0efecc245dd2152e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 29/31] fix: attributes in comments of grammars printed for
 other tools

Multi line block comments and line comments at the end of the source did
not end, block comments contained their end marker, line comments the blank
lines that follow and a character after a block comment was skipped.
---
 src/automaton_parser.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index f3f38b5..00265c7 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -14,6 +14,7 @@
 #include "automaton_parser.hpp"
 #include "strings.hpp"
 #include "utf8.hpp"
+#include <cstring>
 #include <map>
 #include <algorithm>
 #include <limits>
@@ -772,6 +773,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 			--nn;
 		}
 		rt.emplace_back( start, nn);
+		if (str < end) ++str; //... skip end of line
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -838,31 +840,22 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
-			line = scanner.line();
 			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* end = std::strchr( start, '\n');
+			if (!end) end = start + std::strlen( start);
+			comment.emplace_back( start, end - start);
+			symlen = end - scanner.current();
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
-			line = scanner.line();
 			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
+			char const* end = std::strstr( start, "*/");
+			if (!end)
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			comment = splitLines( start, end - start);
+			symlen = end + 2 - scanner.current();
 		}
 		else
 		{
@@ -877,6 +870,7 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 				rt.addDecorator( line, dc);
 			}
 			decorators.clear();
+			symlen = 0;
 		}
 		if (!comment.empty())
 		{
-- 
2.43.0


From aa106136b3d4b0e4ea719c9d8b50d5e3c3c5f245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 30/31] fix: line of a declaration in a grammar is the one it
 starts on

The attributes of comments got lost for declarations on more than one line.
---
 src/automaton_parser.cpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 00265c7..3622113 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -211,11 +211,13 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::string call_function;
 		std::string call_arg;
 		int selectidx = 0;
+		int declline = 0; //... line where the current declaration starts
 
 		lexem = grammarLexer.next( scanner);
 		for (; !lexem.empty(); lexem = grammarLexer.next( scanner))
 		{
 			GrammarLexer::LexemType lexemtype = (GrammarLexer::LexemType)lexem.id();
+			if (state == Init) declline = lexem.line();
 			switch (lexemtype)
 			{
 				case GrammarLexer::ERROR:
@@ -504,7 +506,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					else if (state == ParseProductionAttributes || state == ParseAssign)
 					{
 						prodmap.insert( std::pair<std::string_view, std::size_t>( rulename, rt.prodlist.size()));
-						rt.prodlist.push_back( ProductionDef( lexem.line(), rulename, ProductionNodeDefList(), priority));
+						rt.prodlist.push_back( ProductionDef( declline, rulename, ProductionNodeDefList(), priority));
 						if (nonTerminalIdMap.insert( std::pair<std::string_view, int>( rulename, nonTerminalIdMap.size()+1)).second/*insert took place*/)
 						{
 							rt.nonterminals.push_back( std::string( rulename));
@@ -551,22 +553,22 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 						else if (caseInsensitiveEqual( cmdname, "IGNORE"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineIgnore( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineIgnore( declline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "BAD"))
 						{
 							if (cmdargs.size() != 1) throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
-							rt.lexer.defineBadLexem( lexem.line(), cmdargs[ 0]);
+							rt.lexer.defineBadLexem( declline, cmdargs[ 0]);
 						}
 						else if (caseInsensitiveEqual( cmdname, "COMMENT"))
 						{
 							if (cmdargs.size() == 1)
 							{
-								rt.lexer.defineEolnComment( lexem.line(), cmdargs[ 0]);
+								rt.lexer.defineEolnComment( declline, cmdargs[ 0]);
 							}
 							else if (cmdargs.size() == 2)
 							{
-								rt.lexer.defineBracketComment( lexem.line(), cmdargs[ 0], cmdargs[ 1]);
+								rt.lexer.defineBracketComment( declline, cmdargs[ 0], cmdargs[ 1]);
 							}
 							else
 							{
@@ -580,7 +582,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 								throw Error( Error::CommandNumberOfArgumentsInGrammarDef, cmdname);
 							}
 							int indent = convertStringToInt( cmdargs[3]);
-							rt.lexer.defineIndentLexems( lexem.line(), cmdargs[0], cmdargs[1], cmdargs[2], indent);
+							rt.lexer.defineIndentLexems( declline, cmdargs[0], cmdargs[1], cmdargs[2], indent);
 						}
 						else
 						{
@@ -589,11 +591,11 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParsePatternSelect)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr);
+						rt.lexer.defineLexem( declline, rulename, patternstr);
 					}
 					else if (state == ParseEndOfLexemDef)
 					{
-						rt.lexer.defineLexem( lexem.line(), rulename, patternstr, selectidx);
+						rt.lexer.defineLexem( declline, rulename, patternstr, selectidx);
 					}
 					else if (state == ParseProductionElement || state == ParseEndOfProduction || state == ParseCall)
 					{
-- 
2.43.0


From bfecf7d896ef55d6919ccd2da7689c118b2f83b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:03 +0000
Subject: [PATCH 31/31] fix: attributes of comments named like a Lua keyword
 are printed as Lua

---
 src/languagedef_tostring.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 78d0e89..706207a 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,7 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include <set>
 
 using namespace mewa;
 
@@ -58,12 +59,20 @@ static void printArgument( std::ostream& outstream, const char* type, int arg)
 	outstream << arg;
 }
 
+static bool isLuaName( const std::string& name)
+{
+	static const std::set<std::string> keywords = {
+		"and","break","do","else","elseif","end","false","for","function","goto","if","in",
+		"local","nil","not","or","repeat","return","then","true","until","while"};
+	return !name.empty() && !(name[0] >= '0' && name[0] <= '9') && keywords.find( name) == keywords.end();
+}
+
 static void printDecorators( std::ostream& outstream, const std::vector<LanguageDecorator>& decorators)
 {
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		printArgument( outstream, isLuaName( dc.name) ? dc.name.c_str() : ("[\"" + dc.name + "\"]").c_str(), dc.content);
 	}
 }
 
-- 
2.43.0

