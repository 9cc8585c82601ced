From f810ea787d824355e4fa59ee58e6d2e0fd103a39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:10 +0000
Subject: [PATCH 01/81] fix: message of ScopeHierarchyError contained the
 separator ': ' of the argument part, copying such an error garbled it

---
 doc/errorcodes.md | 2 +-
 src/error.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/doc/errorcodes.md b/doc/errorcodes.md
index 14ac934..42c47db 100644
--- a/doc/errorcodes.md
+++ b/doc/errorcodes.md
@@ -58,7 +58,7 @@ A list for Linux can be found [here](https://nuetzlich.net/errno.html).
 + **#456**   _Invalid processing boundary value. Expected to be a non negative number_
 
 + **#462**   _Ambiguous definitions of reductions_
-+ **#463**   _Error in scope hierarchy: Defined overlapping scopes without one including the other_
++ **#463**   _Error in scope hierarchy, defined overlapping scopes without one including the other_
 + **#464**   _Invalid reduction definition_
 
 ## Grammar Definition Errors
diff --git a/src/error.cpp b/src/error.cpp
index 96ff7de..4ff4a4d 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -253,7 +253,7 @@ const char* Error::code2String( int code_) noexcept
 		case InvalidBoundary: return "Invalid processing boundary value. Expected to be a non negative number";
 
 		case AmbiguousReductionDefinitions: return "Ambiguous definitions of reductions";
-		case ScopeHierarchyError: return "Error in scope hierarchy: Defined overlapping scopes without one including the other";
+		case ScopeHierarchyError: return "Error in scope hierarchy, defined overlapping scopes without one including the other";
 		case InvalidReductionDefinition: return "Invalid reduction definition";
 
 		case BadCharacterInGrammarDef: return "Bad character in the grammar definition";
-- 
2.43.0


From d14e460afc3d98eb081a80b78c6265b643577995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 02/81] fix: exceeding the number of productions was reported
 as too many states

---
 src/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 600f245..ad66cd4 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1284,7 +1284,7 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	// [2] Test complexity boundaries:
 	if (langdef.prodlist.size() >= (std::size_t)MaxNofProductions)
 	{
-		throw Error( Error::ComplexityMaxStateInGrammarDef);
+		throw Error( Error::ComplexityMaxNofProductionsInGrammarDef);
 	}
 	if (langdef.lexer.nofTerminals() >= MaxTerminal)
 	{
-- 
2.43.0


From cb22a0b50395ee65b35e3eebca88da44567c9855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 03/81] fix: tree:chld() iteration did not advance beyond the
 second child

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 2275ac5..9bd72d9 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -1167,7 +1167,7 @@ struct LuaTreeMetaMethods
 			luaL_getmetatable( ls, UD::metatableName());
 			lua_setmetatable( ls, -2);
 
-			iter = (*ud->tree)[ ud->nodeidx].next();
+			iter = (*ud->tree)[ iter].next();
 			lua_pushinteger( ls, iter);
 			lua_replace( ls, lua_upvalueindex(2));
 		}
-- 
2.43.0


From 22f5354421a789c77f7e016491e2679e074086be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 04/81] fix: error reporting read uninitialized memory when
 called without a caller on the Lua call stack

---
 src/lualib_mewa.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 9bd72d9..94dd8a3 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,8 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	lua_getstack( ls, 1, &ar);
-	lua_getinfo( ls, "S", &ar);
+	if (!lua_getstack( ls, 1, &ar) || !lua_getinfo( ls, "S", &ar)) return mewa::Error::Location();
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
 
-- 
2.43.0


From ea0d83e7789377f6695d4435b28598f40b4ec250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:39 +0000
Subject: [PATCH 05/81] fix: stacktrace of the main chunk (no line of
 definition) accessed the line before the first

---
 src/lua_parameter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 3d5b316..19520f7 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -683,11 +683,11 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			auto ins = locationMap.insert( {ar.short_src, mewa::readFileLines( ar.short_src)} );
 			fi = ins.first;
 		}
-		if ((int)fi->second.size() >= ar.linedefined)
+		if (ar.linedefined >= 1 && (int)fi->second.size() >= ar.linedefined)
 		{
 			char const* ln = fi->second[ ar.linedefined-1].c_str();
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
-			if (0==std::memcmp( ln, "function ", 8)) ln += 8;
+			if (0==std::strncmp( ln, "function ", 8)) ln += 8;
 			for (; *ln && (unsigned char)*ln <= 32; ++ln){}
 			char const* le = std::strchr( ln, '(');
 			if (!le) le = std::strchr( ln, '\0');
@@ -701,7 +701,7 @@ void mewa::lua::pushStackTrace( lua_State* ls, const char* functionName, int nn,
 			lua_pushlstring( ls, ln, le-ln);				// STK: [STKTR] [ELEM] "function" [FUNCNAME]
 			lua_rawset( ls, -3);						// STK: [STKTR] [ELEM]
 		}
-		else
+		else if (ar.linedefined >= 1)
 		{
 			throw mewa::Error( mewa::Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
 		}
-- 
2.43.0


From fef17efd22294d5886a78a203afeb5281a3d3f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 06/81] fix: serialization of deeply nested or cyclic Lua
 tables crashed (Lua stack and C stack overflow)

---
 src/lua_serialize.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index bf9e705..7839bfe 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -10,6 +10,7 @@
 /// \brief Serialization of lua data structures
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
+#include "error.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -29,7 +30,9 @@ extern "C" {
 
 using namespace mewa;
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth);
+enum {MaxNestingLevel=1000};	//< Maximum depth of tables serialized, protects from stack overflow on cyclic structures
+
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level);
 
 static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 {
@@ -123,8 +126,11 @@ struct LuaTableKey
 	}
 };
 
-static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
+	if (level > MaxNestingLevel) throw mewa::Error( mewa::Error::SerializationError, "table nested too deep or cyclic");
+	if (!lua_checkstack( ls, 8)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory);
+
 	std::vector<LuaTableKey> keyvec;
 	keyvec.reserve( 1024);
 	bool hasNameKeys = false;
@@ -180,7 +186,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			out << indent;
 			key.serialize( out);
 			out << " = ";
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -194,7 +200,7 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 
 			if (kidx++) out << ",";
 			out << indent;
-			serializeLuaValue( out, ls, -1, indent, depth);
+			serializeLuaValue( out, ls, -1, indent, depth, level);
 			lua_pop( ls, 1);					// STK: [TABLE] 
 		}
 	}
@@ -248,7 +254,7 @@ static std::string encodeCString( const char* str)
 	return rt;
 }
 
-static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth)
+static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level)
 {
 	int tp = lua_type( ls, li);
 	switch (tp)
@@ -274,12 +280,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 				}
 				else
 				{
-					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1);
+					serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth-1, level+1);
 				}
 			}
 			else
 			{
-				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth);
+				serializeLuaTable( out, ls, li, indent.empty() ? std::string() : (indent + "  "), depth, level+1);
 			}
 			break;
 		case LUA_TFUNCTION:
@@ -295,7 +301,7 @@ std::string mewa::luaToString( lua_State* ls, int li, bool use_indent, int depth
 {
 	std::string rt;
 	std::ostringstream out;
-	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth);
+	serializeLuaValue( out, ls, li, use_indent ? "\n" : "", depth, 0/*level*/);
 	rt.append( out.str());
 	return rt;
 }
-- 
2.43.0


From d8f88115850db2e0e975f11ac120444136fdf7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:29 +0000
Subject: [PATCH 07/81] fix: Lua tables with holes or not starting with index 1
 were serialized as plain lists, losing the keys

---
 src/lua_serialize.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 7839bfe..c219674 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -167,8 +167,8 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			hasNameKeys = true;
 		}
 		else if (rowcnt
-			&& (int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			&& (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt)
+			&& ((int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
+			|| (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt))
 		{
 			hasNameKeys = true;
 		}
-- 
2.43.0


From 1d151ead9b229372877b0738f9d2fe1e7e441234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:41 +0000
Subject: [PATCH 08/81] fix: double quotes in Lua strings and table keys were
 not escaped when serialized

---
 src/lua_serialize.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index c219674..117dcaa 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -34,6 +34,8 @@ enum {MaxNestingLevel=1000};	//< Maximum depth of tables serialized, protects fr
 
 static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const std::string& indent, int depth, int level);
 
+static std::string encodeCString( const char* str);
+
 static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 {
 	double num;
@@ -111,7 +113,7 @@ struct LuaTableKey
 				}
 				else
 				{
-					out << "[\"" << std::get<const char*>(value) << "\"]";
+					out << "[\"" << encodeCString( std::get<const char*>(value)) << "\"]";
 				}
 				break;
 		}
@@ -241,9 +243,9 @@ static std::string encodeCString( const char* str)
 				rt.append( buf);
 			}
 		}
-		else if (ch == '\\')
+		else if (ch == '\\' || ch == '"')
 		{
-			rt.push_back( ch);
+			rt.push_back( '\\');
 			rt.push_back( ch);
 		}
 		else
-- 
2.43.0


From 04637adf419c9fbbade2eb2a6078448225d037f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 09/81] fix: failures writing a file were reported with a wrong
 error or not at all

---
 src/fileio.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9288202..9248594 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -25,10 +25,11 @@ void mewa::writeFile( const char* filename, const std::string& content)
 	if (!ff) throw Error( (Error::Code)errno, filename);
 	if (content.size() != std::fwrite( content.c_str(), 1, content.size(), ff))
 	{
+		int ec = errno;
 		std::fclose( ff);
-		throw Error( (Error::Code)std::ferror( ff), filename);
+		throw Error( (Error::Code)ec, filename);
 	}
-	std::fclose( ff);
+	if (0!=std::fclose( ff)) throw Error( (Error::Code)errno, filename);
 }
 
 void mewa::writeFile( const std::string& filename, const std::string& content)
@@ -51,7 +52,7 @@ std::string mewa::readFile( const char* filename)
 	}
 	rt.append( rbuf, nn);
 
-	int eno = std::ferror( ff);
+	int eno = std::ferror( ff) ? errno : 0;
 	bool eof = std::feof( ff);
 	std::fclose( ff);
 
-- 
2.43.0


From 4ba0d7f89d3e07827578861aa8a742003578946b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 10/81] fix: base name of a file without extension was read
 beyond its end

---
 src/fileio.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fileio.cpp b/src/fileio.cpp
index 9248594..0ee0cf9 100644
--- a/src/fileio.cpp
+++ b/src/fileio.cpp
@@ -108,7 +108,8 @@ std::string mewa::fileBaseName( const std::string_view& fnam)
 	std::memcpy( buf, fnam.data(), nn);
 	buf[ nn] = 0;
 	char* bn = ::basename( buf);
-	std::size_t ee = std::strchr( bn, '\0')-bn;
+	nn = std::strlen( bn);
+	std::size_t ee = nn;
 	for (; ee > 0 && bn[ ee] != '.'; --ee){}
 	if (ee != 0) nn = ee;
 	return std::string( bn, nn);
-- 
2.43.0


From 6b12a4a75846ffc308c3f27e12a84ac344ca7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 11/81] fix: errors writing debug output of compiled programs
 were ignored (inverted check)

---
 src/lualib_mewa.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 94dd8a3..ba79372 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -143,21 +143,20 @@ static int lua_print_redirected_impl( lua_State* ls, FILE* fh)
 			}
 			catch (...) {lippincottFunction( ls);}
 		}
-		if (len < std::fwrite( str, 1, len, fh))
+		if (len > std::fwrite( str, 1, len, fh))
 		{
-			int ec = std::ferror( fh);
+			int ec = errno;
 			mewa::Error err( (mewa::Error::Code)ec, functionName);
 			luaL_error( ls, "%s", err.what());
 		}
 	}
 	// Print eoln:
-	if (1 > std::fwrite( "\n", 1, 1, fh))
+	if (1 > std::fwrite( "\n", 1, 1, fh) || 0 != std::fflush( fh))
 	{
-		int ec = std::ferror( fh);
+		int ec = errno;
 		mewa::Error err( (mewa::Error::Code)ec, functionName);
 		luaL_error( ls, "%s", err.what());
 	}
-	std::fflush( fh);
 	return 0;
 }
 
-- 
2.43.0


From c74d4222fbeae7495008f5128a1060f840fe144a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 12/81] fix: failure to write debug output was reported with a
 wrong error code

---
 src/lua_run_compiler.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index ab91c3c..3a83939 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -191,11 +191,10 @@ static void printDebug( FILE* dbgout, const char* fmt, ...)
 	std::string content = mewa::string_format_va( fmt, ap);
 	va_end( ap);
 
-	if (!std::fwrite( content.data(), content.size(), 1, dbgout))
+	if (content.size() != std::fwrite( content.data(), 1, content.size(), dbgout) || 0 != std::fflush( dbgout))
 	{
-		throw mewa::Error( (mewa::Error::Code) std::ferror( dbgout), "debug output");
+		throw mewa::Error( (mewa::Error::Code) errno, "debug output");
 	}
-	std::fflush( dbgout);
 }
 
 static void luaReduceStruct( 
-- 
2.43.0


From 17bc0700973889075640335b8932435da2369eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 13/81] fix: failure to write the output of a compiled program
 to stdout or stderr was ignored

---
 src/lualib_mewa.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index ba79372..aa95250 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -471,11 +471,11 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				std::fputs( output.c_str(), ::stderr);
+				if (0 > std::fputs( output.c_str(), ::stderr)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
 			}
 			else if (outputfn == "stdout")
 			{
-				std::puts( output.c_str());
+				if (0 > std::puts( output.c_str()) || 0 != std::fflush( ::stdout)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
 			}
 			else
 			{
-- 
2.43.0


From 0a179969dc443f23aef454c62c9fd6129522eaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 14/81] fix: parsing of error messages compared beyond the end
 of the message text

---
 src/error.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index 4ff4a4d..4580a35 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -93,7 +93,7 @@ Error Error::parseError( const char* errstr) noexcept
 				param_ = errstr;
 				state = StateEnd;
 			}
-			else if (0==std::memcmp( msgstart, code2String( code_), ei-msgstart))
+			else if (std::string_view( msgstart, ei-msgstart) == code2String( code_))
 			{
 				++ei;
 				skipSpaces( ei);
-- 
2.43.0


From f99c22f565fa83731402f40e096133fac2b21df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 15/81] fix: errors raised when called from a C function were
 located at line -1, which parsing the error cannot read back

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index aa95250..1a7654c 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -55,7 +55,7 @@ extern "C" int luaopen_mewa( lua_State* ls);
 static mewa::Error::Location getLuaScriptErrorLocation( lua_State* ls)
 {
 	lua_Debug ar;
-	if (!lua_getstack( ls, 1, &ar) || !lua_getinfo( ls, "S", &ar)) return mewa::Error::Location();
+	if (!lua_getstack( ls, 1, &ar) || !lua_getinfo( ls, "S", &ar) || ar.linedefined < 0) return mewa::Error::Location();
 	return mewa::Error::Location( ar.short_src, ar.linedefined);
 }
 
-- 
2.43.0


From 50d57fd2207fc965085994f491c1f519a41c9aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:58 +0000
Subject: [PATCH 16/81] fix: integer overflow parsing numbers in error messages

---
 src/error.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/error.cpp b/src/error.cpp
index 4580a35..b7fd9b8 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -170,7 +170,8 @@ int Error::parseInteger( char const*& si) noexcept
 	int rt = 0;
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = (rt * 10) + (*si - '0');
+		int dig = *si - '0';
+		rt = rt > (std::numeric_limits<int>::max() - dig) / 10 ? std::numeric_limits<int>::max() : (rt * 10) + dig;
 	}
 	return rt;
 }
-- 
2.43.0


From b3373268fd3cb1a131afa5f52123f5147dc9c6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 17/81] fix: negative or too big table indices in list
 arguments were used for memory access

---
 src/lua_parameter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 19520f7..252f865 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -161,6 +161,7 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 static int getTableIndex( lua_State* ls, int li)
 {
 	double kk = lua_tonumber( ls, li);
+	if (kk < 1 || kk > std::numeric_limits<int>::max()) return 0;
 	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
 	{
 		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
-- 
2.43.0


From f5f520d4a4c021847860cc70e6992668563c45bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 18/81] fix: list of type/constructor pairs with an element
 that is neither a type nor a table crashed

---
 src/lua_parameter.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index 252f865..ea15fdb 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -236,6 +236,10 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 		int type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
 		return mewa::TypeDatabase::TypeConstructorPair( type, 0/*constructor*/);
 	}
+	else if (lua_type( ls, li) != LUA_TTABLE)
+	{
+		mewa::lua::throwArgumentError( functionName, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	else
 	{
 		lua_pushvalue( ls, li);
-- 
2.43.0


From efc85831e93c60e15da0698439e77a8aa4e6300b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:30 +0000
Subject: [PATCH 19/81] fix: constructors of type/constructor pair lists were
 registered twice and holes in the list accepted as invalid types

---
 src/lua_parameter.cpp | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index ea15fdb..ae029a6 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -312,18 +312,11 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 			if (!kidx) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 
 			std::size_t index = kidx-1;
-			if (index == rt.size())
+			if (index >= rt.size())
 			{
-				rt.emplace_back( getArgumentAsTypeConstructorPair( functionName, ls, -1));	//STK: [PARAMTAB] [KEY] [VAL]
+				rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, -1));
 			}
-			else
-			{
-				if (index > rt.size())
-				{
-					rt.resize( index+1, mewa::TypeDatabase::TypeConstructorPair( -1, -1));
-				}
-			}
-				rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);		//STK: [PARAMTAB] [KEY] [VAL]
+			rt[ index] = getArgumentAsTypeConstructorPair( functionName, ls, -1);			//STK: [PARAMTAB] [KEY] [VAL]
 		}
 		else
 		{
@@ -332,6 +325,10 @@ std::pmr::vector<mewa::TypeDatabase::TypeConstructorPair>
 		lua_pop( ls, 1);											//STK: [PARAMTAB] [KEY]
 	}
 	lua_pop( ls, 1);												//STK:
+	for (auto const& elem : rt)
+	{
+		if (elem.type < 0) throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentTypeConstructorPairList);
+	}
 	return rt;
 }
 
-- 
2.43.0


From 6650a91615d73ad6b3d6426871407865338d11dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 20/81] fix: types could be defined with parameters of
 undefined type, leading to endless recursion printing them

---
 src/typedb.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a61be70..280ec2c 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -213,6 +213,10 @@ int TypeDatabase::defineType( const Scope& scope, int contextType, const std::st
 	if (constructor < 0) throw Error( Error::InvalidHandle, string_format( "%d", constructor));
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
 
+	for (auto const& param : parameter)
+	{
+		if (param.type < 0 || param.type > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", param.type));
+	}
 	m_typerecMap.reserve( m_typerecMap.size()+1);
 
 	int parameterlen = parameter.size();
-- 
2.43.0


From 6464c5aed109936d251852eb12413fb94622833f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 21/81] fix: failed allocation of the memory of a typedb was
 ignored (missing throw)

---
 src/typedb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.hpp b/src/typedb.hpp
index 9564244..d7382a5 100644
--- a/src/typedb.hpp
+++ b/src/typedb.hpp
@@ -433,7 +433,7 @@ private:
 		{
 			size = size_;
 			ptr = std::aligned_alloc( 8/*alignment*/, size);
-			if (!ptr) std::bad_alloc();
+			if (!ptr) throw std::bad_alloc();
 		}
 		~MemoryBlock()
 		{
-- 
2.43.0


From 0fd7f593e5b9ce40f0d5f18693dfbb65cc24a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 22/81] fix: debug string of a derivation was built from
 uninitialized memory instead of the formatted weight

---
 src/typedb.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 280ec2c..a1f181c 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -431,7 +431,7 @@ std::string TypeDatabase::reductionsToString( const std::pmr::vector<TypeConstru
 
 std::string TypeDatabase::deriveResultToString( const DeriveResult& res) const
 {
-	return reductionsToString( res.reductions) + std::string(" [%.3f]", res.weightsum);
+	return reductionsToString( res.reductions) + string_format(" [%.3f]", res.weightsum);
 }
 
 std::string TypeDatabase::resolveResultToString( const ResolveResult& res) const
-- 
2.43.0


From 3049a17ef3ed5a2a840ab5d0110b1d09bdc29f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:21 +0000
Subject: [PATCH 23/81] fix: lookups of undefined types added their name to the
 database

---
 src/typedb.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index a1f181c..0c29b7d 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -185,7 +185,7 @@ int TypeDatabase::findTypeWithSignature( int typerec, const TypeDatabase::TypeLi
 int TypeDatabase::getType( const Scope& scope, int contextType, const std::string_view& name, const TypeList& parameter) const
 {
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
-	TypeDef typeDef( contextType, m_identMap->get( name));
+	TypeDef typeDef( contextType, m_identMap->lookup( name));
 
 	int typerec = m_typeTable->getDef( scope, typeDef);
 	return typerec ? findTypeWithSignature( typerec, parameter) : 0;
@@ -195,7 +195,7 @@ TypeDatabase::GetTypesResult TypeDatabase::getTypes( const Scope& scope, int con
 {
 	TypeDatabase::GetTypesResult rt( resbuf);
 	if (contextType < 0 || contextType > (int)m_typerecMap.size()) throw Error( Error::InvalidHandle, string_format( "%d", contextType));
-	TypeDef typeDef( contextType, m_identMap->get( name));
+	TypeDef typeDef( contextType, m_identMap->lookup( name));
 
 	int tri = m_typeTable->getDef( scope, typeDef);
 	while (tri)
-- 
2.43.0


From 352dfc5de0763e66ce6ee3e51de2a7c81ed55cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 24/81] fix: Lua stack overflow compiling programs with deep
 nesting or many top level nodes

---
 src/lua_run_compiler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 3a83939..62075b0 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -148,6 +148,7 @@ static int getLuaStackReductionSize( const std::pmr::vector<State>& stateStack,
 
 static void luaPushLexem( lua_State* ls, const mewa::Lexem& lexem)
 {
+	if (!lua_checkstack( ls, 4)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory);
 	lua_createtable( ls, 0/*size array*/, 3+1/*size struct + one reserved for free use*/);	// STK [TABLE]
 	lua_pushliteral( ls, "name");								// STK [TABLE] "name"
 	lua_pushlstring( ls, lexem.name().data(), lexem.name().size());				// STK [TABLE] "arg" [NAME]
@@ -224,6 +225,7 @@ static void luaReduceStruct(
 	}
 	int structsize = scopeflag == mewa::Automaton::Action::NoScope ? 3:4;
 											// STK [ARG1]...[ARGN]
+	if (!lua_checkstack( ls, 6)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory);
 	lua_createtable( ls, 0/*size array*/, structsize+1/*one reserved for free use*/);// STK [ARG1]...[ARGN] [TABLE]
 
 	lua_pushliteral( ls, "call");							// STK [ARG1]...[ARGN] [TABLE] "call"
@@ -331,6 +333,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbgout, int options_index)
 {
 	if (!lua_istable( ls, li)) throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	if (!lua_checkstack( ls, 10)) throw mewa::Error( mewa::Error::LuaStackOutOfMemory);
 	lua_pushcfunction( ls, &lua_pcall_errorhandler);		// STK: [EHND] 
 	lua_pushvalue( ls, li);						// STK: [EHND] [NODE]
 	lua_pushliteral( ls, "call");					// STK: [EHND] [NODE] "call"
@@ -406,7 +409,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			std::string resstr( mewa::luaToString( ls, -1, true/*formatted*/, 0/*no maximum depth*/));
 			printDebug( dbgout, "%s\n", resstr.c_str());
 		}
-		lua_pop( ls, 1);					// STK: 
+		lua_pop( ls, 4);					// STK: 
 	}
 }
 
-- 
2.43.0


From 917e82b94be61cc6518c92801a15c3516f05f126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 25/81] fix: call table elements that are not tables or have no
 name crashed the compiler run

---
 src/lua_run_compiler.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 62075b0..3c04273 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -360,6 +360,10 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		lua_pop( ls, 3);					// STK:
 		throw mewa::Error( mewa::Error::NoLuaFunctionDefinedForItem, namestr + " = " + valuestr);
 	}
+	else if (!lua_istable( ls, -1))
+	{
+		throw mewa::Error( mewa::Error::BadElementOnCompilerStack, mewa::string_format( "%s line %d", __FILE__, (int)__LINE__));
+	}
 	else
 	{
 		if (dbgout)
@@ -367,7 +371,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 			lua_pushliteral( ls, "name");			// STK: [EHND] [NODE] [CALL] "name"
 			lua_rawget( ls, -2);				// STK: [EHND] [NODE] [CALL] [NAME]
 			const char* procname = lua_tostring( ls, -1);
-			printDebug( dbgout, "Calling Lua function: %s\n", procname);
+			printDebug( dbgout, "Calling Lua function: %s\n", procname ? procname : "<unnamed>");
 			lua_pop( ls, 1);				// STK: [EHND] [NODE] [CALL]
 		}
 		int nargs = 1;
-- 
2.43.0


From 53ea20871613a1e52b063793fe38ea038ab62842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:57 +0000
Subject: [PATCH 26/81] fix: error message of exactly the size of the message
 buffer got a null byte appended

---
 src/lua_run_compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 3c04273..2e0b1f6 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -317,7 +317,7 @@ static int lua_pcall_errorhandler( lua_State* ls)
 			{
 				msglen = std::snprintf( msgbuf, sizeof(msgbuf), "%s: %s", ar.short_src, msgstr);
 			}
-			if (msglen > sizeof(msgbuf))
+			if (msglen >= sizeof(msgbuf))
 			{
 				msgbuf[ msglen = sizeof(msgbuf)-1] = 0;
 			}
-- 
2.43.0


From 68faa9266c6101b9d773cc08e42a7cef156909b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:46 +0000
Subject: [PATCH 27/81] fix: adjusting stack indices of the compiler on
 overflow changed copies only

---
 src/lua_run_compiler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 2e0b1f6..a85339f 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -101,12 +101,12 @@ struct State
 static void adjustStateCountersOnStack( std::pmr::vector<State>& stateStack)
 {
 	int ofs = 0;
-	for (auto elem : stateStack)
+	for (auto& elem : stateStack)
 	{
 		if (elem.luastki) {ofs = elem.luastki-1; break;}
 	}
 	if (!ofs) throw mewa::Error( mewa::Error::CompiledSourceTooComplex);
-	for (auto elem : stateStack)
+	for (auto& elem : stateStack)
 	{
 		if (elem.luastki) {elem.luastki -= ofs;}
 	}
-- 
2.43.0


From dcbadd68717d4c47ca30710433a840a35c3500ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 28/81] fix: compiler:run did not restore print functions and
 close the debug output on errors, left print_section bound to freed memory,
 repeated output of previous runs

---
 src/lualib_mewa.cpp | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 1a7654c..e387d56 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -405,14 +405,30 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 	std::memcpy( buf, str.data(), str.size());
 	buf[ str.size()] = 0;
 }
+/// \brief Restore the global print functions redirected by compiler:run
+/// \param[in] saved_index Lua stack index of the table _G followed by the functions saved
+static void restorePrintFunctions( lua_State* ls, int saved_index)
+{
+	lua_checkstack( ls, 1);
+	lua_pushvalue( ls, saved_index + 1);
+	lua_setfield( ls, saved_index, "print");
+	lua_pushvalue( ls, saved_index + 2);
+	lua_setfield( ls, saved_index, "debug");
+	lua_pushvalue( ls, saved_index + 3);
+	lua_setfield( ls, saved_index, "print_section");
+}
+
 static int mewa_compiler_run( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:run( target, options, inputfile, [,outputfile [,dbgoutput]])";
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
+	int saved_index = 0;	//... Lua stack index of the table _G with the saved print functions following, 0 if not redirected yet
 	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
-		mewa::lua::checkStack( functionName, ls, 10);
+		mewa::lua::checkStack( functionName, ls, 16);
+		cp->outputBuffer.clear();
+		cp->outputSectionMap.clear();
 
 		char targetfn[ 256]; 	//... target filename
 		if (!lua_isnil( ls, 2))
@@ -448,15 +464,13 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 		lua_getglobal( ls, "_G");		// STK: table=_G
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print
-		lua_pushliteral( ls, "print");		// STK: table=_G, key=print, key=print
-		lua_gettable( ls, -3);			// STK: table=_G, key=print, value=function
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug
-		lua_pushliteral( ls, "debug");		// STK: table=_G, key=print, value=function key=debug key=debug
-		lua_gettable( ls, -5);			// STK: table=_G, key=print, value=function key=debug value=function
+		lua_getfield( ls, -1, "print");		// STK: table=_G, print=function
+		lua_getfield( ls, -2, "debug");		// STK: table=_G, print=function, debug=function
+		lua_getfield( ls, -3, "print_section");	// STK: table=_G, print=function, debug=function, print_section=function
+		saved_index = lua_gettop( ls) - 3;
 
 		lua_getglobal( ls, "_G");
-		lua_pushlightuserdata( ls, cp);
+		lua_pushvalue( ls, 1);			// ... compiler userdata referenced by the closures
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
 
@@ -483,12 +497,10 @@ static int mewa_compiler_run( lua_State* ls)
 			}
 		}
 
-		// Restore old print function that has been left on the stack:
-					//STK: table=_G, key=print, value=function key=debug, value=function
-		lua_settable( ls, -5);	//STK: table=_G, key=print, value=function
-		lua_settable( ls, -3);	//STK: table=_G
-		lua_pop( ls, 1);	//STK:
+		// Restore old print functions that have been left on the stack:
+		restorePrintFunctions( ls, saved_index);
 		cp->closeOutput();
+		lua_pop( ls, 4);	// ... old print functions
 		lua_pop( ls, 3);	// ... destroy strings on lua stack created with move_string_on_lua_stack and options
 
 		if (g_called_deprecated_get_types)
@@ -500,7 +512,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::cerr << "Warning: Called deprecated function typedb:get_type. This function has been renamed to typedb:this_type (issue #4)" << std::endl;
 		}
 	}
-	catch (...) { lippincottFunction( ls); }
+	catch (...)
+	{
+		if (saved_index) restorePrintFunctions( ls, saved_index);
+		cp->closeOutput();
+		lippincottFunction( ls);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 6087798699cd458b0c9db0427b52057ba6fe2749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:16 +0000
Subject: [PATCH 29/81] fix: errors without message raised by node functions
 were reported as error without code

---
 src/lua_run_compiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index a85339f..5b76c64 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -398,7 +398,7 @@ static void luaCallNodeFunction( lua_State* ls, int li, int calltable, FILE* dbg
 		{
 			const char* msg = lua_tostring( ls, -1);
 			mewa::Error err = mewa::Error::parseError( msg);
-			if (err.code() == mewa::Error::RuntimeException)
+			if (err.code() == mewa::Error::RuntimeException || err.code() == mewa::Error::Ok)
 			{
 				throw mewa::Error( luaErrorCode2ErrorCode( rc), msg ? msg : "");
 			}
-- 
2.43.0


From 0ff5678b8c028d157b6a3129f67a24a7bed5b387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 30/81] fix: shared_ptr of tree userdata was misaligned, never
 null and kept a dangling pointer after reset

---
 src/lua_userdata.hpp | 42 +++++++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 19 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 2028c1d..be75127 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -158,7 +158,7 @@ class shared_ptr
 public:
 	shared_ptr()
 	{
-		m_refcnt=0;
+		m_ref=nullptr;
 	}
 	shared_ptr( const shared_ptr<T>& o) = delete;
 	shared_ptr( shared_ptr<T>&& o) = delete;
@@ -168,39 +168,35 @@ public:
 	}
 	void init()
 	{
-		m_refcnt=0;
+		m_ref=nullptr;
 	}
 	void reset()
 	{
-		if (m_refcnt)
+		if (m_ref)
 		{
-			if (*m_refcnt == 1)
+			if (m_ref->refcnt == 1)
 			{
-				((T*)(m_refcnt+1))->~T();
-				std::free( m_refcnt);
+				delete m_ref;
 			}
 			else
 			{
-				*m_refcnt -= 1;
+				m_ref->refcnt -= 1;
 			}
+			m_ref = nullptr;
 		}
 	}
 	void reset( T&& obj)
 	{
 		reset();
-		m_refcnt = (int*)std::malloc( sizeof(int)+sizeof(T));
-		if (m_refcnt == nullptr) throw std::bad_alloc();
-		*m_refcnt = 1;
-		T* ptr = (T*)(m_refcnt+1);
-		new (ptr) T( std::move( obj));
+		m_ref = new Block( std::move( obj));
 	}
 	T* get() noexcept
 	{
-		return (T*)(m_refcnt+1);
+		return m_ref ? &m_ref->obj : nullptr;
 	}
 	T const* get() const noexcept
 	{
-		return (T const*)(m_refcnt+1);
+		return m_ref ? &m_ref->obj : nullptr;
 	}
 	T& operator*() noexcept
 	{
@@ -212,13 +208,13 @@ public:
 	}
 	shared_ptr<T>& operator=( const shared_ptr<T>& o)
 	{
-		if (o.m_refcnt)
+		if (o.m_ref)
 		{
-			if (o.m_refcnt != m_refcnt)
+			if (o.m_ref != m_ref)
 			{
 				reset();
-				m_refcnt = o.m_refcnt;
-				*m_refcnt += 1;
+				m_ref = o.m_ref;
+				m_ref->refcnt += 1;
 			}
 		}
 		else
@@ -229,7 +225,15 @@ public:
 	}
 
 private:
-	int* m_refcnt;
+	struct Block
+	{
+		int refcnt;
+		T obj;
+
+		explicit Block( T&& obj_)
+			:refcnt(1),obj(std::move(obj_)){}
+	};
+	Block* m_ref;
 };
 
 template <class TT>
-- 
2.43.0


From df957f8817f749e5731a52a49d3f3bdbe8e3309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:09 +0000
Subject: [PATCH 31/81] fix: compiler object leaked when loading its automaton
 failed

---
 src/lualib_mewa.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index e387d56..0082374 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -346,17 +346,17 @@ static int mewa_new_compiler( lua_State* ls)
 	}
 	catch (...) { lippincottFunction( ls); }
 
+	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
+	lua_setmetatable( ls, -2);
+
 	lua_pushliteral( ls, "call");
 	lua_gettable( ls, 1);
 	lua_setglobal( ls, cp->callTableName.buf);
 	try
 	{
-		new (&cp->automaton) mewa::Automaton( mewa::luaLoadAutomaton( ls, 1));
+		cp->automaton = mewa::luaLoadAutomaton( ls, 1);
 	}
 	catch (...) { lippincottFunction( ls); }
-
-	luaL_getmetatable( ls, mewa_compiler_userdata_t::metatableName());
-	lua_setmetatable( ls, -2);
 	return 1;
 }
 
-- 
2.43.0


From 3a5be118d4702d7ff7396d8dd7d6039957c034ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:24 +0000
Subject: [PATCH 32/81] fix: calling the finalizer of an object explicitly led
 to use of freed memory

---
 src/lualib_mewa.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 0082374..40e7ab2 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -100,10 +100,18 @@ static void lippincottFunction( lua_State* ls)
 	}
 }
 
+/// \brief Make a destroyed userdata object unusable for any method call
+static void detachMetatable( lua_State* ls, int li)
+{
+	lua_pushnil( ls);
+	lua_setmetatable( ls, li);
+}
+
 static int destroy_memblock( lua_State* ls)
 {
 	memblock_userdata_t* mb = (memblock_userdata_t*)luaL_checkudata( ls, 1, mewa::MemoryBlock::metatablename());
 	mb->destroy( ls);
+	detachMetatable( ls, 1);
 	return 0;
 }
 
@@ -188,7 +196,7 @@ static void append_printbuffer( lua_State* ls, int ai, int ae, std::string& buff
 
 static int lua_print_section_redirected( lua_State* ls)
 {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print section redirected";
 	if (!cp)
 	{
@@ -206,7 +214,7 @@ static int lua_print_section_redirected( lua_State* ls)
 }
 
 static int lua_print_redirected( lua_State* ls) {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
@@ -223,7 +231,7 @@ static int lua_print_redirected( lua_State* ls) {
 }
 
 static int lua_debug_redirected( lua_State* ls) {
-	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)lua_touserdata(ls, lua_upvalueindex(1));
+	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, lua_upvalueindex(1), mewa_compiler_userdata_t::metatableName());
 	[[maybe_unused]] static const char* functionName = "mewa print redirected";
 	if (!cp)
 	{
@@ -372,6 +380,7 @@ static int mewa_destroy_compiler( lua_State* ls)
 	catch (...) { lippincottFunction( ls); }
 
 	cp->destroy( ls);
+	detachMetatable( ls, 1);
 	return 0;
 }
 
@@ -555,6 +564,7 @@ static int mewa_destroy_typedb( lua_State* ls)
 	catch (...) { lippincottFunction( ls); }
 
 	td->destroy( ls);
+	detachMetatable( ls, 1);
 	return 0;
 }
 
@@ -1163,6 +1173,7 @@ struct LuaTreeMetaMethods
 		catch (...) { lippincottFunction( ls); }
 
 		ud->destroy( ls);
+		detachMetatable( ls, 1);
 		return 0;
 	}
 
-- 
2.43.0


From 864e64fdac4449750026966e219bff4f32a7b6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 33/81] fix: loading an automaton from malformed generated
 tables crashed or shifted table indices silently

---
 src/lua_load_automaton.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index ac1dc57..af5985b 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -71,13 +71,17 @@ static std::vector<std::string> parseStringArray( lua_State *ls, int li, const s
 	std::vector<std::string> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li))
+	{
+		throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
+	}
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
 	while (lua_next( ls, -2))
 	{
 		++rowcnt;
-		if (!lua_isinteger( ls, -2))
+		if (!lua_isinteger( ls, -2) || rowcnt != lua_tointeger( ls, -2))
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
@@ -99,13 +103,17 @@ static std::vector<int> parseIntegerArray( lua_State *ls, int li, const std::str
 	std::vector<int> rt;
 	int rowcnt = 0;
 
+	if (!lua_istable( ls, li))
+	{
+		throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s'", tableName.c_str()));
+	}
 	lua_pushvalue( ls, li);
 	lua_pushnil( ls);
 
 	while (lua_next( ls, -2))
 	{
 		++rowcnt;
-		if (!lua_isinteger( ls, -2))
+		if (!lua_isinteger( ls, -2) || rowcnt != lua_tointeger( ls, -2))
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
@@ -361,10 +369,12 @@ static std::vector<mewa::Automaton::Call> parseCallList( lua_State *ls, int li,
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
 						mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
-		if (lua_istable( ls, -1))
+		if (!lua_istable( ls, -1))
 		{
-			rt.push_back( parseCall( ls, -1, tableName + "[]"));
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+						mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
+		rt.push_back( parseCall( ls, -1, tableName + "[]"));
 		lua_pop( ls, 1);
 	}
 	lua_pop( ls, 1);
-- 
2.43.0


From 20fe3a4c37e511264887c54a4acdfedafadd4dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 34/81] fix: incompatible version was reported as line number
 of the error

---
 src/lua_load_automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index af5985b..4eadbb1 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -435,7 +435,7 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 			version = parseVersion( lua_tostring( ls, -1));
 			if (version >= ((MEWA_MAJOR_VERSION+1) * 100))
 			{
-				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, parseVersion( lua_tostring( ls, -1)));
+				throw mewa::Error( mewa::Error::IncompatibleMewaMajorVersion, lua_tostring( ls, -1));
 			}
 		}
 		else if (0==std::strcmp( keystr, "language"))
-- 
2.43.0


From 9c406e403f329c952e38b8d3b2e11828dbb40d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 35/81] fix: keywords not matching were reported as empty
 tokens without consuming input if nothing else matched

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index dbb09e7..8ecab8e 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -592,7 +592,7 @@ Lexem Lexer::next( Scanner& scanner) const
 			{
 				if (idx >= (int)m_defar.size()) throw Error( Error::ArrayBoundReadInLexer);
 				auto mm = m_defar[ idx].match( start, scanner.restsize());
-				if (maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
+				if (mm.second > 0 && maxlen <= mm.second && (maxlen < mm.second || m_defar[ idx].keyword())) //... keywords preferred if length is the same
 				{
 					maxlen = mm.second;
 					matchstart = mm.first.data();
-- 
2.43.0


From f362965af192816948c6e69d87f82db008262677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 36/81] fix: ignored lexems were not skipped, the lexer looped
 endlessly

---
 src/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 8ecab8e..56ceb9c 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -625,6 +625,10 @@ Lexem Lexer::next( Scanner& scanner) const
 				scanner.next( maxlen);
 				return Lexem( m_defar[ matchidx].name(), m_defar[ matchidx].id(), std::string_view( matchstart, matchsize), line);
 			}
+			else
+			{
+				scanner.next( maxlen); //... ignored lexem skipped, fetch next lexem
+			}
 		}
 	}
 }
-- 
2.43.0


From 11a73c61a22af46a03b8cb4daa75515c6d8466a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:10 +0000
Subject: [PATCH 37/81] fix: character $ was not escaped in keyword patterns

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 56ceb9c..ccebbce 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -16,7 +16,7 @@
 
 using namespace mewa;
 
-#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^"
+#define REGEX_ESCAPE_CHARS "#{}[]()*+?.-\\|&^$"
 
 static std::string_view parseChar( char const*& si)
 {
-- 
2.43.0


From e4fadeb798b74e9131f3189aa32a6ecd63d72610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 38/81] fix: character ranges ending with 127 looped endlessly,
 characters >= 128 in inverted sets were out of range

---
 src/lexer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index ccebbce..1146d23 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -81,9 +81,9 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 			{
 				char to = parseFirstChar( si, false/*!allowNonAscii*/);
 				if (to < from) std::swap( to, from);
-				for (++from; from <= to; ++from)
+				for (int chr = (int)from + 1; chr <= (int)to; ++chr)
 				{
-					res.push_back( from);
+					res.push_back( (char)chr);
 				}
 			}
 		}
@@ -146,7 +146,7 @@ static std::string inverseCharset( const std::string& charset)
 {
 	std::string rt;
 	std::bitset<256> cset;
-	for (char ch : charset) cset.set( ch);
+	for (char ch : charset) cset.set( (unsigned char)ch);
 	for (int ii=33; ii<256; ++ii) if (!cset.test(ii)) {rt.push_back(ii);}
 	return rt;
 }
-- 
2.43.0


From 486a461467b8d7d1dcecddf9ba8016c53d761bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 39/81] fix: constructing a lexer from its definitions turned
 ignored lexems into comments and left members uninitialized

---
 src/lexer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 1146d23..7b0d5ad 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -677,6 +677,7 @@ std::vector<Lexer::Definition> Lexer::getDefinitions() const
 }
 
 Lexer::Lexer( const std::vector<Definition>& definitions)
+	:Lexer()
 {
 	for (auto const& def : definitions)
 	{
@@ -685,7 +686,7 @@ Lexer::Lexer( const std::vector<Definition>& definitions)
 			case Definition::BadLexem:		defineBadLexem( def.line(), def.name()); break;
 			case Definition::NamedPatternLexem:	defineLexem( def.line(), def.name(), def.pattern(), def.select()); break;
 			case Definition::KeywordLexem:		defineLexem( def.name()); break;
-			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.pattern());
+			case Definition::IgnoreLexem:		defineIgnore( def.line(), def.ignore()); break;
 			case Definition::EolnComment:		defineEolnComment( def.line(), def.start()); break;
 			case Definition::BracketComment:	defineBracketComment( def.line(), def.start(), def.end()); break;
 			case Definition::IndentLexems:		m_indentLexems = {def.line(),def.openind(),def.closeind(),def.newline(),def.tabsize()}; break;
-- 
2.43.0


From 72b582029f04a3041fb21ef695a5951e1e46ab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 40/81] fix: check of the source passed to the scanner to be
 null terminated was never called

---
 src/lexer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lexer.hpp b/src/lexer.hpp
index 3c226b5..de94a67 100644
--- a/src/lexer.hpp
+++ b/src/lexer.hpp
@@ -95,7 +95,7 @@ class Scanner
 {
 public:
 	explicit Scanner( const std::string_view& src_)
-		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_indentConsumed(false){void checkNullTerminated();}
+		:m_src(src_),m_srcitr(src_.data()),m_line(1),m_indentstk(),m_indentConsumed(false){checkNullTerminated();}
 	explicit Scanner( const std::string& src_)
 		:m_src(src_),m_srcitr(src_.c_str()),m_line(1),m_indentstk(),m_indentConsumed(false){}
 	Scanner( const Scanner& o)
@@ -187,7 +187,7 @@ public:
 	Lexer()
 		:m_errorLexem(0/*no line*/,"?"),m_defar(),m_firstmap(),m_nameidmap(),m_namelist()
 		,m_id2keyword(),m_bracketComments(),m_eolnComments()
-		,m_indentLexems({0,0,0,0}){}
+		,m_indentLexems({0,0,0,0,0}){}
 	Lexer( const Lexer& o) = default;
 	Lexer& operator=( const Lexer& o) = default;
 	Lexer( Lexer&& o) = default;
-- 
2.43.0


From 32e7f54910ae2470727d42c6ed8a20efdc2b5d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 41/81] fix: tokens starting with an optional element or
 matching an alternative were not recognized, the filter on the first
 character excluded them

---
 src/lexer.cpp | 147 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 106 insertions(+), 41 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 7b0d5ad..5aecb7d 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -125,21 +125,63 @@ static bool skipBrackets( char const*& si, char eb)
 
 static bool skipMultiplicator( char const*& si)
 {
-	if (*si)
+	bool rt = true;
+	if (*si == '*' || *si == '?')
 	{
-		if (*si == '*')
+		++si;
+		rt = false;
+	}
+	else if (*si == '+')
+	{
+		++si;
+	}
+	else if (*si == '{')
+	{
+		rt = (si[1] != '0' || (si[2] != ',' && si[2] != '}'));
+		(void)skipBrackets( si, '}');
+	}
+	else
+	{
+		return true;
+	}
+	if (*si == '?') ++si; //... lazy variant of the multiplicator
+	return rt;
+}
+
+static char const* skipGroup( char const* si)
+{
+	// Skip to the end of the group (unbalanced closing bracket) or to the end of the alternative on the top level ('|') or to the end of the string:
+	int cnt = 0;
+	for (; *si; ++si)
+	{
+		if (*si == '\\')
+		{
+			if (!*++si) break;
+		}
+		else if (*si == '[')
 		{
 			++si;
-			return false;
+			if (*si == '^') ++si;
+			for (; *si && *si != ']'; ++si)
+			{
+				if (*si == '\\' && !*++si) return si;
+			}
+			if (!*si) break;
+		}
+		else if (*si == '(')
+		{
+			++cnt;
+		}
+		else if (*si == ')')
+		{
+			if (cnt-- == 0) break;
 		}
-		if (*si == '{')
+		else if (*si == '|' && cnt == 0)
 		{
-			bool empty = (si[1] == '0' && si[2] == ',');
-			(void)skipBrackets( si, '}');
-			return !empty;
+			break;
 		}
 	}
-	return true;
+	return si;
 }
 
 static std::string inverseCharset( const std::string& charset)
@@ -151,51 +193,74 @@ static std::string inverseCharset( const std::string& charset)
 	return rt;
 }
 
-std::string LexemDef::activation( const std::string& source_)
+static bool extractActivation( std::string& rt, char const*& si)
 {
-	std::string rt;
-	bool empty = true;
-	char const* si = source_.c_str();
-	if (*si == '^') ++si;
-	while (empty)
+	// Add the characters a match can start with to the result and return true if the pattern can match without consuming a character
+	bool rt_empty = false;
+	for (;;)
 	{
-		if (*si == '\0')
+		bool empty = true;
+		if (*si == '^') ++si;
+		while (empty && *si && *si != '|' && *si != ')')
 		{
-			return rt;
-		}
-		else if (*si == '[')
-		{
-			++si;
-			bool inverse = false;
-			if (*si == '^')
+			if (*si == '[')
 			{
-				inverse = true;
 				++si;
+				bool inverse = false;
+				if (*si == '^')
+				{
+					inverse = true;
+					++si;
+				}
+				std::string charset;
+				bool hasCharacters = extractFirstCharacters( charset, si, ']');
+				bool potentiallyIgnored = (skipMultiplicator( si) == false);
+				empty = !hasCharacters || potentiallyIgnored;
+				rt.append( inverse ? inverseCharset( charset) : charset);
 			}
-			bool hasCharacters = extractFirstCharacters( rt, si, ']');
-			bool potentiallyIgnored = (skipMultiplicator( si) == false);
-			empty = !hasCharacters || potentiallyIgnored;
-			if (inverse) rt = inverseCharset( rt);
-		}
-		else if (*si == '(')
-		{
-			for (;;)
+			else if (*si == '(')
 			{
-				char const* start = si+1;
-				bool hasCharacters = skipBrackets( si, ')');
+				++si;
+				bool lookahead = false;
+				if (*si == '?')
+				{
+					++si;
+					lookahead = (*si == '=' || *si == '!');
+					if (*si) ++si;
+				}
+				std::string groupset;
+				bool groupEmpty = extractActivation( groupset, si);
+				if (*si != ')') throw Error( Error::SyntaxErrorInLexer);
+				++si;
 				bool potentiallyIgnored = (skipMultiplicator( si) == false);
-				empty = !hasCharacters || potentiallyIgnored;
-				rt.append( activation( std::string( start, si-start-1)));
-				if (*si != '|') break;
+				empty = lookahead || groupEmpty || potentiallyIgnored;
+				if (!lookahead) rt.append( groupset);
+			}
+			else if (*si == '.')
+			{
 				++si;
+				rt.append( inverseCharset( std::string()));
+				empty = (skipMultiplicator( si) == false);
+			}
+			else
+			{
+				rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
+				empty = (skipMultiplicator( si) == false);
 			}
 		}
-		else
-		{
-			rt.push_back( parseFirstChar( si, true/*allowNonAscii*/));
-			empty = false;
-		}
+		rt_empty |= empty;
+		si = skipGroup( si);
+		if (*si != '|') return rt_empty;
+		++si;
 	}
+}
+
+std::string LexemDef::activation( const std::string& source_)
+{
+	std::string rt;
+	char const* si = source_.c_str();
+	(void)extractActivation( rt, si);
+	if (*si) throw Error( Error::SyntaxErrorInLexer);
 	return rt;
 }
 
-- 
2.43.0


From 21933dceaeb8898c33b1845f6ebed5a6b10c173f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 42/81] fix: out of bounds reads in the lexer for identifiers
 not defined (debug output of an error token, bad indentl definition)

---
 src/lexer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 5aecb7d..b483cf9 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -604,7 +604,7 @@ const std::string& Lexer::lexemName( int id) const
 
 bool Lexer::isKeyword( int id) const
 {
-	return m_id2keyword[ id];
+	return id >= 0 && id < (int)m_id2keyword.size() && m_id2keyword[ id];
 }
 
 Lexem Lexer::next( Scanner& scanner) const
@@ -616,7 +616,7 @@ Lexem Lexer::next( Scanner& scanner) const
 		{
 			if (m_indentLexems.defined() && scanner.getEofIndentToken() == Scanner::IndentClose)
 			{
-				return Lexem( m_namelist[ m_indentLexems.close-1], m_indentLexems.close, ""/*value*/, scanner.line());
+				return Lexem( lexemName( m_indentLexems.close), m_indentLexems.close, ""/*value*/, scanner.line());
 			}
 			return Lexem( scanner.line());
 		}
@@ -682,9 +682,9 @@ Lexem Lexer::next( Scanner& scanner) const
 					switch (scanner.getIndentToken( m_indentLexems.tabSize))
 					{
 						case Scanner::IndentNone: break;
-						case Scanner::IndentNewLine: return Lexem( m_namelist[ m_indentLexems.newLine-1], m_indentLexems.newLine, ""/*value*/, line);
-						case Scanner::IndentOpen: return Lexem( m_namelist[ m_indentLexems.open-1], m_indentLexems.open, ""/*value*/, line);
-						case Scanner::IndentClose: return Lexem( m_namelist[ m_indentLexems.close-1], m_indentLexems.close, ""/*value*/, line);
+						case Scanner::IndentNewLine: return Lexem( lexemName( m_indentLexems.newLine), m_indentLexems.newLine, ""/*value*/, line);
+						case Scanner::IndentOpen: return Lexem( lexemName( m_indentLexems.open), m_indentLexems.open, ""/*value*/, line);
+						case Scanner::IndentClose: return Lexem( lexemName( m_indentLexems.close), m_indentLexems.close, ""/*value*/, line);
 					}
 				}
 				scanner.next( maxlen);
-- 
2.43.0


From 5096ede0ccde6f8d53404c5e4a9f95aff5b9bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:20 +0000
Subject: [PATCH 43/81] fix: indices in the tables of a loaded automaton were
 used without being checked

---
 src/lua_load_automaton.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 4eadbb1..71437d0 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -404,6 +404,33 @@ static int parseVersion( char const* vstr)
 	return rt;
 }
 
+static void checkAutomatonIndices(
+		const std::map<mewa::Automaton::ActionKey,mewa::Automaton::Action>& actions,
+		const std::map<mewa::Automaton::GotoKey,mewa::Automaton::Goto>& gotos,
+		const std::vector<mewa::Automaton::Call>& calls,
+		const std::vector<std::string>& nonterminals)
+{
+	for (auto const& action : actions)
+	{
+		if (action.second.type() == mewa::Automaton::Action::Shift) continue;
+		if (action.second.type() > mewa::Automaton::Action::Accept || action.second.scopeflag() > mewa::Automaton::Action::Scope
+		||  action.second.nonterminal() < 1 || action.second.nonterminal() > (int)nonterminals.size()
+		||  action.second.call() < 0 || action.second.call() > (int)calls.size())
+		{
+			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable,
+						mewa::string_format( "table 'action', key %d", action.first.packed()));
+		}
+	}
+	for (auto const& gto : gotos)
+	{
+		if (gto.first.nonterminal() < 1 || gto.first.nonterminal() > (int)nonterminals.size())
+		{
+			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable,
+						mewa::string_format( "table 'gto', key %d", gto.first.packed()));
+		}
+	}
+}
+
 mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 {
 	lua_pushvalue( ls, li);
@@ -517,6 +544,7 @@ mewa::Automaton mewa::luaLoadAutomaton( lua_State *ls, int li)
 	{
 		throw mewa::Error( mewa::Error::MissingMewaVersion);
 	}
+	checkAutomatonIndices( actions, gotos, calls, nonterminals);
 	return mewa::Automaton( version, language, typesystem, cmdline, lexer, actions, gotos, calls, nonterminals);
 }
 
-- 
2.43.0


From e1f47fb5f622f88ace49728fae312378d9eb4c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 44/81] fix: long options with the argument separated by space
 were rejected, options were compared beyond the end of the argument

---
 src/mewa.cpp | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index 687aa01..b1655ea 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -154,6 +154,20 @@ static void printAutomaton( const std::string& filename, const std::string& temp
 	}
 }
 
+static bool isOption( const char* arg, const char* shortopt, const char* longopt)
+{
+	std::size_t len = std::strlen( longopt);
+	return 0==std::strncmp( arg, shortopt, 2)
+		|| (0==std::strncmp( arg, longopt, len) && (arg[ len] == '=' || arg[ len] == '\0'));
+}
+
+static int optionArgumentOffset( const char* arg, const char* longopt)
+{
+	if (arg[1] != '-') return 2;
+	int len = std::strlen( longopt);
+	return arg[ len] == '=' ? len+1 : len;
+}
+
 int main( int argc, const char* argv[] )
 {
 	try
@@ -219,7 +233,7 @@ int main( int argc, const char* argv[] )
 				}
 				cmd = GenerateLanguageDescriptionForLua;
 			}
-			else if (0==std::memcmp( argv[argi], "-b", 2) || 0==std::memcmp( argv[argi], "--luabin=", 9))
+			else if (isOption( argv[argi], "-b", "--luabin"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -227,7 +241,7 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi], "--luabin");
 				if (argv[argi][ optofs])
 				{
 					luabin = argv[argi]+optofs;
@@ -244,9 +258,9 @@ int main( int argc, const char* argv[] )
 					luabin = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-o", 2) || 0==std::memcmp( argv[argi], "--output=", 9))
+			else if (isOption( argv[argi], "-o", "--output"))
 			{
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi], "--output");
 				if (argv[argi][ optofs])
 				{
 					outputFilename = argv[argi]+optofs;
@@ -263,7 +277,7 @@ int main( int argc, const char* argv[] )
 					outputFilename = argv[argi];
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-d", 2) || 0==std::memcmp( argv[argi], "--dbgout=", 9))
+			else if (isOption( argv[argi], "-d", "--dbgout"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -271,7 +285,7 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 9:2;
+				int optofs = optionArgumentOffset( argv[argi], "--dbgout");
 				if (argv[argi][ optofs])
 				{
 					debugFilename = argv[argi]+optofs;
@@ -290,7 +304,7 @@ int main( int argc, const char* argv[] )
 					verbose = true;
 				}
 			}
-			else if (0==std::memcmp( argv[argi], "-t", 2) || 0==std::memcmp( argv[argi], "--template=", 11))
+			else if (isOption( argv[argi], "-t", "--template"))
 			{
 				if (cmd == GenerateTypesystemTemplateForLua)
 				{
@@ -298,7 +312,7 @@ int main( int argc, const char* argv[] )
 					printUsage();
 					return ERRCODE_INVALID_ARGUMENTS;
 				}
-				int optofs = (argv[argi][1] == '-') ? 11:2;
+				int optofs = optionArgumentOffset( argv[argi], "--template");
 				if (argv[argi][ optofs])
 				{
 					templat = argv[argi]+optofs;
-- 
2.43.0


From d9761e95faad19f0970338381340e8f747c7ef51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 45/81] fix: options -tFILE and --template=FILE used the file
 name as template instead of the content of the file

---
 src/mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index b1655ea..adf303c 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -315,7 +315,7 @@ int main( int argc, const char* argv[] )
 				int optofs = optionArgumentOffset( argv[argi], "--template");
 				if (argv[argi][ optofs])
 				{
-					templat = argv[argi]+optofs;
+					templat = readFile( argv[argi]+optofs);
 				}
 				else
 				{
-- 
2.43.0


From 5dc66e6977170884fc8babdf085ca23fa1a2b6c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 46/81] fix: failure to write the output to stdout was ignored
 by mewa (exit code 0)

---
 src/mewa.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index adf303c..b358c34 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -24,6 +24,7 @@
 #include <iostream>
 #include <sstream>
 #include <cstring>
+#include <cerrno>
 #include <string>
 #include <vector>
 #include <map>
@@ -140,11 +141,18 @@ static std::string mapTemplate( const std::string& templat, const Automaton& aut
 	return rt;
 }
 
+static void printOutput( const std::string& content)
+{
+	errno = 0;
+	std::cout << content << std::endl;
+	if (!std::cout) throw Error( (Error::Code)(errno ? errno : EIO), "stdout");
+}
+
 static void printAutomaton( const std::string& filename, const std::string& templat, const Automaton& automaton, const std::string& luabin)
 {
 	if (filename.empty())
 	{
-		std::cout << mapTemplate( templat, automaton, luabin) << std::endl;
+		printOutput( mapTemplate( templat, automaton, luabin));
 	}
 	else
 	{
@@ -453,7 +461,7 @@ int main( int argc, const char* argv[] )
 			case GenerateTypesystemTemplateForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printOutput( output);
 				}
 				else
 				{
@@ -463,7 +471,7 @@ int main( int argc, const char* argv[] )
 			case GenerateLanguageDescriptionForLua:
 				if (outputFilename.empty())
 				{
-					std::cout << output << std::endl;
+					printOutput( output);
 				}
 				else
 				{
@@ -476,17 +484,17 @@ int main( int argc, const char* argv[] )
 	catch (const mewa::Error& err)
 	{
 		std::cerr << "ERR " << err.what() << std::endl;
-		return (int)err.code() < 128 ? (int)err.code() /*errno*/ : ERRCODE_RUNTIME_ERROR;
-	}
-	catch (const std::runtime_error& err)
-	{
-		std::cerr << "ERR runtime " << err.what() << std::endl;
-		return ERRCODE_RUNTIME_ERROR;
+		return (int)err.code() > 0 && (int)err.code() < 128 ? (int)err.code() /*errno*/ : ERRCODE_RUNTIME_ERROR;
 	}
 	catch (const std::bad_alloc&)
 	{
 		std::cerr << "ERR out of memory" << std::endl;
 		return ERRCODE_MEMORY_ALLOCATION;
 	}
+	catch (const std::exception& err)
+	{
+		std::cerr << "ERR runtime " << err.what() << std::endl;
+		return ERRCODE_RUNTIME_ERROR;
+	}
 	return 0;
 }
-- 
2.43.0


From 1f0ae51a6ecb302b4660289a9a45246afa4f7415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:11 +0000
Subject: [PATCH 47/81] fix: strings of the grammar with quotes made the
 printing of the language definition loop endlessly and the generated Lua
 invalid

---
 src/automaton_tostring.cpp   | 18 +++++++---
 src/languagedef_tostring.cpp | 66 ++++++++++++++++--------------------
 src/languagedef_tostring.hpp |  4 +++
 3 files changed, 46 insertions(+), 42 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index 9ee3cc7..f4ab0a2 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -46,7 +46,8 @@ static void printStringArray( std::ostream& outstream, const char* tablename, co
 		const char* shft = ((tidx & 3) == 0) ? "\n\t\t" : " ";
 		++tidx;
 
-		outstream << sepc << shft << "\"" << element << "\"";
+		outstream << sepc << shft;
+		printString( outstream, element);
 	}
 	outstream << (sep ? "},\n" : "}\n");
 }
@@ -153,7 +154,8 @@ static void printCallTable( std::ostream& outstream, const char* tablename, cons
 				outstream << "name=";
 				printString( outstream, call.function() + " " + call.arg());
 				outstream << ", proc=" << g_typeSystemModulePrefix << call.function();
-				outstream << ", obj=\"" << call.arg() << "\"";
+				outstream << ", obj=";
+				printStringLiteral( outstream, call.arg());
 				break;
 			case Automaton::Call::ReferenceArg:
 				outstream << "name=";
@@ -182,15 +184,21 @@ std::string Automaton::tostring() const
 	outstream << "\tmewa = \"" << MEWA_VERSION_STRING << "\",\n";
 	if (!language().empty())
 	{
-		outstream << "\tlanguage = \"" << language() << "\",\n";
+		outstream << "\tlanguage = ";
+		printStringLiteral( outstream, language());
+		outstream << ",\n";
 	}
 	if (!typesystem().empty())
 	{
-		outstream << "\ttypesystem = \"" << typesystem() << "\",\n";
+		outstream << "\ttypesystem = ";
+		printStringLiteral( outstream, typesystem());
+		outstream << ",\n";
 	}
 	if (!cmdline().empty())
 	{
-		outstream << "\tcmdline = \"" << cmdline() << "\",\n";
+		outstream << "\tcmdline = ";
+		printStringLiteral( outstream, cmdline());
+		outstream << ",\n";
 	}
 	printLexer( outstream, "lexer", lexer(), true/*sep*/);
 	printStringArray( outstream, "nonterminal", m_nonterminals, true/*sep*/);
diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 50904dc..39456ab 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -14,19 +14,21 @@
 
 using namespace mewa;
 
-static std::string escapeString( const std::string& str)
+static std::string escapeString( const std::string& str, char quote)
 {
 	std::string rt;
-	char const* si = str.c_str();
-	for (; *si; ++si)
+	for (char ch : str)
 	{
-		if (*si == '\\')
+		switch (ch)
 		{
-			rt.append( "\\\\");
-		}
-		else
-		{
-			rt.push_back( *si);
+			case '\n': rt.append( "\\n"); break;
+			case '\r': rt.append( "\\r"); break;
+			case '\0': rt.append( "\\000"); break;
+			case '\\': rt.append( "\\\\"); break;
+			default:
+				if (ch == quote) rt.push_back( '\\');
+				rt.push_back( ch);
+				break;
 		}
 	}
 	return rt;
@@ -34,38 +36,28 @@ static std::string escapeString( const std::string& str)
 
 void mewa::printString( std::ostream& outstream, const std::string& str)
 {
-	char const* sqpos = std::strchr( str.c_str(), '\'');
-	char const* dqpos = std::strchr( str.c_str(), '\"');
-	if (sqpos && dqpos)
+	bool hasSingleQuotes = str.find( '\'') != std::string::npos;
+	bool hasDoubleQuotes = str.find( '\"') != std::string::npos;
+	char quote = (hasDoubleQuotes && !hasSingleQuotes) ? '\'' : '\"';
+	outstream << quote << escapeString( str, quote) << quote;
+}
+
+void mewa::printStringLiteral( std::ostream& outstream, const std::string& literal)
+{
+	outstream << '\"';
+	for (char const* si = literal.c_str(); *si; ++si)
 	{
-		sqpos = 0;
-		dqpos = 0;
-		char const* si = str.c_str();
-		for (; si; ++si)
+		if (*si == '\\' && si[1])
 		{
-			if (*si == '\\')
-			{
-				++si;
-			}
-			else if (*si == '\'')
-			{
-				sqpos = si;
-			}
-			else if (*si == '\"')
-			{
-				dqpos = si;
-			}
+			outstream << *si++;
 		}
+		else if (*si == '\"')
+		{
+			outstream << '\\';
+		}
+		outstream << *si;
 	}
-	if (dqpos)
-	{
-		if (sqpos) throw Error( Error::EscapeQuoteErrorInString, str);
-		outstream << "\'" << escapeString( str) << "\'";
-	}
-	else
-	{
-		outstream << "\"" << escapeString( str) << "\"";
-	}
+	outstream << '\"';
 }
 
 static void printArgument( std::ostream& outstream, const char* type, const std::vector<std::string>& args)
diff --git a/src/languagedef_tostring.hpp b/src/languagedef_tostring.hpp
index 8fac9ad..bd45803 100644
--- a/src/languagedef_tostring.hpp
+++ b/src/languagedef_tostring.hpp
@@ -21,8 +21,12 @@
 
 namespace mewa {
 
+/// \brief Print a string as Lua string
 void printString( std::ostream& outstream, const std::string& str);
 
+/// \brief Print the content of a string literal (with its escapes, but without quotes) of the grammar as Lua string
+void printStringLiteral( std::ostream& outstream, const std::string& literal);
+
 std::string printLuaLanguageDefinition( const LanguageDef& langdef, const LanguageDecoratorMap& decoratormap);
 
 }//namespace
-- 
2.43.0


From 4c4a077404c736afa5fb0c5d3c330143cd10cf79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:11 +0000
Subject: [PATCH 48/81] fix: printing the language definition of a grammar with
 block comments looped endlessly or skipped characters

---
 src/automaton_parser.cpp | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index da02090..648cb20 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -17,6 +17,8 @@
 #include <map>
 #include <algorithm>
 #include <type_traits>
+#include <cstring>
+#include <climits>
 
 using namespace mewa;
 
@@ -757,6 +759,7 @@ static std::vector<std::string> splitLines( char const* str, std::size_t sz)
 			--nn;
 		}
 		rt.emplace_back( start, nn);
+		if (str < end) ++str; //... skip end of line
 	}
 	while (!rt.empty() && rt.back().empty())
 	{
@@ -815,39 +818,30 @@ LanguageDecoratorMap mewa::parseLanguageDecoratorMap( const std::string& source)
 	Lexem lexem( 1/*line*/);
 	std::vector<std::string> comment;
 	std::vector<LanguageDecorator> decorators;
-	std::size_t symlen = 0;
 	int line = 0;
 	char const* start = scanner.next();
-	for (; *start; start = scanner.next( symlen))
+	for (; *start; start = scanner.next())
 	{
 		comment.clear();
 		if (start[0] == '#' || (start[0] == '/' && start[1] == '/'))
 		{
 			line = scanner.line();
 			start += start[0] == '#' ? 1:2;
-			if (scanner.scan( "\n"))
-			{
-				comment.emplace_back( start, scanner.current() - start - 1);
-			}
-			else
-			{
-				comment.emplace_back( start);
-			}
-			symlen = 0;
+			char const* end = skipEoln( start, source.c_str() + source.size());
+			comment = splitLines( start, end - start);
+			scanner.next( end - scanner.current());
 		}
 		else if (start[0] == '/' && start[1] == '*')
 		{
 			line = scanner.line();
 			start += 2;
-			if (scanner.scan( "*/"))
-			{
-				comment = splitLines( start, scanner.current() - start);
-			}
-			else
+			char const* end = std::strstr( start, "*/");
+			if (!end)
 			{
 				throw Error( Error::UnexpectedEofInGrammarDef);
 			}
-			symlen = 1;
+			comment = splitLines( start, end - start);
+			scanner.next( end + 2 - scanner.current());
 		}
 		else
 		{
-- 
2.43.0


From 8d29b5b3e89caee3f52722a8c4a4b07b3b7843f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 49/81] fix: integer overflow and narrowing of numbers in the
 grammar (priority 65537 was accepted as 1)

---
 src/automaton_parser.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 648cb20..819bff0 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -95,8 +95,8 @@ static int convertStringToInt( const std::string_view& str)
 		char ch = str[ si];
 		if (ch >= '0' && ch <= '9')
 		{
+			if (rt > (INT_MAX - (ch - '0')) / 10) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 			rt = rt * 10 + (ch - '0');
-			if (rt < 0) throw Error( Error::ValueOutOfRangeInGrammarDef, str);
 		}
 		else
 		{
@@ -106,6 +106,16 @@ static int convertStringToInt( const std::string_view& str)
 	return rt;
 }
 
+static int convertStringToPriorityValue( const std::string_view& str)
+{
+	int rt = convertStringToInt( str);
+	if (rt >= Automaton::MaxPriority)
+	{
+		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+	}
+	return rt;
+}
+
 static Priority convertStringToPriority( const std::string_view& str)
 {
 	Priority rt;
@@ -116,20 +126,16 @@ static Priority convertStringToPriority( const std::string_view& str)
 	if (str[0] == 'L' || str[0] == 'R')
 	{
 		Assoziativity assoz = str[0] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToInt( str.substr( 1, str.size()-1)), assoz);
+		rt = (str.size() == 1) ? Priority( 0, assoz) : Priority( convertStringToPriorityValue( str.substr( 1, str.size()-1)), assoz);
 	}
 	else if (str[str.size()-1] == 'L' || str[str.size()-1] == 'R')
 	{
 		Assoziativity assoz = str[str.size()-1] == 'L' ? Assoziativity::Left : Assoziativity::Right;
-		rt = Priority( convertStringToInt( str.substr( 0, str.size()-1)), assoz);
+		rt = Priority( convertStringToPriorityValue( str.substr( 0, str.size()-1)), assoz);
 	}
 	else
 	{
-		rt = Priority( convertStringToInt( str));
-	}
-	if (rt.value >= Automaton::MaxPriority)
-	{
-		throw Error( Error::ComplexityMaxProductionPriorityInGrammarDef, str);
+		rt = Priority( convertStringToPriorityValue( str));
 	}
 	return rt;
 }
-- 
2.43.0


From 7a1562ba3bfe5b3de87bdcad1d732f28011b1094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 50/81] fix: copy assignment of a FlatSet appended to the old
 content

---
 src/automaton_structs.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/automaton_structs.hpp b/src/automaton_structs.hpp
index a059dab..402049a 100644
--- a/src/automaton_structs.hpp
+++ b/src/automaton_structs.hpp
@@ -323,7 +323,9 @@ public:
 	FlatSet( FlatSet<TYPE>&& o) noexcept
 		:std::vector<TYPE>(std::move(o)){}
 	FlatSet& operator=( const FlatSet<TYPE>& o)
-		{std::vector<TYPE>::reserve( reserveSize( o.size()));
+		{if (this == &o) return *this;
+		 std::vector<TYPE>::clear();
+		 std::vector<TYPE>::reserve( reserveSize( o.size()));
 		 std::vector<TYPE>::insert( std::vector<TYPE>::end(), o.begin(), o.end()); return *this;}
 	FlatSet& operator=( FlatSet<TYPE>&& o) noexcept
 		{std::vector<TYPE>::operator=(std::move(o)); return *this;}
-- 
2.43.0


From f0b579cad30c40d281728ea9a0829499492dc24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 51/81] fix: truncated debug string of an action contained a
 null byte

---
 src/automaton.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index ad66cd4..9fc9c30 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1247,7 +1247,7 @@ std::string Automaton::actionString( const Action& action) const
 		case Automaton::Action::Accept:
 			len = std::snprintf( buf, sizeof( buf), "%s", "Accept");
 	}
-	if (len >= sizeof(buf)) len = sizeof(buf);
+	if (len >= sizeof(buf)) len = sizeof(buf)-1;
 	return std::string( buf, len);
 }
 
-- 
2.43.0


From 6e37096cce93fb983c19c183edad96fe60d3d187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:35 +0000
Subject: [PATCH 52/81] fix: building an automaton twice mixed the tables of
 both

---
 src/automaton.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/automaton.cpp b/src/automaton.cpp
index 9fc9c30..d830a8c 100644
--- a/src/automaton.cpp
+++ b/src/automaton.cpp
@@ -1330,6 +1330,8 @@ void Automaton::build( const std::string& source, std::vector<Error>& warnings,
 	}
 
 	// [4] Build the LALR(1) automaton:
+	m_actions.clear();
+	m_gotos.clear();
 	std::map<ActionKey,Priority> priorityMap;
 	int nofAcceptStates = 0;
 	SolvedConflictMap solvedConflictMap;
-- 
2.43.0


From 30235d0724becf9267b807f1db5a32ae1db5866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 53/81] fix: operator | of TagMask lost the tags of the left
 operand

---
 src/scope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index 611430a..bc825ed 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -775,7 +775,7 @@ public:
 	}
 	TagMask operator | (int tag_) const
 	{
-		TagMask rt;
+		TagMask rt( *this);
 		rt.add( tag_);
 		return rt;
 	}
-- 
2.43.0


From a47026da287c336f986eeabca47f8dfead2c4266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:14 +0000
Subject: [PATCH 54/81] fix: defining something in an empty scope iterated
 beyond the end of the scope map

---
 src/scope.hpp | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/scope.hpp b/src/scope.hpp
index bc825ed..8584da9 100644
--- a/src/scope.hpp
+++ b/src/scope.hpp
@@ -444,8 +444,7 @@ public:
 		if (newindex >= 0)
 		{
 			auto leftnode = m_map.upper_bound( scope.start());
-			if (leftnode == m_map.end()) throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-			for (; leftnode->first != scope.end(); ++leftnode)
+			for (; leftnode != m_map.end() && leftnode->first < scope.end(); ++leftnode)
 			{
 				m_invtree.linkLeftNeighbours( leftnode->second, scope, newindex);
 			}
@@ -626,11 +625,7 @@ public:
 		if (newindex >= 0)
 		{
 			auto leftnode = m_map.upper_bound( {key,scope.start()} );
-			if (leftnode == m_map.end() || leftnode->first.key() != key)
-			{
-				throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-			}
-			for (; leftnode->first.end() != scope.end(); ++leftnode)
+			for (; leftnode != m_map.end() && leftnode->first < sk; ++leftnode)
 			{
 				m_invtree.linkLeftNeighbours( leftnode->second, scope, newindex);
 			}
@@ -660,11 +655,7 @@ public:
 		if (newindex >= 0)
 		{
 			auto leftnode = m_map.upper_bound( {key,scope.start()});
-			if (leftnode == m_map.end() || leftnode->first.key() != key)
-			{
-				throw Error( Error::LogicError, string_format( "%s line %d", __FILE__, (int)__LINE__));
-			}
-			for (; leftnode->first.end() != scope.end(); ++leftnode)
+			for (; leftnode != m_map.end() && leftnode->first < sk; ++leftnode)
 			{
 				m_invtree.linkLeftNeighbours( leftnode->second, scope, newindex);
 			}
-- 
2.43.0


From 1c7b24caff8af63158d962a2bfbfd71d8891b531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:32 +0000
Subject: [PATCH 55/81] fix: identifiers with more than 65535 bytes were
 truncated or led to a heap overflow

---
 src/identmap.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/identmap.hpp b/src/identmap.hpp
index 4d77000..ef8f27a 100644
--- a/src/identmap.hpp
+++ b/src/identmap.hpp
@@ -20,22 +20,24 @@
 #include <cstring>
 #include <cstdint>
 #include <string_view>
+#include <new>
 
 namespace mewa {
 
 struct IdentKey
 {
-	unsigned short size;
+	std::uint32_t size;
 	char buf[1];
 
 	static const IdentKey* create( std::pmr::memory_resource* memrsc, const std::string_view& src)
 	{
-		constexpr unsigned short maxsize = std::numeric_limits<unsigned short>::max()-4;
-		unsigned short strsize = src.size() > maxsize ? maxsize : src.size();
+		constexpr std::size_t maxsize = std::numeric_limits<std::int32_t>::max()-16;
+		if (src.size() > maxsize) throw std::bad_alloc();
+		std::size_t strsize = src.size();
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + strsize + 1;
+		std::size_t blksize = offs_buf + strsize + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
-		unsigned short restsize = blksize - strsize - offs_buf;
+		std::size_t restsize = blksize - strsize - offs_buf;
 		IdentKey* rt = (IdentKey*)memrsc->allocate( blksize, 4/*align*/);
 		rt->size = strsize;
 		std::memcpy( rt->buf, src.data(), strsize);
@@ -50,7 +52,7 @@ struct IdentKey
 	int alignedsize() const noexcept
 	{
 		ptrdiff_t offs_buf = reinterpret_cast<const char*>(&((const IdentKey*)nullptr)->buf) - (const char*)nullptr;
-		unsigned short blksize = offs_buf + size + 1;
+		std::size_t blksize = offs_buf + size + 1;
 		blksize += (4 - (blksize & 3)) & 3; //... align size of of key to 0 mod sizeof(uint32_t)
 		return blksize / 4;
 	}
-- 
2.43.0


From 3a52806b44d6e40d5cf77a18d8c061102e3b559f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:35 +0000
Subject: [PATCH 56/81] fix: memory allocated from upstream was never freed,
 allocations ignored the alignment of the buffer, failed allocation of the
 buffer was ignored

---
 src/memory_resource.hpp | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/memory_resource.hpp b/src/memory_resource.hpp
index 24ac975..49c63df 100644
--- a/src/memory_resource.hpp
+++ b/src/memory_resource.hpp
@@ -14,6 +14,8 @@
 #if __cplusplus >= 201703L
 #include <memory_resource>
 #include <cstddef>
+#include <cstdint>
+#include <cstdlib>
 #include <new>
 
 namespace mewa {
@@ -61,6 +63,7 @@ public:
 	{
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
+		if (!m_ownership_baseptr) m_size = 0;
 	}
 	explicit monotonic_buffer_resource( std::size_t initsize)
 		:m_baseptr(nullptr),m_index(0),m_size(initsize),m_upstream(nullptr),m_ownership_upstream(false),m_ownership_baseptr(true)
@@ -68,9 +71,17 @@ public:
 		init_new_upstream();
 		m_baseptr = (char*)std::malloc( m_size);
 		m_ownership_baseptr = m_baseptr != nullptr;
+		if (!m_ownership_baseptr) m_size = 0;
 	}
 	~monotonic_buffer_resource()
 	{
+		while (m_upstreamBlocks)
+		{
+			UpstreamBlock* block = m_upstreamBlocks;
+			m_upstreamBlocks = block->next;
+			m_upstream->deallocate( block->ptr, block->size, block->alignment);
+			delete block;
+		}
 		if (m_ownership_baseptr) std::free( m_baseptr);
 		if (m_ownership_upstream) delete m_upstream;
 	}
@@ -126,7 +137,7 @@ private:
 	void skip_align( size_t alignment_)
 	{
 		if (!isPowerOfTwo( alignment_)) throw std::bad_alloc();
-		size_t rest = m_index & (alignment_-1);
+		size_t rest = ((std::uintptr_t)m_baseptr + m_index) & (alignment_-1);
 		if (rest != 0)
 		{
 			m_index += (alignment_ - rest);
@@ -136,15 +147,34 @@ private:
 	void* allocate_( size_t __bytes, size_t __alignment)
 	{
 		skip_align( __alignment);
-		if (m_index + __bytes > m_size)
+		if (m_index > m_size || __bytes > m_size - m_index)
 		{
-			return m_upstream->allocate( __bytes, __alignment);
+			UpstreamBlock* block = new UpstreamBlock{ nullptr, __bytes, __alignment, m_upstreamBlocks};
+			try
+			{
+				block->ptr = m_upstream->allocate( __bytes, __alignment);
+			}
+			catch (...)
+			{
+				delete block;
+				throw;
+			}
+			m_upstreamBlocks = block;
+			return block->ptr;
 		}
 		void* rt = m_baseptr + m_index;
 		m_index += __bytes;
 		return rt;
 	}
 
+private:
+	struct UpstreamBlock
+	{
+		void* ptr;
+		std::size_t size;
+		std::size_t alignment;
+		UpstreamBlock* next;
+	};
 private:
 	char* m_baseptr;
 	std::size_t m_index;
@@ -152,6 +182,7 @@ private:
 	std::pmr::memory_resource* m_upstream;
 	bool m_ownership_upstream;
 	bool m_ownership_baseptr;
+	UpstreamBlock* m_upstreamBlocks = nullptr;	//< list of blocks allocated from upstream to free in the destructor
 };
 
 }//namespace
-- 
2.43.0


From 0a369bc25d06e367f1879c4b6ca3e8b5db9722a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:58 +0000
Subject: [PATCH 57/81] fix: restoring the print functions ignored the result
 of lua_checkstack

---
 src/lualib_mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 40e7ab2..32b511e 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -418,7 +418,7 @@ static void copyFileNameToBuffer( char* buf, std::size_t bufsize, std::string_vi
 /// \param[in] saved_index Lua stack index of the table _G followed by the functions saved
 static void restorePrintFunctions( lua_State* ls, int saved_index)
 {
-	lua_checkstack( ls, 1);
+	lua_settop( ls, saved_index + 3);	// ... drop what an aborted run left on the stack, there is a place for one element then
 	lua_pushvalue( ls, saved_index + 1);
 	lua_setfield( ls, saved_index, "print");
 	lua_pushvalue( ls, saved_index + 2);
-- 
2.43.0


From 4a6b2f4f393e5a8f508efec14cdbf498bce3e14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 58/81] fix: output with null bytes was cut when written to
 stdout or stderr

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 32b511e..f0151af 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -494,11 +494,12 @@ static int mewa_compiler_run( lua_State* ls)
 			std::string output = mewa::template_format( targetptr, '{', '}', cp->outputSectionMap);
 			if (outputfn == "stderr")
 			{
-				if (0 > std::fputs( output.c_str(), ::stderr)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
+				if (output.size() != std::fwrite( output.data(), 1, output.size(), ::stderr)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
 			}
 			else if (outputfn == "stdout")
 			{
-				if (0 > std::puts( output.c_str()) || 0 != std::fflush( ::stdout)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
+				output.push_back( '\n');
+				if (output.size() != std::fwrite( output.data(), 1, output.size(), ::stdout) || 0 != std::fflush( ::stdout)) throw mewa::Error( (mewa::Error::Code) errno, outputfn);
 			}
 			else
 			{
-- 
2.43.0


From d66d42a5e76e992b004d90561a34c9d38e3e29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:38 +0000
Subject: [PATCH 59/81] fix: failure to print the version was ignored by mewa
 (exit code 0)

---
 src/mewa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mewa.cpp b/src/mewa.cpp
index b358c34..689c3af 100644
--- a/src/mewa.cpp
+++ b/src/mewa.cpp
@@ -203,7 +203,7 @@ int main( int argc, const char* argv[] )
 			}
 			else if (0==std::strcmp( argv[argi], "-v") || 0==std::strcmp( argv[argi], "--version"))
 			{
-				std::cout << "mewa version " << MEWA_VERSION_STRING << std::endl;
+				printOutput( "mewa version " MEWA_VERSION_STRING);
 				return 0;
 			}
 			else if (0==std::strcmp( argv[argi], "-h") || 0==std::strcmp( argv[argi], "--help"))
-- 
2.43.0


From 73d55fe328b909e7941b91d9bbf8a6bf8bcd5641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:40 +0000
Subject: [PATCH 60/81] fix: operator >> of productions without function did
 not increment the scope step

---
 src/lua_run_compiler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lua_run_compiler.cpp b/src/lua_run_compiler.cpp
index 5b76c64..b73b811 100644
--- a/src/lua_run_compiler.cpp
+++ b/src/lua_run_compiler.cpp
@@ -464,6 +464,7 @@ static bool feedLexem( lua_State* ls, CompilerContext& ctx, const mewa::Automato
 			else
 			{
 				luaStackNofElements = getLuaStackReductionSize( ctx.stateStack, reductionSize);
+				if (nexti->second.scopeflag() == mewa::Automaton::Action::Step) ctx.scopestep += 1;
 			}
 			ctx.stateStack.resize( ctx.stateStack.size() - reductionSize);
 
-- 
2.43.0


From dd586811e3507c23f6a88c7eb3158ed369021b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:23 +0000
Subject: [PATCH 61/81] fix: recursive compiler:run and compiler:__gc from a
 node function of a run destroyed the state of the run in progress

---
 src/lua_userdata.hpp |  2 ++
 src/lualib_mewa.cpp  | 15 +++++++++++++++
 2 files changed, 17 insertions(+)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index be75127..10d4682 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -68,6 +68,7 @@ struct mewa_compiler_userdata_t
 	mewa::Automaton automaton;
 	mewa::lua::CallTableName callTableName;
 	FILE* debugFileHandle;
+	bool running;		//< true while compiler:run is executing on this object
 	typedef std::string OutputBuffer;
 	std::string outputBuffer;
 	typedef std::map<std::string,std::string> OutputSectionMap;
@@ -76,6 +77,7 @@ struct mewa_compiler_userdata_t
 	void init()
 	{
 		debugFileHandle = nullptr;
+		running = false;
 		new (&automaton) mewa::Automaton();
 		new (&outputBuffer) OutputBuffer();
 		new (&outputSectionMap) OutputSectionMap();
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index f0151af..80bcc49 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -368,6 +368,12 @@ static int mewa_new_compiler( lua_State* ls)
 	return 1;
 }
 
+/// \brief Refuse a call that would pull the rug out from under a compiler:run in progress on the same object (a recursive run or the finalizer called by a node function)
+static void checkCompilerNotRunning( const char* functionName, const mewa_compiler_userdata_t* cp)
+{
+	if (cp->running) throw mewa::Error( mewa::Error::LogicError, mewa::string_format( "%s called during a run of the same compiler", functionName));
+}
+
 static int mewa_destroy_compiler( lua_State* ls)
 {
 	[[maybe_unused]] static const char* functionName = "compiler:__gc";
@@ -376,6 +382,7 @@ static int mewa_destroy_compiler( lua_State* ls)
 	try
 	{
 		mewa::lua::checkNofArguments( functionName, ls, 1/*minNofArgs*/, 1/*maxNofArgs*/);
+		checkCompilerNotRunning( functionName, cp);
 	}
 	catch (...) { lippincottFunction( ls); }
 
@@ -433,6 +440,11 @@ static int mewa_compiler_run( lua_State* ls)
 	mewa_compiler_userdata_t* cp = (mewa_compiler_userdata_t*)luaL_checkudata( ls, 1, mewa_compiler_userdata_t::metatableName());
 	int saved_index = 0;	//... Lua stack index of the table _G with the saved print functions following, 0 if not redirected yet
 	try
+	{
+		checkCompilerNotRunning( "compiler:run", cp);
+	}
+	catch (...) { lippincottFunction( ls); }
+	try
 	{
 		int nargs = mewa::lua::checkNofArguments( functionName, ls, 4/*minNofArgs*/, 6/*maxNofArgs*/);
 		mewa::lua::checkStack( functionName, ls, 16);
@@ -483,7 +495,9 @@ static int mewa_compiler_run( lua_State* ls)
 		luaL_setfuncs( ls, g_printlib, 1/*number of closure elements*/);
 		lua_pop( ls, 1);
 
+		cp->running = true;
 		mewa::luaRunCompiler( ls, cp->automaton, options_index, sourceptr, cp->callTableName.buf, cp->debugFileHandle);
+		cp->running = false;
 		{
 			std::string triple = mewa::fileBaseName( targetfn);
 
@@ -524,6 +538,7 @@ static int mewa_compiler_run( lua_State* ls)
 	}
 	catch (...)
 	{
+		cp->running = false;
 		if (saved_index) restorePrintFunctions( ls, saved_index);
 		cp->closeOutput();
 		lippincottFunction( ls);
-- 
2.43.0


From 026c9a25ab081e44e6ce92786090568aea98371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:58 +0000
Subject: [PATCH 62/81] fix: counters shared by all Lua states were not atomic,
 a data race for compilers used in different threads

---
 src/lua_userdata.hpp | 4 +++-
 src/lualib_mewa.cpp  | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lua_userdata.hpp b/src/lua_userdata.hpp
index 10d4682..b7f4435 100644
--- a/src/lua_userdata.hpp
+++ b/src/lua_userdata.hpp
@@ -20,6 +20,8 @@
 #include <string>
 #include <string_view>
 #include <cstdio>
+#include <cstring>
+#include <atomic>
 extern "C" {
 #include <lua.h>
 #include <lauxlib.h>
@@ -56,7 +58,7 @@ struct CallTableName :public TableName
 {
 	void init()
 	{
-		static int tableIdx = 0;
+		static std::atomic<int> tableIdx( 0);
 		TableName::init( MEWA_COMPILER_METATABLE_NAME, MEWA_CALLTABLE_FMT, ++tableIdx);
 	}
 };
diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index 80bcc49..ee5932c 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -36,10 +36,11 @@
 #include <iostream>
 #include <fstream>
 #include <limits>
+#include <atomic>
 #include <inttypes.h>
 
-static int g_called_deprecated_get_type = 0;	//< Counter for calls of deprecated function typedb:get_type
-static int g_called_deprecated_get_types = 0;	//< Counter for calls of deprecated function typedb:get_types
+static std::atomic<int> g_called_deprecated_get_type( 0);	//< Counter for calls of deprecated function typedb:get_type
+static std::atomic<int> g_called_deprecated_get_types( 0);	//< Counter for calls of deprecated function typedb:get_types
 
 extern "C" {
 #include <lua.h>
-- 
2.43.0


From a99703a45342e32bde60d7ece2b5df8fd1d29f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:13 +0000
Subject: [PATCH 63/81] fix: argumentIsArray tested the value at index 2
 instead of the argument it was given

---
 src/lua_parameter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index ae029a6..adc00fb 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -64,7 +64,7 @@ void mewa::lua::throwArgumentError( const char* functionName, int li, mewa::Erro
 bool mewa::lua::argumentIsArray( lua_State* ls, int li)
 {
 	bool rt = false;
-	if (lua_type( ls, 2) == LUA_TTABLE)
+	if (lua_type( ls, li) == LUA_TTABLE)
 	{
 		lua_pushvalue( ls, li);
 		lua_pushnil( ls);
-- 
2.43.0


From e23203e598310d447b649bb827f04614b13815df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 64/81] fix: lua_isinteger of the Lua 5.2 compatibility header
 accepted numbers out of the integer range

---
 src/lua_5_2.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lua_5_2.hpp b/src/lua_5_2.hpp
index aa1a912..8e34029 100644
--- a/src/lua_5_2.hpp
+++ b/src/lua_5_2.hpp
@@ -2,6 +2,7 @@
  * Some functions that ensure compatibility with Lua 5.1, 5.2
 */
 #include <cmath>
+#include <limits>
 extern "C" {
 #include <lua.h>
 #include <lauxlib.h>
@@ -13,7 +14,8 @@ static bool lua_isinteger( lua_State *ls, int li)
 	int tp = lua_type( ls, li);
 	if (tp != LUA_TNUMBER) return false;
 	double val = lua_tonumber( ls, li);
-	double fl = val - floor( val);
+	if (!(val >= -9223372036854775808.0 && val < 9223372036854775808.0)) return false;
+	double fl = val - std::floor( val);
 	return (fl < 10*std::numeric_limits<double>::epsilon());
 }
 #endif
-- 
2.43.0


From ec7918a355e0cde7b4fa5b09644740e3cc6f21e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 65/81] fix: integer arguments were rounded towards zero,
 truncated to int or taken from infinity

---
 src/lua_parameter.cpp | 42 ++++++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index adc00fb..ab561cd 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -101,21 +101,31 @@ const char* mewa::lua::getArgumentAsCString( const char* functionName, lua_State
 	return lua_tostring( ls, li);
 }
 
+/// \brief Get a Lua number as integer
+/// \return true if the value is a number without fractional part in the range passed, false otherwise
+static bool getNumberAsInteger( lua_State* ls, int li, double minval, double maxval, long& result)
+{
+	if (lua_type( ls, li) != LUA_TNUMBER) return false;
+	double val = lua_tonumber( ls, li);
+	double fl = std::floor( val);
+	if (!(val - fl < std::numeric_limits<double>::epsilon()*4)) return false;
+	if (fl < minval || fl > maxval) return false;
+	result = (long)fl;
+	return true;
+}
+
 long mewa::lua::getArgumentAsInteger( const char* functionName, lua_State* ls, int li, mewa::Error::Code ec)
 {
 	if (!mewa::lua::isArgumentType( functionName, ls, li, (1 << LUA_TNUMBER)))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
-	double val = lua_tonumber( ls, li);
-	if (val - std::floor( val) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (long)(val + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
+	long rt;
+	if (!getNumberAsInteger( ls, li, std::numeric_limits<int>::min(), std::numeric_limits<int>::max(), rt))
 	{
 		mewa::lua::throwArgumentError( functionName, li, ec);
 	}
+	return rt;
 }
 
 long mewa::lua::getArgumentAsUnsignedInteger( const char* functionName, lua_State* ls, int li)
@@ -160,16 +170,8 @@ void mewa::lua::checkArgumentAsTable( const char* functionName, lua_State* ls, i
 
 static int getTableIndex( lua_State* ls, int li)
 {
-	double kk = lua_tonumber( ls, li);
-	if (kk < 1 || kk > std::numeric_limits<int>::max()) return 0;
-	if (kk - std::floor( kk) < std::numeric_limits<double>::epsilon()*4)
-	{
-		return (int)(kk + std::numeric_limits<double>::epsilon()*4);
-	}
-	else
-	{
-		return 0;
-	}
+	long kk;
+	return getNumberAsInteger( ls, li, 1, std::numeric_limits<int>::max(), kk) ? (int)kk : 0;
 }
 
 mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State* ls, int li)
@@ -218,8 +220,12 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 
 mewa::TagMask mewa::lua::getArgumentAsTagMask( const char* functionName, lua_State* ls, int li)
 {
-	mewa::TagMask::BitSet bs = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, li);
-	return mewa::TagMask( bs);
+	long bs;
+	if (!getNumberAsInteger( ls, li, 0, std::numeric_limits<mewa::TagMask::BitSet>::max(), bs))
+	{
+		mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedNonNegativeIntegerArgument);
+	}
+	return mewa::TagMask( (mewa::TagMask::BitSet)bs);
 }
 
 int mewa::lua::getArgumentAsConstructor( const char* functionName, lua_State* ls, int li)
-- 
2.43.0


From 297292d5cace777f2f1464c65088ea469ac0a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 66/81] fix: scope arguments accepted fractions and numbers out
 of the range of int

---
 src/lua_parameter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index ab561cd..ca9d863 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -189,11 +189,11 @@ mewa::Scope mewa::lua::getArgumentAsScope( const char* functionName, lua_State*
 			int kidx = getTableIndex( ls, -2);
 			if (kidx == 1)
 			{
-				start = lua_tointeger( ls, -1);
+				start = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure);
 			}
 			else if (kidx == 2)
 			{
-				end = lua_tointeger( ls, -1);
+				end = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentScopeStructure);
 				if (end < 0)
 				{
 					end = std::numeric_limits<Scope::Step>::max() + end + 1;
-- 
2.43.0


From 0415c1f3dba9df3af4ef636a7fcda913763cabaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 67/81] fix: types in tables accepted fractions, other values
 than numbers and numbers out of the range of int

---
 src/lua_parameter.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lua_parameter.cpp b/src/lua_parameter.cpp
index ca9d863..bd2b5bf 100644
--- a/src/lua_parameter.cpp
+++ b/src/lua_parameter.cpp
@@ -260,7 +260,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				int kidx = getTableIndex( ls, -2);
 				if (kidx == 1)
 				{
-					type = lua_tointeger( ls, -1);
+					type = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (kidx == 2)
 				{
@@ -278,7 +278,7 @@ static mewa::TypeDatabase::TypeConstructorPair getArgumentAsTypeConstructorPair(
 				char const* str = lua_tolstring( ls, -2, &len);
 				if (len == 4 && 0==std::memcmp( str, "type", len))
 				{
-					type = lua_tointeger( ls, -1);
+					type = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentTypeConstructorPairList);
 				}
 				else if (len == 11 && 0==std::memcmp( str, "constructor", len))
 				{
@@ -377,7 +377,7 @@ int mewa::lua::getArgumentAsType( const char* functionName, lua_State* ls, int l
 		lua_rawget( ls, li > 0 ? li : (li-1));		// STK: [ARG] [TYPE]
 		if (lua_isnumber( ls, -1))
 		{
-			rt = lua_tointeger( ls, -1);
+			rt = mewa::lua::getArgumentAsInteger( functionName, ls, -1, mewa::Error::ExpectedArgumentType);
 			if (rt < 0) mewa::lua::throwArgumentError( functionName, li, mewa::Error::ExpectedArgumentType);
 			lua_pop( ls, 1);
 		}
@@ -421,7 +421,7 @@ std::pmr::vector<int> mewa::lua::getArgumentAsTypeList(
 					lua_rawget( ls, -2);						// STK: [KEY] [VAL] [TYPE]
 					if (lua_isnumber( ls, -1))
 					{
-						type = lua_tointeger( ls, -1);
+						type = mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, -1);
 					}
 					else
 					{
-- 
2.43.0


From 98bb51da028ee843e467ea4a32af9658a8ca6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 68/81] fix: integers in a generated table were truncated to
 int without a check

---
 src/lua_load_automaton.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 71437d0..3ff74d9 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -20,6 +20,7 @@
 #include <cstring>
 #include <cstdio>
 #include <cmath>
+#include <limits>
 #include <string>
 #include <vector>
 #include <map>
@@ -34,6 +35,17 @@ extern "C" {
 #error Building mewa requires C++17
 #endif
 
+enum {MaxIntegerArrayValue=1<<30};	//< Maximum value accepted in an array of integers, leaves room for calculating with them
+
+/// \brief Get a Lua number that is an integer in a range or a default value, if it is not
+static int getInteger( lua_State *ls, int li, int minval, int maxval, int defaultval)
+{
+	if (lua_type( ls, li) != LUA_TNUMBER) return defaultval;
+	double val = lua_tonumber( ls, li);
+	if (!(val >= minval && val <= maxval) || val != std::floor( val)) return defaultval;
+	return (int)val;
+}
+
 template <typename KEY, typename VAL>
 static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* tableName)
 {
@@ -46,12 +58,12 @@ static std::map<KEY,VAL> parsePackedTable( lua_State *ls, int li, const char* ta
 	while (lua_next( ls, -2))
 	{
 		++rowcnt;
-		int packedkey = lua_tointeger( ls, -2);
+		int packedkey = getInteger( ls, -2, 1, std::numeric_limits<int>::max(), 0/*default*/);
 		if (packedkey <= 0)
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName, rowcnt));
 		}
-		int packedval = lua_tointeger( ls, -1);
+		int packedval = getInteger( ls, -1, 1, std::numeric_limits<int>::max(), 0/*default*/);
 		if (packedval <= 0)
 		{
 			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName, rowcnt));
@@ -117,11 +129,11 @@ static std::vector<int> parseIntegerArray( lua_State *ls, int li, const std::str
 		{
 			throw mewa::Error( mewa::Error::BadKeyInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
-		if (!lua_isinteger( ls, -1))
+		int val = getInteger( ls, -1, 0, MaxIntegerArrayValue, -1/*default*/);
+		if (val < 0)
 		{
 			throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, mewa::string_format( "table '%s', row %d", tableName.c_str(), rowcnt));
 		}
-		int val = lua_tointeger( ls, -1);
 		rt.push_back( val);
 		lua_pop( ls, 1);
 	}
-- 
2.43.0


From d56c5bac444de0e3fc5023b1a7653e6ee877d67c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 69/81] fix: overflow in a number string of a generated table

---
 src/lua_load_automaton.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lua_load_automaton.cpp b/src/lua_load_automaton.cpp
index 3ff74d9..fb70d8c 100644
--- a/src/lua_load_automaton.cpp
+++ b/src/lua_load_automaton.cpp
@@ -147,7 +147,9 @@ static int string2int( const std::string& value)
 	char const* si = value.c_str();
 	for (; *si >= '0' && *si <= '9'; ++si)
 	{
-		rt = rt * 10 + (*si - '0');
+		int dig = *si - '0';
+		if (rt > (std::numeric_limits<int>::max() - dig) / 10) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, value);
+		rt = rt * 10 + dig;
 	}
 	if (*si) throw mewa::Error( mewa::Error::BadValueInGeneratedLuaTable, value);
 	return rt;
-- 
2.43.0


From f17d076f415ded648d86e170a371951e1f18ebee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:26 +0000
Subject: [PATCH 70/81] fix: serialization of numbers and keys out of the range
 of the integer type

---
 src/lua_serialize.cpp | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 117dcaa..4a9c36f 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -36,13 +36,12 @@ static void serializeLuaValue( std::ostream& out, lua_State* ls, int li, const s
 
 static std::string encodeCString( const char* str);
 
-static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+static void serializeNumber( std::ostream& out, double num)
 {
-	double num;
-	num = lua_tonumber( ls, li);
-	if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
+	double fl = std::floor( num);
+	if (num - fl < std::numeric_limits<double>::epsilon()*4 && fl >= -9223372036854775808.0 && fl < 9223372036854775808.0)
 	{
-		out << lua_tointeger( ls, li);
+		out << (long long)fl;
 	}
 	else
 	{
@@ -50,6 +49,11 @@ static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
 	}
 }
 
+static void serializeLuaNumber( std::ostream& out, lua_State* ls, int li)
+{
+	serializeNumber( out, lua_tonumber( ls, li));
+}
+
 struct LuaTableKey
 {
 	enum Type {NumberType,StringType};
@@ -94,18 +98,10 @@ struct LuaTableKey
 		switch (type)
 		{
 			case NumberType:
-			{
-				double num = std::get<double>(value);
-				if (num - std::floor( num) < std::numeric_limits<double>::epsilon()*4)
-				{
-					out << "[" << (int)(num + std::numeric_limits<double>::epsilon()*4) << "]";
-				}
-				else
-				{
-					out << "[" << std::get<double>(value) << "]";
-				}
+				out << "[";
+				serializeNumber( out, std::get<double>(value));
+				out << "]";
 				break;
-			}
 			case StringType:
 				if (isIdentifier())
 				{
@@ -169,8 +165,8 @@ static void serializeLuaTable( std::ostream& out, lua_State* ls, int li, const s
 			hasNameKeys = true;
 		}
 		else if (rowcnt
-			&& ((int)(std::get<double>(keyvec[0].value) + std::numeric_limits<double>::epsilon()*4) != 1
-			|| (int)(std::get<double>(keyvec.back().value) + std::numeric_limits<double>::epsilon()*4) != rowcnt))
+			&& (std::floor( std::get<double>(keyvec[0].value)) != 1
+			|| std::floor( std::get<double>(keyvec.back().value)) != rowcnt))
 		{
 			hasNameKeys = true;
 		}
-- 
2.43.0


From 54cceae517e7c4340658965220d4025132dc7f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:49 +0000
Subject: [PATCH 71/81] fix: argument of an error passed as string view was cut
 after 511 characters

---
 src/error.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/error.cpp b/src/error.cpp
index b7fd9b8..41a24e6 100644
--- a/src/error.cpp
+++ b/src/error.cpp
@@ -321,11 +321,7 @@ const char* Error::code2String( int code_) noexcept
 
 std::string Error::map2string( Code code_, const std::string_view& param_, const Location& location_)
 {
-	char parambuf[ 512];
-	std::size_t len = param_.size() >= sizeof(parambuf) ? (sizeof(parambuf)-1):param_.size();
-	std::memcpy( parambuf, param_.data(), len);
-	parambuf[ len] = 0;
-	return map2string( code_, parambuf, location_);
+	return map2string( code_, std::string( param_).c_str(), location_);
 }
 
 std::string Error::map2string( Code code_, const char* param_, const Location& location_)
-- 
2.43.0


From 71f39f96105a3660691dd55d8f7d608b04363373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:29 +0000
Subject: [PATCH 72/81] fix: lexem defined after a keyword in the grammar got
 another identifier when the generated table was loaded

---
 src/automaton_parser.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/automaton_parser.cpp b/src/automaton_parser.cpp
index 819bff0..6011992 100644
--- a/src/automaton_parser.cpp
+++ b/src/automaton_parser.cpp
@@ -202,6 +202,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		std::string_view patternstr;
 		std::string_view cmdname;
 		std::vector<std::string_view> cmdargs;
+		std::vector<Lexem> keywords;
 		std::multimap<std::string_view, std::size_t> prodmap;
 		std::map<std::string_view, int> nonTerminalIdMap;
 		std::set<std::string_view> usedSet;
@@ -433,7 +434,7 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 					}
 					else if (state == ParseProductionElement)
 					{
-						if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+						keywords.push_back( lexem);
 						rt.prodlist.back().right.push_back( ProductionNodeDef( lexem.value(), false/*not a symbol, raw string implicitly defined*/));
 					}
 					else if (state == ParseCallArg)
@@ -625,7 +626,16 @@ LanguageDef mewa::parseLanguageDef( const std::string& source)
 		}
 		if (state != Init) throw Error( Error::UnexpectedEofInGrammarDef);
 
-		// [2] Label grammar production elements:
+		// [2.1] Define the keywords after all named lexems, because this is the order they get their identifiers when the generated table is loaded:
+		Lexem eof = lexem;
+		for (auto const& keyword : keywords)
+		{
+			lexem = keyword; //... for the line in case of an error
+			if (!rt.lexer.lexemId( lexem.value())) rt.lexer.defineLexem( lexem.value());
+		}
+		lexem = eof;
+
+		// [2.2] Label grammar production elements:
 		for (auto& prod : rt.prodlist)
 		{
 			if (rt.lexer.lexemId( prod.left.name()))
-- 
2.43.0


From 4bc3a7620f7cc9011e969058019876eb42a40115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:23 +0000
Subject: [PATCH 73/81] fix: order of ignored patterns and tokens got lost in
 the generated table, a match of the same length was chosen at random

---
 src/automaton_tostring.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/automaton_tostring.cpp b/src/automaton_tostring.cpp
index f4ab0a2..c7277fd 100644
--- a/src/automaton_tostring.cpp
+++ b/src/automaton_tostring.cpp
@@ -70,7 +70,9 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 		int di = 0;
 		for (auto def : definitions)
 		{
-			defclassmap[ def.typeName()].push_back( di++);
+			// ... ignored patterns are printed as tokens without name to keep the order of definition, because the first definition is chosen for matches of the same length:
+			const char* classname = def.type() == Lexer::Definition::IgnoreLexem ? Lexer::Definition::typeName( Lexer::Definition::NamedPatternLexem) : def.typeName();
+			defclassmap[ classname].push_back( di++);
 		}
 		outstream << "\t" << tablename << " = {";
 
@@ -109,8 +111,9 @@ static void printLexer( std::ostream& outstream, const char* tablename, const Le
 						printString( outstream, def.name());
 						break;
 					case Lexer::Definition::IgnoreLexem:
-						outstream << sepc;
+						outstream << sepc << shft << "{ \"\", ";
 						printString( outstream, def.ignore());
+						outstream << " }";
 						break;
 					case Lexer::Definition::EolnComment:
 						outstream << sepc;
-- 
2.43.0


From 5d30ca516b4092278c6e3e8a3172fd2628cfb103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:41 +0000
Subject: [PATCH 74/81] fix: mewa.tostring printed table keys that are empty or
 reserved words of Lua as names

---
 src/lua_serialize.cpp |  6 ++----
 src/strings.cpp       | 15 +++++++++++++++
 src/strings.hpp       |  4 ++++
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/lua_serialize.cpp b/src/lua_serialize.cpp
index 4a9c36f..6ecfa7f 100644
--- a/src/lua_serialize.cpp
+++ b/src/lua_serialize.cpp
@@ -11,6 +11,7 @@
 /// \file "lua_serialize.hpp"
 #include "lua_serialize.hpp"
 #include "error.hpp"
+#include "strings.hpp"
 #include <vector>
 #include <iostream>
 #include <sstream>
@@ -117,10 +118,7 @@ struct LuaTableKey
 
 	bool isIdentifier() const noexcept
 	{
-		char const* si = std::get<const char*>(value);
-		if (*si >= '0' && *si <= '9') return false;
-		for (; *si && (((*si|32) >= 'a' && (*si|32) <= 'z') || (*si >= '0' && *si <= '9') || *si == '_'); ++si){}
-		return !*si;
+		return isLuaName( std::get<const char*>(value));
 	}
 };
 
diff --git a/src/strings.cpp b/src/strings.cpp
index 5351b97..737db10 100644
--- a/src/strings.cpp
+++ b/src/strings.cpp
@@ -124,3 +124,18 @@ std::string mewa::template_format( const std::string_view& templatstr, char sb,
 	return rt;
 }
 
+bool mewa::isLuaName( const std::string_view& str) noexcept
+{
+	static const char* const reservedWords[] = {"and","break","do","else","elseif","end","false","for","function","goto","if","in","local","nil","not","or","repeat","return","then","true","until","while"};
+	if (str.empty() || !isAlpha( str[0])) return false;
+	for (char ch : str)
+	{
+		if (!isAlphaNum( ch)) return false;
+	}
+	for (const char* word : reservedWords)
+	{
+		if (str == word) return false;
+	}
+	return true;
+}
+
diff --git a/src/strings.hpp b/src/strings.hpp
index ec97796..409e83b 100644
--- a/src/strings.hpp
+++ b/src/strings.hpp
@@ -13,6 +13,7 @@
 #define _MEWA_STRINGS_HPP_INCLUDED
 #if __cplusplus >= 201703L
 #include <string>
+#include <string_view>
 #include <map>
 
 namespace mewa {
@@ -32,6 +33,9 @@ std::string string_format( const char* fmt, ...);
 /// \param[in] substmap variables to substitute
 std::string template_format( const std::string_view& templatstr, char sb, char eb, const std::map<std::string,std::string>& substmap);
 
+/// \brief Test if a string can be used as name in Lua (is an identifier and not a reserved word of Lua)
+bool isLuaName( const std::string_view& str) noexcept;
+
 }//namespace
 
 #else
-- 
2.43.0


From 81e012bbac4c69cc130f8945034d4a8feebde481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:52 +0000
Subject: [PATCH 75/81] fix: attributes with names that are no names in Lua
 made the printed language description invalid

---
 src/languagedef_tostring.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 39456ab..37c53a3 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -11,6 +11,7 @@
 /// \brief Function to print Lexem definitions as Lua table
 /// \file "languagedef_tostring.cpp"
 #include "languagedef_tostring.hpp"
+#include "strings.hpp"
 
 using namespace mewa;
 
@@ -89,7 +90,8 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	for (auto const& dc : decorators)
 	{
 		outstream << ",";
-		printArgument( outstream, dc.name.c_str(), dc.content);
+		std::string key = isLuaName( dc.name) ? dc.name : ("[\"" + dc.name + "\"]");
+		printArgument( outstream, key.c_str(), dc.content);
 	}
 }
 
-- 
2.43.0


From fda6a9d9a073e4054180023cdafdc1c76db5d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:59 +0000
Subject: [PATCH 76/81] fix: printed language description quoted the
 indentation lexem names and listed them as tokens without pattern

---
 src/languagedef_tostring.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/languagedef_tostring.cpp b/src/languagedef_tostring.cpp
index 37c53a3..324cd4b 100644
--- a/src/languagedef_tostring.cpp
+++ b/src/languagedef_tostring.cpp
@@ -95,7 +95,16 @@ static void printDecorators( std::ostream& outstream, const std::vector<Language
 	}
 }
 
-static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const Lexer& lexer, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
+static std::string lexemDefinitionName( const std::vector<Lexer::Definition>& defs, int id)
+{
+	for (auto const& def : defs)
+	{
+		if (def.type() == Lexer::Definition::NamedPatternLexem && def.id() == id) return def.name();
+	}
+	return std::string();
+}
+
+static void printLexerDefinitions( std::ostream& outstream, const char* indentstr, const std::vector<Lexer::Definition>& defs, const LanguageDecoratorMap& decorators, int& cnt)
 {
 	for (auto const& def : defs)
 	{
@@ -114,6 +123,7 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				break;
 
 			case Lexer::Definition::NamedPatternLexem:
+				if (def.pattern().empty()) break; //... lexem without pattern, declared with INDENTL
 				outstream << (cnt++ ? indentstr : (indentstr+1));
 				outstream << "{";
 				printArgument( outstream, "op", "TOKEN");
@@ -178,11 +188,11 @@ static void printLexerDefinitions( std::ostream& outstream, const char* indentst
 				outstream << "{";
 				printArgument( outstream, "op", "INDENTL");
 				outstream << ",";
-				printArgument( outstream, "open", lexer.lexemName( def.openind()));
+				printArgument( outstream, "open", lexemDefinitionName( defs, def.openind()));
 				outstream << ",";
-				printArgument( outstream, "close", lexer.lexemName( def.closeind()));
+				printArgument( outstream, "close", lexemDefinitionName( defs, def.closeind()));
 				outstream << ",";
-				printArgument( outstream, "nl", lexer.lexemName( def.newline()));
+				printArgument( outstream, "nl", lexemDefinitionName( defs, def.newline()));
 				outstream << ",";
 				printArgument( outstream, "tabsize", def.tabsize());
 				printDecorators( outstream, decorators.get( def.line()));
@@ -262,7 +272,7 @@ std::string mewa::printLuaLanguageDefinition( const LanguageDef& langdef, const
 	out << indentstr1 << "RULES = {";
 	auto const& defs = langdef.lexer.getDefinitions();
 	int cnt = 0;
-	printLexerDefinitions( out, indentstr2, langdef.lexer, defs, decoratormap, cnt);
+	printLexerDefinitions( out, indentstr2, defs, decoratormap, cnt);
 	printProductions( out, indentstr2, langdef, decoratormap, cnt);
 	out << "\n\t}\n}\nreturn languagedef\n\n";
 	std::string rt = out.str();
-- 
2.43.0


From 480391d1d5db6d234fc790a58c9f93302d22bcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:48:27 +0000
Subject: [PATCH 77/81] fix: typedb:scope with a wrong step argument leaves the
 current scope unchanged

---
 src/lualib_mewa.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lualib_mewa.cpp b/src/lualib_mewa.cpp
index ee5932c..d124c72 100644
--- a/src/lualib_mewa.cpp
+++ b/src/lualib_mewa.cpp
@@ -597,8 +597,9 @@ static int mewa_typedb_scope( lua_State* ls)
 		mewa::Scope::Step rt_step = td->curStep;
 		if (nargs >= 2)
 		{
-			td->curScope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
-			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (td->curScope.end()-1);
+			mewa::Scope scope = mewa::lua::getArgumentAsScope( functionName, ls, 2);
+			td->curStep = (nargs >= 3) ? mewa::lua::getArgumentAsNonNegativeInteger( functionName, ls, 3) : (scope.end()-1);
+			td->curScope = scope;
 		}
 		mewa::lua::pushScope( ls, functionName, rt_scope);
 		lua_pushinteger( ls, rt_step);
-- 
2.43.0


From c96c64ebd3b77fe00dfce93ef22ab45cad1ea418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:12 +0000
Subject: [PATCH 78/81] fix: the tree of types contains all types with the same
 name defined in a scope, not only the first

---
 src/typedb.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/typedb.cpp b/src/typedb.cpp
index 0c29b7d..bc54870 100644
--- a/src/typedb.cpp
+++ b/src/typedb.cpp
@@ -720,19 +720,24 @@ TypeDatabase::TypeDefinitionTree TypeDatabase::getTypeDefinitionTree() const
 {
 	struct TranslateItem
 	{
-		TranslateItem(){}
+		TypeDatabase const* typedb;
+
+		explicit TranslateItem( TypeDatabase const* typedb_) :typedb(typedb_){}
 		ScopeHierarchyTreeNode<TypeDefinitionList> operator()( const TypeTable::TreeNode& node)
 		{
 			ScopeHierarchyTreeNode<TypeDefinitionList> rt( node.scope, {});
 			for (auto const& elem : node.value)
 			{
-				rt.value.push_back( elem.second);
+				for (int tri = elem.second; tri > 0; tri = typedb->m_typerecMap[ tri-1].next)
+				{
+					rt.value.push_back( tri);
+				}
 			}
 			return rt;
 		}
 	};
 	Tree<TypeTable::TreeNode> tree = m_typeTable->getTree();
-	TranslateItem translateItem;
+	TranslateItem translateItem( this);
 	return tree.translate< ScopeHierarchyTreeNode<TypeDefinitionList> >( translateItem);
 }
 
-- 
2.43.0


From ea72404d02835cea9f364f235b5c86396d00a39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 79/81] fix: lexer: blocks open at the end of the source are
 closed also if the last line is a comment

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index b483cf9..c1c5dff 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -635,7 +635,7 @@ Lexem Lexer::next( Scanner& scanner) const
 				{
 					if (!scanner.scan( "\n"))
 					{
-						return Lexem( scanner.line()); //... no EOLN then return EOF
+						scanner.next( scanner.restsize()); //... no EOLN then the comment ends with the source
 					}
 					break; //... comment skipped, fetch next lexem
 				}
-- 
2.43.0


From 5ddd6685261a1263a5d75dffd6f6a6231efdf3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 80/81] fix: lexer: pattern starting with a character set
 ending with '-' never matched this character

---
 src/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index c1c5dff..162c7c2 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -74,7 +74,7 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 			char from = res[ res.size()-1];
 			if (!*si || *si == eb)
 			{
-				res.push_back( from);
+				res.push_back( '-'); //... '-' at the end of the set stands for itself
 				break;
 			}
 			else
-- 
2.43.0


From 254f900d08737d3be224dad070a31f82d621aea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:36:12 +0000
Subject: [PATCH 81/81] fix: lexer: patterns starting with a character class
 name like [:alpha:] were not tried for all characters of the class

---
 src/lexer.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/lexer.cpp b/src/lexer.cpp
index 162c7c2..bb72291 100644
--- a/src/lexer.cpp
+++ b/src/lexer.cpp
@@ -87,6 +87,20 @@ static bool extractFirstCharacters( std::string& res, char const*& si, char eb)
 				}
 			}
 		}
+		else if (si[0] == '[' && si[1] == ':')
+		{
+			// Character class referred to by name:
+			char const* start = si + 2;
+			char const* end = std::strstr( start, ":]");
+			if (!end) throw Error( Error::SyntaxErrorInLexer);
+			std::regex_traits<char> traits;
+			auto classtype = traits.lookup_classname( start, end);
+			for (int chr = 1; chr < 256; ++chr)
+			{
+				if (traits.isctype( (char)chr, classtype)) res.push_back( (char)chr);
+			}
+			si = end + 2;
+		}
 		else
 		{
 			res.push_back( parseFirstChar( si, false/*!allowNonAscii*/));
-- 
2.43.0

