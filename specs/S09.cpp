// S09: paths: parent, filename, stem and extension are parts of a path that make it up again; files are found where they are.
#include "xov.h"
#include "xo/string/string_tools.cpp"
#include "xo/filesystem/path.cpp"
#include "xo/filesystem/filesystem.h"
using namespace xo;
using std::string;
static const char* al = "a./\\:~";
static bool sep( char c ) { return ( c == '/' ) | ( c == '\\' ); }
static bool no_sep( const string& s, size_t from = 0 ) { return xov::forall( long( from ), long( s.size() ), [&]( size_t i ) { return !sep( s[i] ); } ); }
// r is s[from, from + n)
static bool part( const string& r, const string& s, size_t from, size_t n ) { return r.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return r[i] == s[from + i]; } ); }
// position of the filename in s: after the last separator
struct where { string s; size_t file, parent, dot; bool dir; };
static where look( const string& s ) {
	size_t n = s.size(); where w{ s, 0, 0, n, false }; size_t k = s.find_last_of( "/\\" ); w.dir = k != string::npos; if ( w.dir ) { w.file = k + 1; w.parent = k == 0 || s[k - 1] == ':' ? k + 1 : k; } size_t d = s.find_last_of( '.' ); if ( d != string::npos && d >= w.file ) w.dot = d; return w;
}
static string any_path() { string s = xov::any_string( al, 7 ); xov::assume( s.size() < 1000000 ); return s; }
static string any_name() { string s = xov::any_string( "a.b", 3 ); xov::assume( s.size() < 1000000 && no_sep( s ) ); return s; }
XOV_PROOF( looked ) { const string s = any_path(); where w = look( s ); XOV_COVER( "end" ); XOV_CHECK( w.file <= s.size() && no_sep( s, w.file ) && ( w.dir ? w.file > 0 && sep( s[w.file - 1] ) : w.file == 0 ), "the specification is what it should be" ); XOV_CHECK( w.parent <= w.file && w.file <= w.parent + 1 && w.dot >= w.file && w.dot <= s.size(), "in order" ); XOV_CHECK( w.dot == s.size() || s[w.dot] == '.', "the last dot" ); XOV_CHECK( xov::forall( long( w.dot ) + 1, long( s.size() ), [&]( size_t i ) { return s[i] != '.'; } ), "of all" ); }
XOV_PROOF( filename ) { const string s = any_path(); where w = look( s ); path p( s ); string f = p.filename().str(); XOV_COVER( "end" ); XOV_CHECK( part( f, s, w.file, s.size() - w.file ), "all after the last separator" ); XOV_CHECK( p.str() == s && p.empty() == s.empty(), "the path is kept" ); }
XOV_PROOF( parent ) { const string s = any_path(); where w = look( s ); path p( s ); string f = p.parent_path().str(); XOV_COVER( "end" ); XOV_CHECK( part( f, s, 0, w.parent ), "all before the last separator, with it for a root" ); XOV_CHECK( p.has_parent_path() == w.dir, "if there is one" ); }
XOV_PROOF( extension ) { const string s = any_path(); where w = look( s ); path p( s ); string e = p.extension().str(); XOV_COVER( "end" ); XOV_CHECK( part( e, s, w.dot, s.size() - w.dot ), "from the last dot of the filename" ); }
XOV_PROOF( extension_no_dot ) { const string s = any_path(); where w = look( s ); path p( s ); string e = p.extension_no_dot().str(); size_t d = w.dot < s.size() ? w.dot + 1 : w.dot; XOV_COVER( "end" ); XOV_CHECK( part( e, s, d, s.size() - d ), "after the last dot of the filename" ); }
XOV_PROOF( stem ) { const string s = any_path(); where w = look( s ); path p( s ); string e = p.stem().str(); XOV_COVER( "end" ); XOV_CHECK( part( e, s, w.file, w.dot - w.file ), "the filename without extension" ); }
XOV_PROOF( has_filename ) { const string s = any_path(); where w = look( s ); XOV_COVER( "end" ); size_t n = s.size(); XOV_CHECK( path( s ).has_filename() == ( n > 0 && !sep( s[n - 1] ) && s[n - 1] != ':' ), "unless it ends with a separator or drive" ); }
XOV_PROOF( absolute ) { const string s = any_path(); size_t n = s.size(); bool a = n > 0 && ( s[0] == '/' || s[0] == '~' || xov::exists( 0, long( n ), [&]( size_t i ) { return s[i] == ':'; } ) ); XOV_COVER( "end" ); XOV_CHECK( path( s ).is_absolute() == a && path( s ).is_relative() == !a, "with a root, home or drive" ); }
XOV_PROOF( removed ) { const string s = any_path(); where w = look( s ); path p( s ); path& q = p.remove_filename(); XOV_COVER( "end" ); XOV_CHECK( &q == &p && part( p.str(), s, 0, w.parent ), "the parent is left" ); }
XOV_PROOF( preferred ) { const string s = any_path(); path p( s ); p.make_preferred(); XOV_COVER( "end" ); XOV_CHECK( p.str().size() == s.size() && xov::forall( 0, long( s.size() ), [&]( size_t i ) { return p.str()[i] == ( s[i] == '\\' ? '/' : s[i] ); } ), "every separator, nothing else" ); }
// a then b then c
static bool joined( const string& r, const string& a, size_t n, const string& c, const string& b, size_t from ) { size_t k = c.size(), m = b.size() - from; return r.size() == n + k + m && xov::forall( 0, long( n ), [&]( size_t i ) { return r[i] == a[i]; } ) && xov::forall( 0, long( k ), [&]( size_t i ) { return r[n + i] == c[i]; } ) && xov::forall( 0, long( m ), [&]( size_t i ) { return r[n + k + i] == b[from + i]; } ); }
XOV_PROOF( replaced_extension ) { const string s = any_path(), e = any_name(); where w = look( s ); path p( s ); p.replace_extension( path( e ) ); XOV_COVER( "end" ); XOV_CHECK( joined( p.str(), s, w.dot, e.empty() || e[0] == '.' ? "" : ".", e, 0 ), "the extension is replaced, nothing else" ); }
static bool ends_open( const string& s, size_t n ) { return n > 0 && !sep( s[n - 1] ) && s[n - 1] != ':'; }
static void join( const string& a, const string& b, const string& r ) { size_t n = a.size(); if ( !ends_open( a, n ) ) XOV_CHECK( joined( r, a, n, "", b, 0 ), "put after a separator" ); else { size_t k = b.find_first_not_of( "/\\" ); if ( k == string::npos ) k = b.size(); XOV_CHECK( joined( r, a, n, "/", b, k ), "with one separator between" ); } }
XOV_PROOF( appended ) { const string a = any_path(), b = any_path(); path p( a ); p /= path( b ); XOV_COVER( "end" ); join( a, b, p.str() ); }
XOV_PROOF( appended_text ) { const string a = any_path(), b = any_path(); path p( a ); p /= b; XOV_COVER( "end" ); join( a, b, p.str() ); }
XOV_PROOF( combined ) { const string a = any_path(), b = any_path(); path p( a ), q( b ); XOV_COVER( "end" ); join( a, b, ( p / q ).str() ); XOV_CHECK( p.str() == a && q.str() == b, "the parts are kept" ); }
XOV_PROOF( added ) { const string a = any_path(), b = any_path(); path p( a ), q( b ); path r = p + q; XOV_COVER( "end" ); XOV_CHECK( joined( r.str(), a, a.size(), "", b, 0 ) && p.str() == a, "plain addition" ); p += b; XOV_CHECK( p == r && !( p != r ), "the same in place" ); XOV_CHECK( ( path( a ) == path( b ) ) == ( a == b ) && ( path( a ) != path( b ) ) == ( a != b ), "compared as texts" ); }
// the parent of the result is the parent before, if the separator before the filename is single
static bool single( const where& w ) { return w.parent == 0 || !sep( w.s[w.parent - 1] ) || w.parent == w.file; }
XOV_PROOF( replaced_filename ) { const string s = any_path(), f = any_name(); where w = look( s ); xov::assume( single( w ) && !( w.parent == w.file && w.file > 0 && !sep( s[w.file - 1] ) ) ); path p( s ); p.replace_filename( path( f ) ); XOV_COVER( "end" ); XOV_CHECK( joined( p.str(), s, w.parent, w.parent < w.file ? "/" : "", f, 0 ), "the filename is replaced, the parent is kept" ); }
XOV_BOUNDED( replaced_stem ) { const string s = any_path(), f = any_name(); where w = look( s ); xov::assume( single( w ) ); path p( s ); p.replace_stem( path( f ) ); XOV_COVER( "end" ); const string& r = p.str(); size_t k = w.parent + ( w.parent < w.file ? 1 : 0 ), e = s.size() - w.dot; XOV_CHECK( r.size() == k + f.size() + e, "the length" ); XOV_CHECK( xov::forall( 0, long( w.parent ), [&]( size_t i ) { return r[i] == s[i]; } ) && ( k == w.parent || r[w.parent] == '/' ), "the parent is kept" ); XOV_CHECK( xov::forall( 0, long( f.size() ), [&]( size_t i ) { return r[k + i] == f[i]; } ), "the stem is replaced" ); XOV_CHECK( xov::forall( 0, long( e ), [&]( size_t i ) { return r[k + f.size() + i] == s[w.dot + i]; } ), "the extension is kept" ); }
XOV_BOUNDED( concatenated ) { const string s = any_path(), f = any_name(); where w = look( s ); xov::assume( single( w ) && w.file < s.size() ); path p( s ); p.concat_stem( f ); string e = s.substr( 0, w.parent ) + ( w.parent < w.file ? "/" : "" ) + s.substr( w.file, w.dot - w.file ) + f + s.substr( w.dot ); XOV_CHECK( p.str() == e, "the stem is extended, nothing else" ); }
#ifndef XOV_SYM
#include <filesystem>
#include <fstream>
#include <unistd.h>
namespace sf = std::filesystem;
// a scratch folder of its own, removed at the end
struct scratch { string dir; scratch() { char t[] = "/tmp/xov_s09_XXXXXX"; dir = mkdtemp( t ); } ~scratch() { std::error_code e; if ( dir.compare( 0, 13, "/tmp/xov_s09_" ) == 0 ) sf::remove_all( dir, e ); } };
static string name( const char* a = "ab" ) { string s; do s = xov::any_string( a, 2 ); while ( s.empty() && ( s = "c", false ) ); return s; }
static string read( const string& f ) { std::ifstream i( f, std::ios::binary ); return string( std::istreambuf_iterator<char>( i ), {} ); }
XOV_BOUNDED( files ) { // written text is read back; the folders are made
	scratch t; string f = t.dir; for ( size_t n = xov::any_size( 2 ); n > 0; --n ) f += "/" + name(); f += "/" + name( "xy" ) + ".txt"; string a = xov::any_string( "a \n\r\xff", 4 ), b = xov::any_string( "a \n", 3 ); path p( f ); XOV_CHECK( !file_exists( p ) && !exists( p ), "not there at first" ); error_code e; load_string( p, &e ); XOV_CHECK( e.bad() && xov::thrown( [&] { load_string( p ); } ), "a missing file is refused" );
	save_string( p, a ); XOV_CHECK( file_exists( p ) && exists( p ) && directory_exists( p.parent_path() ) && !directory_exists( p ), "there now, and its folders" ); XOV_CHECK( load_string( p ) == a && read( f ) == a, "the text is read back" ); append_string( p, b ); XOV_CHECK( load_string( p ) == a + b, "appended" ); save_string( p, b ); XOV_CHECK( load_string( p ) == b, "replaced" );
	path q( t.dir + "/copy" ); XOV_CHECK( xo::copy_file( p, q, false ) && load_string( q ) == b && load_string( p ) == b, "copied" ); save_string( p, a ); error_code c; bool ok = xo::copy_file( p, q, false, &c ); XOV_CHECK( !ok && c.bad() && load_string( q ) == b, "an existing file is kept" ); XOV_CHECK( xo::copy_file( p, q, true ) && load_string( q ) == a, "or overwritten if asked" );
}
XOV_BOUNDED( found ) { // the first file that is there
	scratch t; std::vector<path> dirs; std::vector<string> d; for ( size_t n = xov::any_size( 3 ); n > 0; --n ) { string x = t.dir + "/" + string( 1, char( 'a' + n ) ); sf::create_directory( x ); dirs.push_back( path( x ) ); d.push_back( x ); if ( xov::any_bool() ) std::ofstream( x + "/f.txt" ) << "x"; }
	auto r = try_find_file( path( "f.txt" ), dirs ); string e; for ( auto& x : d ) if ( e.empty() && sf::exists( x + "/f.txt" ) ) e = x + "/f.txt"; XOV_CHECK( bool( r ) == !e.empty() && ( e.empty() || r->str() == e ), "the first folder that has the file" ); auto m = try_find_file( path( t.dir + "/none/f.txt" ), dirs ); XOV_CHECK( bool( m ) == !e.empty() && ( e.empty() || m->str() == e ), "an absolute path that is missing is looked for by its filename" );
	if ( d.size() >= 2 ) { path a( d[0] + "/f.txt" ), b( d[1] + "/f.txt" ); bool ha = sf::exists( a.str() ), hb = sf::exists( b.str() ); auto q = try_find_file( { a, b } ); XOV_CHECK( bool( q ) == ( ha || hb ) && ( !q || q->str() == ( ha ? a : b ).str() ), "the first path that exists" ); current_find_file_path( path( d[0] ) ); auto k = try_find_file( { path( "f.txt" ), b } ); XOV_CHECK( bool( k ) == ( ha || hb ) && ( !k || k->str() == ( ha ? a : b ).str() ), "relative to the current search folder" ); XOV_CHECK( xov::thrown( [&] { find_file( { path( "f.txt" ), b } ); } ) == !( ha || hb ), "or refused" ); current_find_file_path( path() ); }
}
XOV_BOUNDED( unique_folder ) { scratch t; string f = t.dir + "/new"; size_t n = xov::any_size( 4 ); int max = int( xov::any_int( 1, 5 ) ); for ( size_t i = 0; i < n; ++i ) sf::create_directory( i == 0 ? f : f + " (" + std::to_string( i ) + ")" ); bool ok = n < size_t( max ); string e = n == 0 ? f : f + " (" + std::to_string( n ) + ")"; string r; bool th = xov::thrown( [&] { r = find_unique_directory( path( f ), max ).str(); } ); XOV_CHECK( th == !ok && ( th || r == e ), "the first number that is free" ); XOV_CHECK( !sf::exists( e ), "not made" ); th = xov::thrown( [&] { r = create_unique_directory( path( f ), max ).str(); } ); XOV_CHECK( th == !ok && ( th || ( r == e && sf::is_directory( e ) ) ), "made" ); }
XOV_BOUNDED( listed ) { // every file below that matches, and no other
	scratch t; std::vector<string> all; string dirs[3] = { t.dir, t.dir + "/d", t.dir + "/d/e" }; sf::create_directories( dirs[2] ); for ( size_t n = xov::any_size( 4 ); n > 0; --n ) { string f = dirs[xov::any_int( 0, 2 )] + "/" + name() + ( xov::any_bool() ? ".x" : ".y" ); std::ofstream( f ) << 1; all.push_back( f ); } std::sort( all.begin(), all.end() ); all.erase( std::unique( all.begin(), all.end() ), all.end() ); int lev = int( xov::any_int( -1, 2 ) ); bool rec = xov::any_bool(), ex = xov::any_bool(); std::vector<string> r, e; auto got = ex ? find_files( path( t.dir ), "*.x;*.y", "a*", rec, lev ) : find_files( path( t.dir ), "*.x", rec, lev ); for ( auto& p : got ) r.push_back( p.str() ); std::sort( r.begin(), r.end() );
	for ( auto& f : all ) { string b = f.substr( f.rfind( '/' ) + 1 ), d = f.substr( 0, f.rfind( '/' ) ); int depth = d == dirs[0] ? 0 : d == dirs[1] ? 1 : 2; if ( depth > 0 && ( !rec || ( lev >= 0 && depth > lev ) ) ) continue; if ( ex ? b[0] != 'a' : b.back() == 'x' ) e.push_back( f ); } XOV_CHECK( r == e, "the files that match, in the folders to look in" );
}
#endif
// ---------------------------------------------------------------- file names as plain text
// d: the last dot of s, none of the filename if a separator follows
static bool last_dot( const string& s, size_t d ) { return d < s.size() && s[d] == '.' && xov::forall( long( d ) + 1, long( s.size() ), [&]( size_t i ) { return s[i] != '.'; } ); }
static bool no_dot( const string& s ) { return xov::forall( 0, long( s.size() ), [&]( size_t i ) { return s[i] != '.'; } ); }
XOV_PROOF( text_extension ) { const string s = any_path(); size_t d = xov::any_size( 7 ); xov::assume( last_dot( s, d ) && no_sep( s, d ) ); string e = get_filename_ext( s ); XOV_COVER( "end" ); XOV_CHECK( part( e, s, d + 1, s.size() - d - 1 ), "the text after the last dot of the filename" ); }
XOV_PROOF( text_extension_none ) { const string s = any_path(); xov::assume( no_dot( s ) ); string e = get_filename_ext( s ); XOV_COVER( "end" ); XOV_CHECK( e.empty(), "none without dot" ); }
XOV_PROOF( text_extension_folder ) { const string s = any_path(); size_t d = xov::any_size( 7 ), k = xov::any_size( 7 ); xov::assume( last_dot( s, d ) && d < k && k < s.size() && sep( s[k] ) ); string e = get_filename_ext( s ); bool x = k - d - 1 < e.size() && sep( e[k - d - 1] ); XOV_COVER( "end" ); XOV_CHECK( !x && e.empty(), "none for a dot in a folder" ); }
XOV_PROOF( text_without_extension ) { const string s = any_path(); size_t d = xov::any_size( 7 ); xov::assume( last_dot( s, d ) && no_sep( s, d ) && d + 1 < s.size() ); string e = get_filename_without_ext( s ); XOV_COVER( "end" ); XOV_CHECK( part( e, s, 0, d ), "all before the extension" ); }
XOV_PROOF( text_without_extension_none ) { const string s = any_path(); xov::assume( no_dot( s ) ); string e = get_filename_without_ext( s ); XOV_COVER( "end" ); XOV_CHECK( part( e, s, 0, s.size() ), "all, if there is none" ); }
XOV_PROOF( text_without_extension_folder ) { const string s = any_path(); size_t d = xov::any_size( 7 ), k = xov::any_size( 7 ); xov::assume( last_dot( s, d ) && d < k && k < s.size() && sep( s[k] ) ); xov::assume( sep( s.substr( d + 1 )[k - d - 1] ) ); string e = get_filename_without_ext( s ); XOV_COVER( "end" ); XOV_CHECK( e == s, "all, for a dot in a folder" ); }
XOV_PROOF( text_folder ) { const string s = any_path(); where w = look( s ); string e = get_filename_folder( s ), f = get_filename_without_folder( s ); XOV_COVER( "end" ); XOV_CHECK( part( e, s, 0, w.dir ? w.file : s.size() ), "all up to the last separator" ); XOV_CHECK( part( f, s, w.file, s.size() - w.file ), "all behind it" ); }
XOV_PROOF( assigned ) { const string s = any_path(), t = any_path(); path p( t ), q( t ), r( t ); p = s; XOV_COVER( "end" ); XOV_CHECK( p.str() == s, "assigned text" ); string m = s; q = std::move( m ); XOV_CHECK( q.str() == s && q == p, "moved text" ); r = "a/b"; XOV_CHECK( r.str() == "a/b" && !( r == path( "a/c" ) ), "assigned literal" ); }
