#define XOV_CONCRETE
// S08: documents of other formats, and in files: INI, XML, and files that include others.
#include "xov.h"
#include <cstring>
#include "xo/system/assert.h"
#include "xo/container/prop_node.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/filesystem/path.cpp"
#include "xo/system/error_code.cpp"
#include "xo/serialization/prop_node_serializer.cpp"
#include "xo/serialization/prop_node_serializer_ini.cpp"
#include "xo/serialization/serialize.cpp"
#ifndef XOV_SYM
#include "xo/serialization/char_stream.h"
#include "xo/filesystem/filesystem.h"
#include <filesystem>
#include <fstream>
#include <unistd.h>
#endif
using namespace xo;
using std::string;
#ifdef XOV_SYM
extern "C" int isgraph( int c ) noexcept { return c > 32 && c < 127; }
namespace xo { namespace log { bool test_log_level( level ) { return false; } void flush() {} void log_string( level, const string& ) {} } }
static string message( const char*, int ) { return "error"; }
XOV_STUB( octal, "xo::stringf(", message, "" );
#define OPTS XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 16 ); XOV_OPT( "charmax", 400 ); XOV_OPT( "paths", 5000 )
#else
#define OPTS (void)0
#endif
static string word( const char* al = "ab" ) { const char c = xov::any_char( al ); xov::assume( c > 32 && c < 127 && c != '[' && c != ';' && c != '=' && c != ']' && c != ',' ); return string( 1, c ); }
// INI
static bool back( const prop_node& pn, const prop_node& r ) { std::ostringstream o; prop_node_serializer_ini w; w.write_pn_ = &pn; w.write_stream( o ); error_code e; prop_node q; std::istringstream i( o.str() ); prop_node_serializer_ini s; s.read_pn_ = &q; s.ec_ = &e; s.read_stream( i ); return e.good() && q == r; }
XOV_PROOF( ini ) { OPTS; const string v = word(), w = word(), k = word( "xy" ); xov::assume( k != "n" && k != "b" && k != "h" ); prop_node pn; pn.add_child( k ).set_value( string( v ) ); pn.add_child( "n" ).set_value( string( w ) ); auto& g = pn.add_child( k + "g" ); g.add_child( k ).set_value( string( w ) ); g.add_child( "b" ).set_value( string( v ) ); pn.add_child( "h" ).add_child( "b" ).set_value( string( v + " " + w ) ); XOV_COVER( "end" ); XOV_CHECK( back( pn, pn ), "items and groups are read back" ); }
XOV_PROOF( ini_order ) { OPTS; const string v = word(), w = word(); prop_node pn, r; pn.add_child( "g" ).add_child( "a" ).set_value( string( v ) ); pn.add_child( "m" ).set_value( string( w ) ); r.add_child( "m" ).set_value( string( w ) ); r.add_child( "g" ).add_child( "a" ).set_value( string( v ) ); XOV_COVER( "end" ); XOV_CHECK( back( pn, r ), "items are no part of a group before them" ); }
static prop_node ini_read( const string& s, error_code& e ) { prop_node q; std::istringstream i( s ); prop_node_serializer_ini r; r.read_pn_ = &q; r.ec_ = &e; r.read_stream( i ); return q; }
XOV_PROOF( ini_layout ) { OPTS; const string v = word(), w = word(); error_code e; prop_node q = ini_read( "\n; a=b\na = " + v + " \n\n[g]\n b=" + w + "\n;c\n[h]\n\na=" + v, e ), r; r.add_child( "a" ).set_value( string( v ) ); r.add_child( "g" ).add_child( "b" ).set_value( string( w ) ); r.add_child( "h" ).add_child( "a" ).set_value( string( v ) ); XOV_COVER( "end" ); XOV_CHECK( e.good() && q == r, "whatever the space, comments and empty lines" ); }
XOV_PROOF( ini_wrong ) { OPTS; const string v = word(), w = word(); error_code e; XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { ini_read( "a=b\n" + v + w + "\n", e ); } ), "a line must have a value" ); }
#ifdef XOV_SYM
// files that include others: reading a file by what is in it
static prop_node* contents; static int loads;
static prop_node read_file( const path& p, error_code* ) { ++loads; xov::assume( loads < 200 ); const string s = p.str(); if ( s == "d/a" ) return contents[0]; if ( s == "d/x/b" ) return contents[1]; if ( s == "d/x/c" ) return contents[2]; XOV_CHECK( false, "a file that was not asked for" ); return prop_node(); }
XOV_STUB( load, "xo::load_file(xo::path const&, xo::error_code*)", read_file, "" );
static prop_node& include( prop_node& p, const char* file ) { auto& i = p.add_child( "INCLUDE" ); i.add_child( "file" ).set_value( string( file ) ); return i; }
XOV_PROOF( include_place ) { OPTS; const string v = word(), w = word(), x = word(); prop_node c[3], r; contents = c; loads = 0; c[0].add_child( "k" ).set_value( string( v ) ); include( c[0], "x/b" ); c[0].add_child( "l" ).set_value( string( w ) ); c[1].add_child( "root" ).add_child( "m" ).set_value( string( x ) ); prop_node q = load_file_with_include( path( "d/a" ) ); r.add_child( "k" ).set_value( string( v ) ); r.add_child( "root" ).add_child( "m" ).set_value( string( x ) ); r.add_child( "l" ).set_value( string( w ) ); XOV_COVER( "end" ); XOV_CHECK( q == r && loads == 2, "what the file has, in its place" ); }
XOV_PROOF( include_inside ) { OPTS; const string v = word(), x = word(); prop_node c[3], r; contents = c; loads = 0; auto& g = c[0].add_child( "g" ); g.add_child( "k" ).set_value( string( v ) ); include( g, "x/b" ); include( c[0], "x/b" ); include( c[1].add_child( "root" ), "c" ); c[2].add_child( "n" ).set_value( string( x ) ); prop_node q = load_file_with_include( path( "d/a" ) ); prop_node n; n.add_child( "n" ).set_value( string( x ) ); auto& rg = r.add_child( "g" ); rg.add_child( "k" ).set_value( string( v ) ); rg.add_child( "root", n ); r.add_child( "root", n ); XOV_COVER( "end" ); XOV_CHECK( q == r && loads == 5, "inside a group, in files included, from the folder each is in" ); }
XOV_PROOF( include_merge ) { OPTS; const string v = word(), x = word(), y = word(); prop_node c[3], r; contents = c; loads = 0; c[0].add_child( "k" ).set_value( string( v ) ); include( c[0], "x/b" ).add_child( "merge_children" ).set_value( string( "1" ) ); auto& b = c[1].add_child( "root" ); b.add_child( "k" ).set_value( string( x ) ); b.add_child( "m" ).set_value( string( y ) ); prop_node q = load_file_with_include( path( "d/a" ) ); r.add_child( "k" ).set_value( string( v ) ); r.add_child( "m" ).set_value( string( y ) ); XOV_COVER( "end" ); XOV_CHECK( q == r && loads == 2, "or merged: what is there already is kept" ); }
XOV_PROOF( include_roots ) { OPTS; prop_node c[3]; contents = c; loads = 0; include( c[0], "x/b" ); c[1].add_child( "a" ); if ( xov::any_bool() ) c[1].add_child( "b" ); else c[1] = prop_node(); XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { load_file_with_include( path( "d/a" ) ); } ), "a file that is included must have one root" ); }
#endif
#ifndef XOV_SYM
namespace sf = std::filesystem;
struct scratch { string dir; scratch() { char t[] = "/tmp/xov_s08_XXXXXX"; dir = mkdtemp( t ); } ~scratch() { std::error_code e; if ( dir.compare( 0, 13, "/tmp/xov_s08_" ) == 0 ) sf::remove_all( dir, e ); } };
static string value() { string s = xov::any_string( "ab {}[]=:\"'\\#/<>\n\t\xff;,*.", 3 ); if ( !s.empty() && ( s[0] == '$' || s[0] == '@' ) ) s[0] = 'a'; return s; }
static string label() { string s = value(); return s.empty() ? string( "l" ) : s; }
static string letters() { string s = xov::any_string( "abc", 2 ); return s.empty() ? string( "z" ) : s; }
static prop_node array( int depth );
static prop_node group( int depth, bool v ) { prop_node p; if ( v && xov::any_bool() ) p.set_value( value() ); for ( size_t n = xov::any_size( 3 ); n > 0; --n ) { int k = depth > 0 ? int( xov::any_int( 0, 3 ) ) : 0; if ( k == 0 ) p.add_child( label() ).set_value( value() ); else if ( k == 1 ) p.add_child( label(), array( depth - 1 ) ); else p.add_child( label(), group( depth - 1, true ) ); } return p; }
static prop_node array( int depth ) { prop_node p; for ( size_t n = xov::any_size( 3 ); n > 0; --n ) { int k = depth > 0 ? int( xov::any_int( 0, 2 ) ) : 0; if ( k == 0 ) p.add_value( value() ); else if ( k == 1 ) p.add_child( "", array( depth - 1 ) ); else p.add_child( "", group( depth - 1, false ) ); } return p; }
template< class W > static string written( const prop_node& pn ) { std::ostringstream o; W( pn ).write_stream( o ); return o.str(); }
static bool read_alike( const string& s, const prop_node& pn ) { error_code e; prop_node q = parse_zml( s.c_str(), &e ); return e.good() && q == pn; }
XOV_BOUNDED( trees ) { prop_node pn = group( 3, false ); XOV_CHECK( read_alike( written<prop_node_serializer_zml>( pn ), pn ), "what is written is read back" ); XOV_CHECK( read_alike( written<prop_node_serializer_zml_concise>( pn ), pn ), "concise as well" ); scratch t; path f( t.dir + "/f.zml" ); save_file( pn, f ); XOV_CHECK( load_file( f ) == pn, "from a file" ); }
// the same content in another layout
static string space() { static const char* s[] = { " ", "\n", "\t ", " # c {\n", "/* = */ ", "// }\n", "\r\n" }; return s[xov::any_int( 0, 6 )]; }
static string text( const string& s ) { bool plain = !s.empty(); for ( char c : s ) plain &= ( c >= 'a' && c <= 'z' ); if ( plain && xov::any_bool() ) return s; string r; const char q = xov::any_bool() || s.find( '\'' ) != string::npos ? '"' : '\''; for ( unsigned char c : s ) if ( c == q || c == '\\' ) r += string( "\\" ) + char( c ); else if ( c == '\n' ) r += "\\n"; else if ( c == '\t' ) r += "\\t"; else r += char( c ); return q + r + q; }
static string layout( const prop_node& pn ) { string s; for ( auto& c : pn ) { s += space(); const bool arr = c.second.size() > 0 && c.second.begin()->first.empty(); if ( !c.first.empty() ) { s += text( c.first ) + space(); if ( c.second.has_value() || c.second.size() == 0 ) s += ( xov::any_bool() ? "=" : ": " ) + space() + text( c.second.get_str() ); else if ( xov::any_bool() ) s += "="; } else if ( c.second.size() == 0 ) s += text( c.second.get_str() ); if ( c.second.size() > 0 ) s += space() + ( arr ? "[" : "{" ) + layout( c.second ) + space() + ( arr ? "]" : "}" ); s += space(); } return s; }
XOV_BOUNDED( layouts ) { prop_node pn = group( 2, false ); const string s = layout( pn ); XOV_CHECK( read_alike( s, pn ), "space, comments and quotes make no difference" ); }
// whatever the text, it is read or refused
XOV_BOUNDED( any_text ) { const string s = xov::any_string( "a={}[]\"'#\n /<>@$:*\\.", 8 ); error_code e; prop_node q = parse_zml( s.c_str(), &e ); const bool bad = e.bad(); XOV_CHECK( bad == xov::thrown( [&] { parse_zml( s.c_str() ); } ), "an error is reported or thrown" ); }
// XML: names of letters, values at the leaves
static string xml_value() { string s = xov::any_string( "a<>&\"' ;#b\n\xff", 4 ); return "v" + s + "."; }
static prop_node xml( int depth ) { prop_node p; size_t n = depth > 0 ? xov::any_size( 3 ) : 0; if ( n == 0 ) { if ( xov::any_bool() ) p.set_value( xml_value() ); return p; } for ( ; n > 0; --n ) p.add_child( letters(), xml( depth - 1 ) ); return p; }
XOV_BOUNDED( xml_trees ) { prop_node pn; pn.add_child( letters(), xml( 3 ) ); scratch t; path f( t.dir + "/f.xml" ); save_file( pn, f ); XOV_CHECK( load_file( f ) == pn, "what is written is read back" ); std::ofstream( f.str() ) << "<?xml version='1.0'?>\n<!-- c --><r  a='1' b = \"x&amp;y\"> <c> v </c> <d/>\n</r>"; prop_node q = load_file( f ); XOV_CHECK( q.size() == 1 && q.at( 0 ).first == "r" && q.at( 0 ).second.size() == 4 && q.at( 0 ).second.at( 0 ).second.get_str() == "1" && q.at( 0 ).second.at( 1 ).second.get_str() == "x&y" && q.at( 0 ).second.at( 2 ).first == "c" && q.at( 0 ).second.at( 3 ).second.empty(), "attributes are items" ); }
XOV_FINDING( xml_group_value ) { prop_node pn; auto& a = pn.add_child( "a" ); a.set_value( letters() ); a.add_child( letters() ).set_value( letters() ); scratch t; path f( t.dir + "/f.xml" ); save_file( pn, f ); XOV_CHECK( load_file( f ) == pn, "a value of an item with sub-items" ); }
XOV_BOUNDED( ini_files ) { prop_node pn, r; std::vector< std::pair< string, prop_node > > g; size_t n = xov::any_size( 3 ); for ( size_t i = 0; i < n; ++i ) { string k = "k" + std::to_string( i ), v = letters(); pn.add_child( k ).set_value( v ); } n = xov::any_size( 3 ); for ( size_t i = 0; i < n; ++i ) { auto& c = pn.add_child( "g" + std::to_string( i ) ); size_t m = 1 + xov::any_size( 2 ); for ( size_t j = 0; j < m; ++j ) c.add_child( letters() + std::to_string( j ) ).set_value( letters() + " " + letters() ); } scratch t; path f( t.dir + "/f.ini" ); save_file( pn, f ); XOV_CHECK( load_file( f ) == pn, "what is written is read back" ); }
XOV_BOUNDED( files ) { // formats by the extension or by name, files that are not there, files that include themselves
	scratch t; prop_node pn; pn.add_child( "r" ).add_child( "a" ).set_value( letters() ); path f( t.dir + "/f.txt" ); error_code e, g, h, k; XOV_CHECK( !save_file( pn, f, &e ) && e.bad() && !exists( f ), "an unknown format is refused" ); XOV_CHECK( save_file( pn, f, "zml" ) && load_file( f, "zml" ) == pn, "a format that is named" ); XOV_CHECK( load_file( f, &g ).empty() && g.bad() && load_file( path( t.dir + "/n.zml" ), &h ).empty() && h.bad(), "a file that cannot be read" ); XOV_CHECK( !save_file( pn, path( t.dir + "/n/f.zml" ), &k ) && k.bad(), "or be made" );
	path l( t.dir + "/l.zml" ); std::ofstream( l.str() ) << "r { INCLUDE { file = l.zml } }"; XOV_CHECK( xov::thrown( [&] { load_file_with_include( l ); } ), "a file that includes itself is refused" );
	sf::create_directory( t.dir + "/d" ); std::ofstream( t.dir + "/d/i.zml" ) << "x = 1 << j.zml >>"; std::ofstream( t.dir + "/d/j.zml" ) << "y = 2"; std::ofstream( t.dir + "/m.zml" ) << "<< d/i.zml >> z = 3 q { INCLUDE { file = f2.zml merge_children = 1 } a = k }"; save_file( pn, path( t.dir + "/f2.zml" ) ); std::vector<path> inc; prop_node q = load_zml( path( t.dir + "/m.zml" ), nullptr, path(), &inc ); XOV_CHECK( q.size() == 4 && q.get<int>( "x" ) == 1 && q.get<int>( "y" ) == 2 && q.get<int>( "z" ) == 3 && inc.size() >= 1, "included, from the folder of the file" ); prop_node m = load_file_with_include( path( t.dir + "/m.zml" ) ); XOV_CHECK( m.get_child( "q" ).size() == 1 && m.get_child( "q" ).get_str( "a" ) == "k", "merged" );
}
#endif
