#define XOV_CONCRETE
// S08: documents: what is written is read back, every layout of the same content is read alike, and what is no document is refused.
#include "xov.h"
#include <cstring>
#include "xo/system/assert.h"
#include "xo/container/prop_node.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/filesystem/path.cpp"
#include "xo/system/error_code.cpp"
#include "xo/serialization/char_stream.h"
#ifdef XOV_SYM
static const char* strstr_none( const char* h, const char* w ) noexcept { for ( ; *h; ++h ) { const char *a = h, *b = w; while ( *b && *a == *b ) ++a, ++b; if ( !*b ) return h; } return nullptr; }
#define strstr strstr_none
#endif
#include "xo/serialization/char_stream.cpp"
#include "xo/serialization/prop_node_serializer.cpp"
#include "xo/serialization/prop_node_serializer_zml.cpp"
using namespace xo;
using std::string;
#ifdef XOV_SYM
// the C functions by their definition, the log and the file system by their contracts
extern "C" int strncmp( const char* a, const char* b, size_t n ) noexcept { for ( size_t k = 0; k < n; ++k ) { if ( a[k] != b[k] ) return a[k] < b[k] ? -1 : 1; if ( a[k] == 0 ) return 0; } return 0; }
extern "C" size_t strcspn( const char* s, const char* r ) noexcept { size_t n = 0; while ( s[n] && !strchr( r, s[n] ) ) ++n; return n; }
extern "C" int isgraph( int c ) noexcept { return c > 32 && c < 127; }
namespace xo { namespace log { bool test_log_level( level ) { return false; } void flush() {} void log_string( level, const string& ) {} } string load_string( const path&, error_code* ) { return string(); } }
// stringf of three octal digits, and of an error message
static string octal( const char* f, int c ) { if ( f[0] != '\\' ) return "error"; char b[5] = { '\\', char( '0' + ( c / 64 ) % 8 ), char( '0' + ( c / 8 ) % 8 ), char( '0' + c % 8 ), 0 }; return string( b, 4 ); }
XOV_STUB( octal, "xo::stringf(", octal, "" );
#define OPTS XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 16 ); XOV_OPT( "charmax", 400 ); XOV_OPT( "paths", 5000 )
// the reader on sequences of tokens: the tokenizer by its contract, it gives the next token and says whether it was quoted
struct token { string t; bool q; };
static token* tokens; static size_t token_count, current; static char_stream* stream;
static string next_token( char_stream& s ) { if ( current >= token_count ) { s.token_quoted_ = false; return string(); } const token& k = tokens[current++]; s.token_quoted_ = k.q; return k.t; }
#define WRITERS "nothing characters characters_concise value_word label_word shape0 shape0q shape1 shape1q shape2 shape2q shape3 shape3q shape4 shape4q shape5 shape5q shape6 shape6q"
XOV_STUB( token, "xo::char_stream::get_token(", next_token, WRITERS );
template< size_t N > static prop_node read( token ( &t )[N], error_code& e ) { tokens = t; token_count = N; current = 0; return parse_zml( "", &e ); }
// any text of fixed length the tokenizer can give that is not an operator, quoted or not
static string chars( size_t n ) { string s; for ( size_t i = 0; i < n; ++i ) { const char c = xov::any_char( "ab" ); xov::assume( c != 0 ); s += c; } return s; }
static token text( bool label, size_t n = 2, bool q = false ) { token k; k.t = chars( n ); k.q = q; if ( n > 0 ) xov::assume( ( k.t[0] != '$' ) & ( k.t[0] != '@' ) ); if ( !q ) for ( auto o : { "=", ": ", "{", "}", "[", "]", "#", "<<", ">>", "//", "/*", "*/" } ) xov::assume( !( k.t == o ) ); if ( label && !q ) xov::assume( ( k.t[0] > 32 ) & ( k.t[0] < 127 ) ); for ( size_t i = 1; i < n; ++i ) xov::assume( !( ( k.t[i - 1] == '$' ) & ( k.t[i] == '{' ) ) ); return k; }
static token S( const char* s ) { return { s, false }; }
static bool leaf( const std::pair<string, prop_node>& c, const token& l, const token& v ) { return c.first == l.t && c.second.get_str() == v.t && c.second.size() == 0; }
static bool element( const std::pair<string, prop_node>& c, const token& v ) { return c.first.empty() && c.second.get_str() == v.t && c.second.size() == 0; }
XOV_PROOF( quoted_value ) { OPTS; token l = text( true ), v = text( false, 2, true ), t[] = { l, S( "=" ), v }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.get_str().empty() && leaf( pn.at( 0 ), l, v ), "text between quotes is a value whatever it is" ); }
XOV_PROOF( quoted_label ) { OPTS; token l = text( true, 1, true ), v = text( false, 1, true ), t[] = { l, S( "=" ), v }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.get_str().empty() && leaf( pn.at( 0 ), l, v ), "or a label" ); }
XOV_PROOF( quoted_element ) { OPTS; token l = text( true ), v = text( false, 1, true ), w = text( false, 0, true ), t[] = { l, S( "[" ), v, w, v, S( "]" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.at( 0 ).second.size() == 3 && element( pn.at( 0 ).second.at( 0 ), v ) && element( pn.at( 0 ).second.at( 1 ), w ) && element( pn.at( 0 ).second.at( 2 ), v ), "or an element, also if it is empty" ); }
XOV_PROOF( values ) { OPTS; token l = text( true ), v = text( false ), m = text( true ), w = text( false ), t[] = { l, S( "=" ), v, m, S( ": " ), w }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 2 && pn.get_str().empty() && leaf( pn.at( 0 ), l, v ) && leaf( pn.at( 1 ), m, w ), "each label with its value, in order" ); }
XOV_PROOF( groups_read ) { OPTS; token l = text( true ), m = text( true ), v = text( false ), n = text( true ), t[] = { l, S( "{" ), m, S( "=" ), v, n, S( "{" ), S( "}" ), S( "}" ), m, S( "=" ), v }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 2 && pn.at( 0 ).first == l.t && pn.at( 0 ).second.size() == 2 && pn.at( 0 ).second.get_str().empty(), "a group is one item" ); const prop_node& g = pn.at( 0 ).second; XOV_CHECK( leaf( g.at( 0 ), m, v ) && g.at( 1 ).first == n.t && g.at( 1 ).second.empty() && leaf( pn.at( 1 ), m, v ), "with its items" ); }
XOV_PROOF( arrays_read ) { OPTS; token l = text( true ), v = text( false ), w = text( false ), t[] = { l, S( "=" ), S( "[" ), v, w, S( "[" ), w, S( "]" ), S( "{" ), l, S( "=" ), v, S( "}" ), S( "]" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.at( 0 ).first == l.t && pn.at( 0 ).second.size() == 4, "an array is one item" ); const prop_node& a = pn.at( 0 ).second; XOV_CHECK( element( a.at( 0 ), v ) && element( a.at( 1 ), w ) && a.at( 2 ).second.size() == 1 && element( a.at( 2 ).second.at( 0 ), w ) && a.at( 3 ).second.size() == 1 && leaf( a.at( 3 ).second.at( 0 ), l, v ), "with its elements, in order" ); }
XOV_PROOF( both ) { OPTS; token l = text( true ), v = text( false ), m = text( true ), w = text( false ), t[] = { l, S( "=" ), v, S( "{" ), m, S( "=" ), w, S( "}" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.at( 0 ).first == l.t && pn.at( 0 ).second.get_str() == v.t && pn.at( 0 ).second.size() == 1 && leaf( pn.at( 0 ).second.at( 0 ), m, w ), "an item can have a value and a group" ); }
XOV_PROOF( unended ) { OPTS; token l = text( true ), v = text( false ), t[] = { l, S( "{" ), l, S( "=" ), v }, u[] = { l, S( "=" ), S( "[" ), v }, x[] = { l, S( "{" ), l, S( "{" ), S( "}" ) }; error_code e, f, g; read( t, e ); read( u, f ); read( x, g ); XOV_COVER( "end" ); XOV_CHECK( e.bad() && f.bad() && g.bad(), "a group or array must end" ); }
XOV_PROOF( malformed ) { OPTS; token l = text( true ), v = text( false ), t[] = { l, v, v }, u[] = { S( "{" ), l, S( "=" ), v, S( "}" ) }, x[] = { S( "[" ), v, S( "]" ) }; error_code e, f, g; read( t, e ); read( u, f ); read( x, g ); XOV_COVER( "end" ); XOV_CHECK( e.bad(), "a label needs a value" ); XOV_CHECK( f.bad() && g.bad(), "a group or array needs an item it belongs to" ); tokens = t; token_count = 3; current = 0; XOV_CHECK( xov::thrown( [&] { parse_zml( "" ); } ), "an error without a place to report it is thrown" ); }
XOV_PROOF( macros ) { OPTS; token l = text( true ), m = text( true ), v = text( false ), w = text( false ), t[] = { S( "$m" ), S( "=" ), v, l, S( "{" ), S( "$m" ), S( "=" ), w, m, S( "=" ), S( "$m" ), S( "}" ), m, S( "=" ), S( "$m" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 2 && pn.at( 0 ).second.size() == 1 && leaf( pn.at( 0 ).second.at( 0 ), m, w ) && leaf( pn.at( 1 ), m, v ), "a variable is the last one defined in the same or an enclosing group" ); }
XOV_PROOF( macro_scope ) { OPTS; token l = text( true ), v = text( false ), t[] = { l, S( "{" ), S( "$m" ), S( "=" ), v, S( "}" ), l, S( "=" ), S( "$m" ) }, u[] = { l, S( "=" ), S( "$n" ), S( "$n" ), S( "=" ), v }, x[] = { l, S( "=" ), S( "a${m}" ) }, y[] = { l, S( "=" ), S( "@b" ) }; error_code e, f, g, h; read( t, e ); read( u, f ); read( x, g ); read( y, h ); XOV_COVER( "end" ); XOV_CHECK( e.bad() && f.bad() && g.bad() && h.bad(), "what is not defined, or not yet, or no more, is refused" ); }
XOV_PROOF( macro_group ) { OPTS; token l = text( true ), m = text( true ), v = text( false ), t[] = { S( "$m" ), S( "{" ), m, S( "=" ), v, S( "}" ), l, S( "=" ), S( "$m" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.at( 0 ).first == l.t && pn.at( 0 ).second.size() == 1 && leaf( pn.at( 0 ).second.at( 0 ), m, v ), "a variable can be a group" ); }
XOV_PROOF( inline_macro ) { OPTS; token l = text( true ), v = text( false ), t[] = { S( "$m" ), S( "=" ), v, l, S( "=" ), S( "a${m}b${m}" ) }; error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 1 && pn.at( 0 ).second.get_str() == "a" + v.t + "b" + v.t, "a variable within text" ); }
XOV_PROOF( references ) { OPTS; token l = text( true ), v = text( false ), t[] = { S( "a" ), S( "{" ), S( "b" ), S( "=" ), v, S( "}" ), l, S( "=" ), S( "@a.b" ), l, S( "=" ), S( "@a" ) }; xov::assume( l.t != "a" ); error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 3 && leaf( pn.at( 1 ), l, v ) && pn.at( 2 ).second == pn.at( 0 ).second && pn.at( 0 ).second.size() == 1, "a copy of an earlier item" ); }
// an included file by what reading it gives
static prop_node* file_content; static path* file_name;
static prop_node included( const path& p, error_code*, path, std::vector<path>* ) { *file_name = p; return *file_content; }
XOV_STUB( load, "xo::load_zml(", included, "" );
XOV_PROOF( includes ) { OPTS; token l = text( true ), v = text( false ), t[] = { l, S( "=" ), v, S( "<<" ), S( "a.zml" ), S( ">>" ), l, S( "{" ), S( "<<" ), S( "/d/b.zml" ), S( ">>" ), S( "}" ) }; prop_node c; path p; file_content = &c; file_name = &p; token m = text( true ), w = text( false ); c.add_child( m.t ).set_value( string( w.t ) ); error_code e; prop_node pn = read( t, e ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.size() == 3 && leaf( pn.at( 0 ), l, v ) && leaf( pn.at( 1 ), m, w ) && pn.at( 2 ).second == c, "the items of the file in place of its name" ); XOV_CHECK( p.str() == "/d/b.zml", "the file named" ); }
XOV_PROOF( include_folder ) { OPTS; token t[] = { S( "<<" ), S( "a.zml" ), S( ">>" ) }; prop_node c; path p; file_content = &c; file_name = &p; tokens = t; token_count = 3; current = 0; char_stream s( "" ); error_code e; std::vector<path> f; prop_node pn = parse_zml( s, &e, path( "x/y" ), &f ); XOV_COVER( "end" ); XOV_CHECK( e.good() && pn.empty() && p.str() == "x/y/a.zml" && f.size() == 1 && f[0] == p, "in the folder of the file that includes it, and reported" ); }
#endif
#ifndef OPTS
#define OPTS (void)0
static string chars( size_t n ) { string s; for ( size_t i = 0; i < n; ++i ) { char c = xov::any_char( "a {=:\"'\\#/<\n\xff" ); xov::assume( c != 0 ); s += c; } return s; }
#endif
// what is written is read back, with every character
static bool sane( const string& s, bool label ) { return s.empty() ? !label : ( s[0] != '$' ) & ( s[0] != '@' ) & ( s[0] != 127 ); }
template< class W > static bool back( const prop_node& pn ) { std::ostringstream o; W( pn ).write_stream( o ); const string s = o.str(); error_code e; char_stream c{ string( s ) }; prop_node q = parse_zml( c, &e, path() ); return e.good() && q == pn; }
template< class W, size_t L, size_t V > static void one() { OPTS; const string l = chars( L ), v = chars( V ); xov::assume( sane( l, true ) ); xov::assume( sane( v, false ) ); prop_node pn; pn.add_child( l ).set_value( string( v ) ); XOV_COVER( "end" ); XOV_CHECK( back<W>( pn ), "a label and a value" ); }
XOV_PROOF( nothing ) { OPTS; prop_node pn; XOV_COVER( "end" ); XOV_CHECK( back<prop_node_serializer_zml>( pn ) && back<prop_node_serializer_zml_concise>( pn ), "an empty document" ); }
XOV_PROOF( characters ) { one<prop_node_serializer_zml, 1, 1>(); }
XOV_PROOF( characters_concise ) { one<prop_node_serializer_zml_concise, 1, 1>(); }
template< class W > static void value2() { OPTS; const string v = chars( 2 ); xov::assume( sane( v, false ) && !( v[0] == '$' ) ); prop_node pn; pn.add_child( "a" ).set_value( string( v ) ); XOV_COVER( "end" ); XOV_CHECK( back<W>( pn ), "a longer value" ); }
XOV_PROOF( value_word ) { value2<prop_node_serializer_zml>(); }
XOV_PROOF( label_word ) { OPTS; const string l = chars( 2 ); xov::assume( sane( l, true ) ); prop_node pn; pn.add_child( l ); XOV_COVER( "end" ); XOV_CHECK( back<prop_node_serializer_zml>( pn ), "a longer label, with an empty value" ); }
// any character in one place of a tree with values, labels, arrays, groups, values with groups, empty ones
static prop_node tree( const string& v, int at, bool wide ) { const string x = "x"; const auto V = [&]( int i ) { return i == at ? v : x; }; prop_node pn; auto& g = pn.add_child( "g" ); g.add_child( "a" ).set_value( V( 0 ) ); g.add_child( V( 1 ) ).add_child( "b" ).set_value( string( x ) ); if ( wide ) for ( int i = 0; i < 4; ++i ) g.add_child( "e" ).add_child( "f" ).add_value( x ); auto& h = pn.add_child( V( 2 ) ); h.add_value( V( 3 ) ); h.add_child().add_value( V( 4 ) ); h.add_child().add_child( "c" ).set_value( string( x ) ); auto& k = pn.add_child( "k" ); k.set_value( V( 5 ) ); k.add_child( V( 6 ) ); return pn; }
template< class W > static void shape( int at, bool wide, bool quote ) { OPTS; const string v = chars( 1 ); xov::assume( quote ? ( v[0] == '{' ) | ( v[0] == '}' ) | ( v[0] == '[' ) | ( v[0] == ']' ) | ( v[0] == ' ' ) | ( v[0] == '=' ) | ( v[0] == '#' ) : ( v[0] >= 'a' ) & ( v[0] <= 'z' ) ); XOV_COVER( "end" ); XOV_CHECK( back<W>( tree( v, at, wide ) ), "every item in its place" ); }
XOV_PROOF( shape0 ) { shape<prop_node_serializer_zml>( 0, false, false ); }
XOV_PROOF( shape0q ) { shape<prop_node_serializer_zml_concise>( 0, false, true ); }
XOV_PROOF( shape1 ) { shape<prop_node_serializer_zml_concise>( 1, false, false ); }
XOV_PROOF( shape1q ) { shape<prop_node_serializer_zml>( 1, false, true ); }
XOV_PROOF( shape2 ) { shape<prop_node_serializer_zml>( 2, false, false ); }
XOV_PROOF( shape2q ) { shape<prop_node_serializer_zml_concise>( 2, false, true ); }
XOV_PROOF( shape3 ) { shape<prop_node_serializer_zml_concise>( 3, true, false ); }
XOV_PROOF( shape3q ) { shape<prop_node_serializer_zml>( 3, true, true ); }
XOV_PROOF( shape4 ) { shape<prop_node_serializer_zml>( 4, false, false ); }
XOV_PROOF( shape4q ) { shape<prop_node_serializer_zml_concise>( 4, false, true ); }
XOV_PROOF( shape5 ) { shape<prop_node_serializer_zml_concise>( 5, true, false ); }
XOV_PROOF( shape5q ) { shape<prop_node_serializer_zml>( 5, true, true ); }
XOV_PROOF( shape6 ) { shape<prop_node_serializer_zml>( 6, false, false ); }
XOV_PROOF( shape6q ) { shape<prop_node_serializer_zml_concise>( 6, false, true ); }
