// U09: names with a side, enumerations and dictionaries as text.
#include "xov.h"
#include <cstring>
#ifdef XOV_SYM // the C functions by their definition
extern "C" int strncmp( const char* a, const char* b, size_t n ) noexcept { for ( size_t k = 0; k < n; ++k ) { if ( a[k] != b[k] ) return a[k] < b[k] ? -1 : 1; if ( a[k] == 0 ) return 0; } return 0; }
static bool in_set( char c, const char* set ) { for ( ; *set; ++set ) if ( *set == c ) return true; return false; }
extern "C" size_t strcspn( const char* s, const char* set ) noexcept { size_t n = 0; while ( s[n] && !in_set( s[n], set ) ) ++n; return n; }
extern "C" size_t strspn( const char* s, const char* set ) noexcept { size_t n = 0; while ( s[n] && in_set( s[n], set ) ) ++n; return n; }
#endif
#include "xo/string/string_tools.cpp"
#include "xo/system/assert.h"
#include "xo/container/container_tools.h"
#include "xo/utility/side.h"
#include "xo/utility/smart_enum.h"
#include "xo/string/dictionary.h"
#ifndef XOV_SYM
#include <sstream>
#endif
using namespace xo;
using std::string;
static side any_side() { return side( int( xov::any_int( -1, 1 ) ) ); }
// s is the first n characters of t followed by p
static bool built( const string& s, const string& t, size_t n, const char* p, size_t m ) { return s.size() == n + m && xov::forall( 0, long( n ), [&]( size_t i ) { return s[i] == t[i]; } ) && ( m == 0 || ( s[n] == p[0] && ( m == 1 || s[n + 1] == p[1] ) ) ); }
static side side_of( const string& s ) { size_t n = s.size(); return n >= 2 && s[n - 2] == '_' ? ( s[n - 1] == 'l' ? side::left : s[n - 1] == 'r' ? side::right : side::none ) : side::none; }
XOV_PROOF( sides ) { side s = any_side(); XOV_COVER( "end" ); XOV_CHECK( mirrored( mirrored( s ) ) == s && ( mirrored( s ) == s ) == ( s == side::none ), "mirroring" ); XOV_CHECK( string( side_postfix( s ) ) == ( s == side::left ? "_l" : s == side::right ? "_r" : "" ), "postfix" ); }
XOV_PROOF( side_of_name ) { const string s = xov::any_string( "a_lr", 5 ); XOV_COVER( "end" ); XOV_CHECK( str_get_side( s ) == side_of( s ), "the side is in the last two characters" ); }
XOV_PROOF( removed ) { const string s = xov::any_string( "a_lr", 5 ); xov::assume( s.size() < 2000000000 ); string r = str_remove_side( s ); XOV_COVER( "end" ); XOV_CHECK( built( r, s, side_of( s ) == side::none ? s.size() : s.size() - 2, "", 0 ), "the name without its side" ); }
template< int D > static void set_sides() {
	const string s = xov::any_string( "a_lr", 5 ); xov::assume( s.size() < 2000000000 ); side d = side( D ), c = side_of( s ); string r = str_set_side( s, d ); size_t n = c == side::none ? s.size() : s.size() - 2; XOV_COVER( "end" ); if ( d == side::none ) XOV_CHECK( built( r, s, n, "", 0 ), "no side" ); else { XOV_CHECK( built( r, s, n, d == side::left ? "_l" : "_r", 2 ), "the side instead of what it was" ); XOV_CHECK( str_get_side( r ) == d, "and has it" ); }
}
XOV_PROOF( set_left ) { set_sides<-1>(); }
XOV_PROOF( set_none ) { set_sides<0>(); }
XOV_PROOF( set_right ) { set_sides<1>(); }
XOV_PROOF( mirrored_name ) { const string s = xov::any_string( "a_lr", 5 ); side c = side_of( s ); string r = str_mirrored_side( s ), m = s; str_mirror_side( m ); size_t n = c == side::none ? s.size() : s.size() - 2; const char* p = c == side::left ? "_r" : "_l"; XOV_COVER( "end" ); XOV_CHECK( built( r, s, n, p, c == side::none ? 0 : 2 ), "the same name on the other side" ); XOV_CHECK( built( m, s, n, p, c == side::none ? 0 : 2 ), "in place" ); }
XOV_PROOF( mirrored_twice ) { const string s = xov::any_string( "a_lr", 5 ); string r = str_mirrored_side( str_mirrored_side( s ) ); XOV_COVER( "end" ); XOV_CHECK( built( r, s, s.size(), "", 0 ), "mirrored twice" ); }
XOV_PROOF( appended_before ) { const string s = xov::any_string( "a_lr", 4 ), p = xov::any_string( "bc", 3 ); xov::assume( s.size() < 1000000000 && p.size() < 1000000000 ); side c = side_of( s ); string r = str_append_before_side( s, p ); size_t n = c == side::none ? s.size() : s.size() - 2, k = p.size(); XOV_COVER( "end" ); XOV_CHECK( r.size() == s.size() + k && xov::forall( 0, long( n ), [&]( size_t i ) { return r[i] == s[i]; } ), "starts as before" ); XOV_CHECK( xov::forall( 0, long( k ), [&]( size_t i ) { return r[n + i] == p[i]; } ), "then what is appended" ); XOV_CHECK( c == side::none || ( r[n + k] == '_' && r[n + k + 1] == s[s.size() - 1] ), "then the side" ); }
// enumerations: names that are parts of each other, of any length, with all separators
xo_smart_enum( one_name, only )
xo_smart_enum( plain, a, ab, abc, b )
xo_smart_enum_class( scoped_names, left, leftmost,right,   mid )
xo_smart_enum_class_type( typed, unsigned char, x , y	, z )
enum class given { first, second }; XO_DEFINE_ENUM_SERIALIZATION( given, 1st, 2nd )
template< class E, int N > static void enums( const char* const ( &names )[N] ) {
	const string s = xov::any_string( "abcxy", 4 ); E e = E( N - 1 ); const E old = e; int k = -1; for ( int i = 0; i < N; ++i ) if ( s == names[i] ) k = i; bool ok = from_str( s, e ); XOV_COVER( "end" ); XOV_CHECK( ok == ( k >= 0 ), "exactly the names are accepted" ); XOV_CHECK( e == ( ok ? E( k ) : old ), "and give their value, all others leave it alone" );
	for ( int i = 0; i < N; ++i ) { XOV_CHECK( to_str( E( i ) ) == names[i], "the name of each value" ); E f = E( ( i + 1 ) % N ); XOV_CHECK( from_str( names[i], f ) && f == E( i ), "the value of each name" ); }
}
XOV_PROOF( enum_single ) { enums<one_name>( { "only" } ); }
XOV_PROOF( enum_plain ) { enums<plain>( { "a", "ab", "abc", "b" } ); }
XOV_PROOF( enum_scoped ) { enums<scoped_names>( { "left", "leftmost", "right", "mid" } ); }
XOV_PROOF( enum_typed ) { enums<typed>( { "x", "y", "z" } ); }
XOV_PROOF( enum_given ) { enums<given>( { "1st", "2nd" } ); }
XOV_PROOF( enum_beyond ) { int v = int( xov::any_int( 4, 8 ) ); XOV_COVER( "end" ); XOV_CHECK( to_str( plain( v ) ).empty(), "a value without name has none" ); }
#ifndef XOV_SYM
XOV_BOUNDED( enum_streams ) {
	const char* names[] = { "left", "leftmost", "right", "mid" }; int i = int( xov::any_int( 0, 3 ) ), j = int( xov::any_int( 0, 4 ) ); std::ostringstream o; o << scoped_names( i ); XOV_CHECK( o.str() == names[i], "written by name" ); std::string t = o.str() + " " + ( j < 4 ? names[j] : "else" ); if ( xov::any_bool() ) t += "\n"; std::istringstream in( t ); scoped_names a = scoped_names::left, b = scoped_names::left; in >> a; XOV_CHECK( in && a == scoped_names( i ), "read by name" ); in >> b; XOV_CHECK( j < 4 ? in && b == scoped_names( j ) : !in && b == scoped_names::left, "also the last one, and failing for other names" );
}
#endif
// dictionaries and tables: the first entry that matches
XOV_PROOF( dictionaries ) {
	const string k0 = xov::any_string( "ab", 2 ), k1 = xov::any_string( "ab", 2 ), q = xov::any_string( "ab", 2 ); int v0 = int( xov::any_int( -9, 9 ) ), v1 = int( xov::any_int( -9, 9 ) ), w = int( xov::any_int( -9, 9 ) ); dictionary<int> d{ { v0, k0 }, { v1, k1 } }; bool known = q == k0 || q == k1; int r = 0; XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { r = d( q ); } ) == !known, "only known names" ); if ( known ) XOV_CHECK( r == ( q == k0 ? v0 : v1 ), "the first with that name" ); XOV_CHECK( d( q, w ) == ( q == k0 ? v0 : q == k1 ? v1 : w ), "or the default" );
	string s; XOV_CHECK( xov::thrown( [&] { s = d( w ); } ) == ( w != v0 && w != v1 ), "only known values" ); if ( w == v0 || w == v1 ) XOV_CHECK( s == ( w == v0 ? k0 : k1 ), "the first with that value" );
}
XOV_PROOF( lookups ) { const string q = xov::any_string( "ab", 3 ); int r = 0; bool t = xov::thrown( [&] { r = lookup<int>( q, { { "a", 1 }, { "ab", 2 }, { "a", 3 }, { "", 4 } } ); } ); int e = q == "a" ? 1 : q == "ab" ? 2 : q == "" ? 4 : 0; XOV_COVER( "end" ); XOV_CHECK( t == ( e == 0 ) && r == e, "the first entry with that name, or refused" ); }
#include "xo/string/stack_string.h"
XOV_PROOF( stacked ) { // each pop takes away what the last push added
	const string a = xov::any_string( "ab", 3 ), b = xov::any_string( "ab", 3 ), c = xov::any_string( "ab", 3 ); stack_string s; XOV_COVER( "end" ); XOV_CHECK( s.str().empty(), "empty at first" ); s.push_back( a ); XOV_CHECK( s.str() == a, "pushed" ); s.push_back( b ); XOV_CHECK( s.str() == a + b, "pushed behind" ); s.pop_back(); XOV_CHECK( s.str() == a, "popped" ); s.push_back( c ); XOV_CHECK( s.str() == a + c, "pushed again" ); s.pop_back(); s.pop_back(); XOV_CHECK( s.str().empty(), "all popped" );
	s.set( c ); XOV_CHECK( s.str() == c, "set" ); s.push_back( a ); XOV_CHECK( s.str() == c + a, "pushed behind" ); s.pop_back(); XOV_CHECK( s.str() == c, "popped" ); if ( !c.empty() ) { s.pop_back(); XOV_CHECK( s.str().empty(), "what was set is popped last" ); }
}
