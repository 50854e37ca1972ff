// S01: taking, testing, trimming and converting parts of strings.
#include "xov.h"
#include "xo/string/string_tools.cpp"
using namespace xo;
using std::string;
static bool part( const string& r, const string& s, size_t from, size_t n ) { return r.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return r[i] == s[from + i]; } ); }
static bool has( const char* set, char c ) { string z( set ); return xov::exists( 0, long( z.size() ), [&]( size_t i ) { return z[i] == c; } ); }
XOV_PROOF( left ) {
	const string s = xov::any_string(); int n = int( xov::any_int( -6, 6 ) ); if ( xov::sym() ) { n = xov::any_i32(); xov::assume( s.size() < 2000000000 && n > -2000000000 ); } size_t L = s.size(); string r = left_str( s, n ); XOV_COVER( "end" );
	size_t k = n >= 0 ? ( size_t( n ) < L ? size_t( n ) : L ) : ( size_t( -n ) < L ? L + n : 0 ); XOV_CHECK( part( r, s, 0, k ), "the first n characters, or all but the last n" );
}
XOV_PROOF( right ) {
	const string s = xov::any_string(); int n = int( xov::any_int( -6, 6 ) ); if ( xov::sym() ) { n = xov::any_i32(); xov::assume( s.size() < 2000000000 && n > -2000000000 ); } size_t L = s.size(); string r = right_str( s, n ); XOV_COVER( "end" );
	size_t k = n >= 0 ? ( size_t( n ) < L ? size_t( n ) : L ) : ( size_t( -n ) < L ? L + n : 0 ); XOV_CHECK( part( r, s, L - k, k ), "the last n characters, or all but the first n" );
}
XOV_PROOF( middle ) {
	const string s = xov::any_string(); size_t p = xov::any_size( 6 ), n = xov::any_bool() ? string::npos : xov::any_size( 6 ); size_t L = s.size(); string r; bool t = xov::thrown( [&] { r = mid_str( s, p, n ); } ); XOV_CHECK( t == ( p > L ), "the start must be in the string" );
	if ( !t ) { XOV_COVER( "end" ); XOV_CHECK( part( r, s, p, n < L - p ? n : L - p ), "n characters from the start, as far as there are" ); }
}
XOV_PROOF( prefix ) {
	const string s = xov::any_string( "ab" ), p = xov::any_string( "ab" ); bool b = str_begins_with( s, p ); XOV_COVER( "end" );
	XOV_CHECK( b == ( p.size() <= s.size() && xov::forall( 0, long( p.size() ), [&]( size_t i ) { return s[i] == p[i]; } ) ), "begins with" ); char c = xov::any_char( "ab" ); XOV_CHECK( str_begins_with( s, c ) == ( s.size() > 0 && s[0] == c ), "begins with a character" );
}
XOV_PROOF( prefix_at ) {
	const string s = xov::any_string( "ab" ), p = xov::any_string( "ab", 2 ); size_t k = xov::any_size( 5 ); bool b = str_begins_with( s, p, k ); XOV_COVER( "end" ); XOV_CHECK( b == ( k < s.size() && p.size() <= s.size() - k && xov::forall( 0, long( p.size() ), [&]( size_t i ) { return s[k + i] == p[i]; } ) ), "continues with at a position" );
}
XOV_PROOF( suffix ) {
	const string s = xov::any_string( "ab" ), p = xov::any_string( "ab" ); bool b = str_ends_with( s, p ); XOV_COVER( "end" );
	XOV_CHECK( b == ( p.size() <= s.size() && xov::forall( 0, long( p.size() ), [&]( size_t i ) { return s[s.size() - p.size() + i] == p[i]; } ) ), "ends with" ); char c = xov::any_char( "ab" ); XOV_CHECK( str_ends_with( s, c ) == ( s.size() > 0 && s[s.size() - 1] == c ), "ends with a character" );
}
static bool at( const string& s, size_t k, const string& p ) { return xov::forall( 0, long( p.size() ), [&]( size_t i ) { return s[k + i] == p[i]; } ); }
XOV_PROOF( contains ) {
	const string s = xov::any_string( "ab" ), p = xov::any_string( "ab", 3 ); long last = long( s.size() ) - long( p.size() ); XOV_COVER( "end" );
	if ( str_contains( s, p ) ) { size_t k = in_str( s, p ); XOV_CHECK( long( k ) <= last && at( s, k, p ), "a contained string occurs" ); XOV_CHECK( xov::forall( 0, long( k ), [&]( size_t j ) { return !at( s, j, p ); } ), "its first occurrence is found" ); }
	else XOV_CHECK( xov::forall( 0, last + 1, [&]( size_t j ) { return !at( s, j, p ); } ) && in_str( s, p ) == string::npos, "a string that is not contained occurs nowhere" );
	char c = xov::any_char( "abc" ); XOV_CHECK( str_contains( s, c ) == xov::exists( 0, long( s.size() ), [&]( size_t i ) { return s[i] == c; } ), "contains a character" );
}
static bool sp( char c ) { return ( c == ' ' ) | ( c == '\t' ) | ( c == '\r' ) | ( c == '\n' ) | ( c == '\f' ) | ( c == '\v' ); }
XOV_PROOF( trim ) {
	const string s = xov::any_string( "a \t\r\n\f\v" ); size_t L = s.size(); const string r = trim_str( s ); size_t n = r.size(); XOV_COVER( "end" );
	if ( n ) { XOV_CHECK( !sp( r[0] ) && !sp( r[n - 1] ), "no white space at the ends" ); size_t f = s.find_first_not_of( " \t\r\n\f\v" ); XOV_CHECK( f + n <= L && part( r, s, f, n ), "the text is a part of the original" ); XOV_CHECK( xov::forall( 0, long( f ), [&]( size_t i ) { return sp( s[i] ); } ) && xov::forall( long( f + n ), long( L ), [&]( size_t i ) { return sp( s[i] ); } ), "only white space is removed" ); }
	else XOV_CHECK( xov::forall( 0, long( L ), [&]( size_t i ) { return sp( s[i] ); } ), "empty only if there is nothing but white space" );
}
XOV_PROOF( trim_left ) {
	const string s = xov::any_string( "a \t\n" ); size_t L = s.size(); const string r = trim_left_str( s ); size_t n = r.size(); XOV_COVER( "end" ); XOV_CHECK( n <= L && part( r, s, L - n, n ), "the end is kept" ); XOV_CHECK( n == 0 || !sp( r[0] ), "no white space in front" ); XOV_CHECK( xov::forall( 0, long( L - n ), [&]( size_t i ) { return sp( s[i] ); } ), "only white space is removed" );
}
XOV_PROOF( trim_right ) {
	const string s = xov::any_string( "a \t\n" ); size_t L = s.size(); const string r = trim_right_str( s ); size_t n = r.size(); XOV_COVER( "end" ); XOV_CHECK( n <= L && part( r, s, 0, n ), "the start is kept" ); XOV_CHECK( n == 0 || !sp( r[n - 1] ), "no white space at the end" ); XOV_CHECK( xov::forall( long( n ), long( L ), [&]( size_t i ) { return sp( s[i] ); } ), "only white space is removed" );
}
template< size_t N > void copying() {
	const string s = xov::any_string(); char b[5] = { 'x', 'x', 'x', 'x', 'x' }; size_t k = copy_str( s, b, N ); XOV_COVER( "end" );
	if ( N ) { XOV_CHECK( k == ( s.size() < N - 1 ? s.size() : N - 1 ) && b[k] == 0, "as much as fits, terminated" ); for ( size_t i = 0; i < 4; ++i ) if ( i < k ) XOV_CHECK( b[i] == s[i], "copied" ); else if ( i > k ) XOV_CHECK( b[i] == 'x', "nothing is written behind the end" ); } else XOV_CHECK( k == 0 && b[0] == 'x', "nothing is copied to an empty buffer" );
}
XOV_PROOF( copying0 ) { copying<0>(); }
XOV_PROOF( copying1 ) { copying<1>(); }
XOV_PROOF( copying4 ) { copying<4>(); }
XOV_PROOF( replace_chars ) {
	string s = xov::any_string( "abc" ); const string o = s; char c = xov::any_char( "abc" ), d = xov::any_char( "abc" ); replace_char( s, c, d ); XOV_COVER( "end" ); XOV_CHECK( s.size() == o.size() && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return s[i] == ( o[i] == c ? d : o[i] ); } ), "every occurrence and nothing else is replaced" );
	string t = replace_char( string( o ), c, d ); XOV_CHECK( t == s, "on a copy" );
}
XOV_PROOF( lower ) { const string o = xov::any_string( "aAzZ@[`{0" ); string s = to_lower( o ); XOV_COVER( "end" ); XOV_CHECK( s.size() == o.size() && xov::forall( 0, long( o.size() ), [&]( size_t i ) { char c = o[i]; return s[i] == ( ( c >= 'A' ) & ( c <= 'Z' ) ? char( c + 32 ) : c ); } ), "capital letters become small ones" ); }
XOV_PROOF( upper ) { const string o = xov::any_string( "aAzZ@[`{0" ); string s = to_upper( o ); XOV_COVER( "end" ); XOV_CHECK( s.size() == o.size() && xov::forall( 0, long( o.size() ), [&]( size_t i ) { char c = o[i]; return s[i] == ( ( c >= 'a' ) & ( c <= 'z' ) ? char( c - 32 ) : c ); } ), "small letters become capital ones" ); }
XOV_PROOF( any_of ) { const string s = xov::any_string( "ab" ); bool b = str_equals_any_of( s, { "a", "bb", "" } ); XOV_COVER( "end" ); XOV_CHECK( b == ( s == "a" || s == "bb" || s == "" ), "equals one of the given strings" ); }
