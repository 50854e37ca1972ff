// S03: finding the nth occurrence, replacing text and matching patterns.
#include "xov.h"
#include "xo/string/string_tools.cpp"
#include "xo/string/pattern_matcher.h"
using namespace xo;
using std::string;
static bool at( const string& s, size_t k, const string& p ) { return xov::forall( 0, long( p.size() ), [&]( size_t i ) { return s[k + i] == p[i]; } ); }
static bool nowhere( const string& s, long b, long e, const string& p ) { return xov::forall( b, e, [&]( size_t k ) { return !at( s, k, p ); } ); }
static string pat( size_t k ) { return k == 1 ? string( { xov::any_char( "ab" ) } ) : string( { xov::any_char( "ab" ), xov::any_char( "ab" ) } ); }
// the nth occurrence, relative to the one before it
template< size_t N, size_t K > static void nth() {
	XOV_OPT( "force_unroll", 1 );
	const string s = xov::any_string( "ab", 6 ), p = pat( K ); long last = long( s.size() ) - long( K ); const size_t a = find_nth_str( s, p, N ); const size_t from = N > 1 ? find_nth_str( s, p, N - 1 ) + 1 : 0;
	if ( N > 1 && from == 0 ) { XOV_COVER( "none before" ); XOV_CHECK( a == string::npos, "without an earlier occurrence there is none" ); }
	else if ( a == string::npos ) { XOV_COVER( "none" ); XOV_CHECK( nowhere( s, long( from ), last + 1, p ), "no occurrence is missed" ); }
	else { XOV_COVER( "found" ); XOV_CHECK( a >= from && long( a ) <= last && at( s, a, p ), "the text occurs there" ); XOV_CHECK( nowhere( s, long( from ), long( a ), p ), "it is the next one" ); }
}
XOV_PROOF( nth_first ) { nth<1, 2>(); }
XOV_PROOF( nth_first_char ) { nth<1, 1>(); }
XOV_PROOF( nth_second ) { nth<2, 2>(); }
XOV_PROOF( nth_second_char ) { nth<2, 1>(); }
XOV_PROOF( nth_third_char ) { nth<3, 1>(); }
XOV_PROOF( nth_any ) { // whatever the number, the result is an occurrence
	const string s = xov::any_string( "ab", 6 ), p = pat( 2 ); size_t n = xov::any_size( 5 ); xov::assume( n > 0 ); XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); XOV_HINT( [&]( size_t i, size_t k ) { return k == n || i == string::npos || ( i + 2 <= s.size() && at( s, i, p ) ); } );
	size_t a = find_nth_str( s, p, n ); XOV_COVER( "end" ); XOV_CHECK( a == string::npos || ( a + 2 <= s.size() && at( s, a, p ) ), "the text occurs there" );
}
XOV_BOUNDED( nth_all ) { const string s = xov::any_string( "ab", 6 ), p = xov::any_string( "ab", 3 ); size_t n = xov::any_size( 6 ); std::vector<size_t> v; for ( size_t i = 0; i + p.size() <= s.size(); ++i ) if ( s.compare( i, p.size(), p ) == 0 ) v.push_back( i ); size_t a = find_nth_str( s, p, n ); XOV_COVER( "end" ); XOV_CHECK( a == ( n == 0 ? 0 : n <= v.size() ? v[n - 1] : string::npos ), "the nth occurrence" ); }
XOV_PROOF( replace_one ) { // a character by a character
	const string o = xov::any_string( "abc", 5 ); char c = xov::any_char( "ab" ), d = xov::any_char( "ab" ); string s = o, f( 1, c ), w( 1, d ); XOV_OPT( "autoinv", 0 ); XOV_OPT( "generic", 0 ); XOV_OPT( "unroll", 0 );
	XOV_HINT_OBJ( [&]( const string& t, size_t p ) { return t.size() == o.size() && ( p == string::npos || ( p < o.size() && o[p] == c ) ); } );
	XOV_HINT_OBJ( [&]( const string& t, size_t p ) { return xov::forall( 0, long( o.size() ), [&]( size_t i ) { return t[i] == ( ( i < p ) & ( o[i] == c ) ? d : o[i] ); } ); } );
	replace_str( s, f, w ); XOV_COVER( "end" ); XOV_CHECK( s.size() == o.size(), "the length is kept" ); XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return s[i] == ( o[i] == c ? d : o[i] ); } ), "every occurrence and nothing else is replaced" );
}
XOV_PROOF( replace_none ) {
	const string o = xov::any_string( "ab", 5 ), f = pat( 2 ), w = xov::any_string( "ab", 2 ); xov::assume( nowhere( o, 0, long( o.size() ) - 1, f ) ); string s = o; XOV_OPT( "autoinv", 0 ); XOV_OPT( "generic", 0 ); XOV_OPT( "unroll", 0 );
	XOV_HINT_OBJ( [&]( const string& t, size_t p ) { return t == o && p == string::npos; } );
	replace_str( s, f, w ); XOV_COVER( "end" ); XOV_CHECK( s == o, "a text without the searched part is unchanged" ); 
}
XOV_PROOF( replace_nothing ) { string s = xov::any_string( "ab", 3 ); const string o = s; bool t = xov::thrown( [&] { replace_str( s, "", "a" ); } ); XOV_COVER( "end" ); XOV_CHECK( t && s == o, "there is nothing to search for" ); }
static string replaced( const string& s, const string& f, const string& w ) { string r; for ( size_t i = 0; i < s.size(); ) if ( s.compare( i, f.size(), f ) == 0 ) { r += w; i += f.size(); } else r += s[i++]; return r; }
XOV_BOUNDED( replace ) {
	const string o = xov::any_string( "ab", 6 ), f = xov::any_string( "ab", 3 ), w = xov::any_string( "ab", 3 ); if ( f.empty() ) return; string s = o; replace_str( s, f, w ); XOV_COVER( "end" ); XOV_CHECK( s == replaced( o, f, w ), "every occurrence is replaced, from left to right, and the replacement is not searched" );
	XOV_CHECK( replace_str( o, f, w ) == s && replace_str( string( o ), f, w ) == s, "the same on a copy" );
}
XOV_BOUNDED( special_chars ) {
	string s; const size_t n = xov::any_size( 5 ); for ( size_t i = 0; i < n; ++i ) s += "ae\xE9\xC4 \xDF"[xov::any_int( 0, 5 )]; const string o = s; replace_special_chars( s ); XOV_COVER( "end" ); string x; for ( char c : o ) { string t( 1, c ); replace_special_chars( t ); x += t; } XOV_CHECK( s == x, "marked letters are replaced one by one" );
	for ( char c : s ) XOV_CHECK( c == 'a' || c == 'e' || c == ' ' || c == '\xDF' || c == 'A', "only plain letters are left" );
}
static bool glob( const char* s, const char* p ) { return *p == 0 ? *s == 0 : *p == '*' ? glob( s, p + 1 ) || ( *s && glob( s + 1, p ) ) : *s && ( *p == '?' || *p == *s ) && glob( s + 1, p + 1 ); }
XOV_BOUNDED( patterns ) {
	const string s = xov::any_string( "ab./", 5 ), p = xov::any_string( "a.*?", 5 ); bool b = pattern_match( s, p ); XOV_COVER( "end" ); XOV_CHECK( b == glob( s.c_str(), p.c_str() ), "matches the whole text, * any part and ? any character" );
}
XOV_BOUNDED( matcher ) {
	const string s = xov::any_string( "ab", 4 ), p = xov::any_string( "a*;", 3 ), q = xov::any_string( "b?;", 3 ); pattern_matcher m( p + ";" + q ); bool x = false; auto v = split_str( p + ";" + q, ";" ); for ( auto& e : v ) x |= glob( s.c_str(), e.c_str() );
	XOV_COVER( "end" ); XOV_CHECK( m.match( s ) == x && m( s ) == x, "any of the patterns" ); XOV_CHECK( m.empty() == v.empty() && m.patterns() == v, "the patterns are the parts" ); XOV_CHECK( pattern_matcher( m.str() ).patterns() == v && pattern_matcher( v.empty() ? "" : "-" ).empty() == v.empty(), "the text gives the same patterns" );
	XOV_CHECK( is_pattern( s ) == false && is_pattern( p ) == ( p.find( '*' ) != string::npos ) && is_pattern( q ) == ( q.find( '?' ) != string::npos ), "a pattern has a wildcard" );
}
