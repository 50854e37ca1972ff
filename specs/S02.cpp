// S02: splitting and joining strings.
#include "xov.h"
#include "xo/string/string_tools.cpp"
using namespace xo;
using std::string;
using svec = std::vector<string>;
static bool part( const string& r, const string& s, size_t from, size_t n ) { return r.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return r[i] == s[from + i]; } ); }
static bool is( char c, char a, char b ) { return ( c == a ) | ( c == b ); }
static bool none( const string& s, size_t b, size_t e, char x, char y ) { return xov::forall( long( b ), long( e ), [&]( size_t i ) { return !is( s[i], x, y ); } ); }
static bool all( const string& s, size_t b, size_t e, char x, char y ) { return xov::forall( long( b ), long( e ), [&]( size_t i ) { return is( s[i], x, y ); } ); }
// the words of a string: A[j] and E[j] are the begin and end of word j (ghost)
static void words( const string& s, char x, char y, std::vector<size_t>& A, std::vector<size_t>& E ) {
	if ( xov::sym() ) {
		A = xov::any_vector<size_t>(); E = xov::any_vector<size_t>(); size_t m = A.size(), n = s.size(); xov::assume( E.size() == m );
		xov::assume( xov::forall( 0, long( m ), [&]( size_t j ) { return ( A[j] < E[j] ) & ( E[j] <= n ); } ) ); xov::assume( xov::forall( 0, long( m ) - 1, [&]( size_t j ) { return E[j] < A[j + 1]; } ) );
		xov::assume( xov::forall( 0, long( m ), [&]( size_t j ) { return none( s, A[j], E[j], x, y ); } ) ); xov::assume( xov::forall( 0, long( m ) - 1, [&]( size_t j ) { return all( s, E[j], A[j + 1], x, y ); } ) );
		xov::assume( xov::forall( 0, long( m ), [&]( size_t j ) { return !is( s[A[j]], x, y ) & ( ( E[j] == n ) | is( s[E[j]], x, y ) ); } ) ); // follows
		if ( m ) { xov::assume( all( s, 0, A[0], x, y ) ); xov::assume( all( s, E[m - 1], n, x, y ) ); } else xov::assume( all( s, 0, n, x, y ) );
	} else { size_t n = s.size(); for ( size_t i = 0; i < n; ) { if ( is( s[i], x, y ) ) { ++i; continue; } A.push_back( i ); while ( i < n && !is( s[i], x, y ) ) ++i; E.push_back( i ); } }
}
XOV_BOUNDED( split ) {
	const string s = xov::any_string( "ab,;", 6 ); std::vector<size_t> A, E; words( s, ',', ';', A, E ); size_t m = A.size();
	svec v = split_str( s, ",;" ); XOV_COVER( "end" ); XOV_CHECK( v.size() == m, "one part for each word" ); XOV_CHECK( xov::forall( 0, long( m ), [&]( size_t j ) { return part( v[j], s, A[j], E[j] - A[j] ); } ), "the parts are the words, in order" );
}
XOV_BOUNDED( split_views ) {
	const string s = xov::any_string( "ab,;", 6 ); std::vector<size_t> A, E; words( s, ',', ';', A, E ); std::string_view w( s ); auto v = split_str( w, ",;" ); XOV_COVER( "end" ); XOV_CHECK( v.size() == A.size(), "one view for each word" );
	for ( size_t j = 0; j < A.size(); ++j ) XOV_CHECK( v[j].data() == s.data() + A[j] && v[j].size() == E[j] - A[j], "the views are the words in place" );
}
XOV_PROOF( split_first ) {
	const string s = xov::any_string( "ab,;", 5 ); auto p = split_str_at_first( s, ",;" ); size_t n = s.size(), k = p.first.size(); XOV_COVER( "end" ); XOV_CHECK( k <= n && part( p.first, s, 0, k ) && none( s, 0, k, ',', ';' ), "the first part ends at the first separator" );
	if ( k < n ) XOV_CHECK( is( s[k], ',', ';' ) && part( p.second, s, k + 1, n - k - 1 ), "the second part is all behind it" ); else XOV_CHECK( p.second.empty(), "without separator the second part is empty" );
}
XOV_PROOF( split_last ) {
	const string s = xov::any_string( "ab,;", 5 ); auto p = split_str_at_last( s, ",;" ); size_t n = s.size(), k = p.first.size(); XOV_COVER( "end" ); XOV_CHECK( k <= n && part( p.first, s, 0, k ), "the first part ends at a separator" );
	if ( k < n ) XOV_CHECK( is( s[k], ',', ';' ) && part( p.second, s, k + 1, n - k - 1 ) && none( s, k + 1, n, ',', ';' ), "it is the last one, the second part is all behind it" ); else XOV_CHECK( p.second.empty() && none( s, 0, n, ',', ';' ), "without separator the second part is empty" );
}
XOV_PROOF( key_value ) {
	const string s = xov::any_string( "a= \t", 6 ); auto p = make_key_value_str( s ); size_t k = s.find( '=' ); 
	if ( k == string::npos ) { XOV_COVER( "none" ); XOV_CHECK( p.first == s && p.second.empty(), "without separator there is only a key" ); }
	else { XOV_COVER( "pair" ); XOV_CHECK( p.first == trim_str( s.substr( 0, k ) ) && p.second == trim_str( s.substr( k + 1 ) ), "key and value around the first separator, trimmed" ); }
}
XOV_PROOF( append ) {
	string s = xov::any_string( "a, ", 3 ); const string o = s, a = xov::any_string( "b", 2 ), d = xov::any_string( ", ", 2 ); append_str( s, a, d ); size_t n = o.size(); XOV_COVER( "end" );
	bool ends = d.size() <= n && xov::forall( 0, long( d.size() ), [&]( size_t i ) { return o[n - d.size() + i] == d[i]; } ); size_t k = n == 0 || ends ? 0 : d.size(); XOV_CHECK( s.size() == n + k + a.size() && part( o, s, 0, n ), "the text is kept" );
	XOV_CHECK( part( a, s, n + k, a.size() ), "the new text is at the end" ); XOV_CHECK( k == 0 || part( d, s, n, k ), "separated by the delimiter unless the text is empty or ends with it" );
}
XOV_PROOF( concat_pair ) {
	const string a = xov::any_string( "ab", 3 ), b = xov::any_string( "ab", 3 ); char c = xov::any_char( ".a" ); const string r = concat_str( a, b, c ); XOV_COVER( "end" ); if ( a.empty() ) XOV_CHECK( r == b, "nothing in front" ); else if ( b.empty() ) XOV_CHECK( r == a, "nothing behind" );
	else XOV_CHECK( r.size() == a.size() + 1 + b.size() && r[a.size()] == c && part( a, r, 0, a.size() ) && part( b, r, a.size() + 1, b.size() ), "both with the delimiter between" );
}
XOV_PROOF( concat_list ) {
	const string a = xov::any_string( "a", 2 ), b = xov::any_string( "b", 2 ), c = xov::any_string( "c", 2 ), d = xov::any_string( ",", 2 ); const string r = concat_str( { a, b, c }, d ); XOV_COVER( "end" ); size_t la = a.size(), lb = b.size(), lc = c.size(), ld = d.size();
	size_t pb = la && lb ? la + ld : la, pe = lb ? pb + lb : la, pc = lc && pe ? pe + ld : pe; XOV_CHECK( r.size() == pc + lc, "the length is that of the parts and the delimiters between them" ); XOV_CHECK( part( a, r, 0, la ), "first part" ); if ( lb ) XOV_CHECK( part( b, r, pb, lb ) && ( pb == la || part( d, r, la, ld ) ), "second part" ); if ( lc ) XOV_CHECK( part( c, r, pc, lc ) && ( pc == pe || part( d, r, pe, ld ) ), "third part" );
}
XOV_PROOF( concat_container ) {
	svec v = { xov::any_string( "a", 2 ), xov::any_string( "b", 2 ) }; const string d = xov::any_string( ",", 2 ); const string r = concat_str( v, d ), e = concat_str( { v[0], v[1] }, d ); XOV_COVER( "end" ); XOV_CHECK( r == e, "a container is joined like a list" );
}
XOV_BOUNDED( join_split ) { // joining the parts of a split gives the parts back
	const string s = xov::any_string( "ab,", 6 ); svec v = split_str( s, "," ); string j = concat_str( v, "," ); XOV_COVER( "end" ); XOV_CHECK( split_str( j, "," ) == v, "splitting the joined parts" );
}
