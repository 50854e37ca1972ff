// N10: hashes of text and the order of versions.
#include "xov.h"
#include <cstring>
#include "xo/utility/hash.h"
#include "xo/system/version.h"
using namespace xo;
// one step of FNV-1a; the hash of a text is its fold
static hash_t step( hash_t h, char c ) { return ( h ^ hash_t( (unsigned char)c ) ) * fnv1a_64_prime; }
XOV_PROOF( run_time ) { // a text of any length: each character is one step
	XOV_OPT( "ufbits", 1 ); XOV_OPT( "autoinv", 0 );	const std::string s = xov::any_string( "ab\xff" ); const size_t n = s.size(); if ( !xov::sym() ) { hash_t h = fnv1a_64_basis; for ( char c : s ) { if ( !c ) break; h = step( h, c ); } XOV_CHECK( hash( s ) == h && hash( s.c_str() ) == h, "the fold of its characters" ); return; }
	xov::assume( xov::forall( 0, long( n ), [&]( size_t i ) { return s[i] != 0; } ) ); auto F = xov::any_vector<hash_t>(); xov::assume( F.size() == n + 1 && F[0] == fnv1a_64_basis && xov::forall( 0, long( n ), [&]( size_t i ) { return F[i + 1] == step( F[i], s[i] ); } ) );
	const char* b = s.c_str(); XOV_HINT( [&]( size_t h, size_t p ) { return p <= n && h == F[p]; } );
	hash_t h = hash( b ); XOV_COVER( "end" ); XOV_CHECK( h == F[n], "the fold of its characters" );
}
template< int N > static void same() { // for each length
	char t[N + 1] = {}; std::string s; hash_t h = fnv1a_64_basis; for ( int i = 0; i < N; ++i ) { char c = xov::any_char( "ab\xff\x80" ); xov::assume( c != 0 ); t[i] = c; s += c; h = step( h, c ); } XOV_COVER( "end" ); XOV_CHECK( hash_constexpr( t ) == h, "at compile time" ); XOV_CHECK( hash( t ) == h, "at run time" ); XOV_CHECK( operator""_hash( t, N ) == h, "as a literal" ); XOV_CHECK( hash( s ) == h, "of a string" );
}
XOV_PROOF( same_0 ) { same<0>(); }
XOV_PROOF( same_1 ) { same<1>(); }
XOV_PROOF( same_2 ) { same<2>(); }
XOV_PROOF( same_3 ) { same<3>(); }
XOV_PROOF( same_5 ) { same<5>(); }
XOV_PROOF( known ) { XOV_COVER( "end" ); XOV_CHECK( hash( "" ) == 0xcbf29ce484222325ull && hash( "a" ) == 0xaf63dc4c8601ec8cull && hash( "foobar" ) == 0x85944171f73967e8ull && "foobar"_hash == 0x85944171f73967e8ull, "FNV-1a" ); }
XOV_BOUNDED( distinct ) { char s[3] = { char( xov::any_int( -128, 127 ) ), char( xov::any_int( -1, 1 ) ), 0 }, t[3] = { char( xov::any_int( -128, 127 ) ), char( xov::any_int( -1, 1 ) ), 0 }; XOV_CHECK( ( hash( s ) == hash( t ) ) == ( strcmp( s, t ) == 0 ), "short texts have different hashes" ); }
static version V( int b ) { return version( xov::any_i32(), xov::any_i32(), xov::any_i32(), b ); }
static int lex( const version& a, const version& b ) { return a.major_ != b.major_ ? ( a.major_ < b.major_ ? -1 : 1 ) : a.minor_ != b.minor_ ? ( a.minor_ < b.minor_ ? -1 : 1 ) : a.patch_ != b.patch_ ? ( a.patch_ < b.patch_ ? -1 : 1 ) : a.build_ != b.build_ && a.build_ > 0 && b.build_ > 0 ? ( a.build_ < b.build_ ? -1 : 1 ) : 0; }
static int sign( int x ) { return x < 0 ? -1 : x > 0; }
XOV_PROOF( versions ) {
	version a = V( xov::any_i32() ), b = V( xov::any_i32() ); int l = lex( a, b ); XOV_COVER( "end" ); XOV_CHECK( sign( version_compare( a, b ) ) == l, "compared from major to build, builds only where both have one" ); XOV_CHECK( version_compare( a, b ) == -version_compare( b, a ) && version_compare( a, a ) == 0, "antisymmetric" );
	XOV_CHECK( ( a < b ) == ( l < 0 ) && ( a > b ) == ( l > 0 ) && ( a <= b ) == ( l <= 0 ) && ( a >= b ) == ( l >= 0 ) && ( a == b ) == ( l == 0 ) && ( a != b ) == ( l != 0 ), "exactly one of less, equal and greater" ); XOV_CHECK( a.is_at_least( b.major_, b.minor_, b.patch_, b.build_ ) == ( l >= 0 ) && a.is_below( b.major_, b.minor_, b.patch_, b.build_ ) == ( l < 0 ), "at least and below" );
	if ( a.is_at_least( b.major_, b.minor_ ) ) XOV_CHECK( a >= version( b.major_, b.minor_, 0 ), "patch and build zero by default" );
}
XOV_PROOF( transitive ) { // versions with (or all without) a build
	bool z = xov::any_bool(); auto B = [&] { int b = z ? 0 : xov::any_i32(); xov::assume( z || b > 0 ); return b; }; version a = V( B() ), b = V( B() ), c = V( B() ); XOV_COVER( "end" ); if ( a < b && b < c ) XOV_CHECK( a < c, "transitive" ); if ( a == b && b == c ) XOV_CHECK( a == c, "equality too" ); if ( a == b && b < c ) XOV_CHECK( a < c, "equal versions compare alike" );
}
XOV_PROOF( empty_version ) { version v = V( xov::any_i32() ); XOV_COVER( "end" ); XOV_CHECK( v.empty() == ( v.major_ == 0 && v.minor_ == 0 && v.patch_ == 0 && v.build_ == 0 ) && version().empty(), "empty is all zero" ); XOV_CHECK( !version( 0, 0, 0, 0, "a" ).empty(), "and nothing behind" ); }
