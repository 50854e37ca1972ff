#define XOV_CONCRETE
// U07: program arguments: flags are found by name, values follow their flags, positional arguments come first.
#include "xov.h"
#include "xo/system/assert.h"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/utility/arg_parser.h"
using namespace xo;
using std::string;
#ifdef XOV_SYM
// the C function, for decimal numbers, by its definition
extern "C" long strtol( const char* b, char** e, int base ) noexcept { const char* p = b; while ( *p == ' ' || ( *p >= '\t' && *p <= '\r' ) ) ++p; bool neg = *p == '-'; if ( *p == '-' || *p == '+' ) ++p; const char* from = p; long v = 0; while ( *p >= '0' && *p <= '9' ) v = v * 10 + ( *p++ - '0' ); *e = const_cast<char*>( p == from ? b : p ); return p == from ? 0 : neg ? -v : v; }
#endif
static string A() { return xov::any_string( "-ab", 4 ); }
static string F() { string f = xov::any_string( "ab", 2 ); xov::assume( f.empty() || f[0] != '-' ); return f; }
// by the text alone: a is some dashes, at least one, and then f
static bool names( const string& a, const string& f ) { const long d = long( a.size() ) - long( f.size() ); return ( d > 0 ) & xov::forall( 0, long( a.size() ), [&]( long i ) { return a[size_t( i )] == ( i < d ? '-' : f[size_t( i < d ? 0 : i - d )] ); } ); }
static bool flag( const string& a ) { return !a.empty() && a[0] == '-'; }
// count_dashes by its contract, proved first, in the proofs of its callers
static bool dashes( const string& x, size_t c ) { return c <= x.size() && ( c > 0 ) <= flag( x ) && xov::forall( 0, long( c ), [&]( long j ) { return x[size_t( j )] == '-'; } ); }
static bool counted( const string& x, size_t c ) { return dashes( x, c ) && ( c == x.size() || x[c] != '-' ); }
XOV_PROOF( counts ) { const string x = A(); const char* v[] = { "x", "a", x.c_str() }; xov::assume( x.find( '\0' ) == string::npos ); arg_parser q( 3, v ); XOV_HINT( [&]( size_t c ) { return dashes( x, c ); } ); const size_t c = q.count_dashes( 1 ); XOV_COVER( "end" ); XOV_CHECK( counted( x, c ), "the number of dashes an argument begins with" ); }
#ifdef XOV_SYM
static size_t count( const arg_parser& p, size_t i ) { const string& x = p.arg( i ); const size_t c = size_t( xov::any_int( 0, 1L << 40 ) ); xov::assume( counted( x, c ) ); return c; }
XOV_STUB( count_dashes, "xo::arg_parser::count_dashes(", count, "counts number texts3 places3" );
#endif
template< size_t N > struct program {
	string a[N + 1]; const char* v[N + 1];
	program() { for ( size_t i = 0; i <= N; ++i ) { a[i] = A(); xov::assume( a[i].find( '\0' ) == string::npos ); v[i] = a[i].c_str(); } }
	arg_parser parser() { return arg_parser( int( N + 1 ), v ); }
	const string& arg( size_t i ) const { return a[i + 1]; }
	size_t where( const string& f ) const { size_t w = N; for ( size_t i = N; i-- > 0; ) w = names( arg( i ), f ) ? i : w; return w; }
	size_t positional() const { size_t n = N; for ( size_t i = N; i-- > 0; ) n = flag( arg( i ) ) ? i : n; return n; }
};
template< size_t N > static void all() { XOV_OPT( "paths", 500 ); program<N> p; auto q = p.parser(); XOV_COVER( "end" ); XOV_CHECK( q.size() == N, "every argument except the name of the program" ); for ( size_t i = 0; i < N; ++i ) XOV_CHECK( q.arg( i ) == p.arg( i ), "in the order given" ); XOV_CHECK( xov::thrown( [&] { q.arg( N ); } ), "and no other" ); }
XOV_PROOF( all0 ) { all<0>(); }
XOV_PROOF( all1 ) { all<1>(); }
XOV_PROOF( all3 ) { all<3>(); }
XOV_BOUNDED( all6 ) { all<6>(); }
template< size_t N > static void find() { XOV_OPT( "paths", 500 ); XOV_OPT( "generic", 0 ); XOV_OPT( "candms", 300 ); XOV_OPT( "autoinv", 0 ); program<N> p; 
	 auto q = p.parser(); const string f = F(); const size_t i = p.where( f ); XOV_COVER( "end" ); XOV_CHECK( q.find_flag( f ) == ( i < N ? i : no_index ), "the first argument that is the name after dashes, or none" ); }
template< size_t N > static void has() { XOV_OPT( "paths", 500 ); XOV_OPT( "generic", 0 ); XOV_OPT( "candms", 300 ); XOV_OPT( "autoinv", 0 ); program<N> p; 
	auto q = p.parser(); const string f = F(); XOV_COVER( "end" ); XOV_CHECK( q.has_flag( f ) == ( p.where( f ) < N ), "a flag is there exactly if it is found" ); }
XOV_PROOF( has0 ) { has<0>(); }
XOV_PROOF( has1 ) { has<1>(); }
XOV_BOUNDED( has2 ) { has<2>(); }
XOV_BOUNDED( has5 ) { has<5>(); }
XOV_PROOF( find0 ) { find<0>(); }
XOV_PROOF( find1 ) { find<1>(); }
XOV_BOUNDED( find2 ) { find<2>(); }
XOV_BOUNDED( find5 ) { find<5>(); }
template< size_t N > static void value() { XOV_OPT( "paths", 500 ); XOV_OPT( "generic", 0 ); XOV_OPT( "candms", 300 ); XOV_OPT( "autoinv", 0 ); program<N> p; 
	 auto q = p.parser(); const string f = F(), d = A(); const size_t i = p.where( f ); XOV_COVER( "end" ); const string r = q.template get<string>( f, d ); XOV_CHECK( r == ( i + 1 < N && !flag( p.arg( i + 1 ) ) ? p.arg( i + 1 ) : d ), "the argument after the flag unless it is a flag, else the default" ); }
XOV_PROOF( value0 ) { value<0>(); }
XOV_PROOF( value1 ) { value<1>(); }
XOV_BOUNDED( value2 ) { value<2>(); }
XOV_BOUNDED( value5 ) { value<5>(); }
template< size_t N > static void place() { XOV_OPT( "paths", 500 ); XOV_OPT( "generic", 0 ); XOV_OPT( "candms", 300 ); XOV_OPT( "autoinv", 0 ); program<N> p; 
	 auto q = p.parser(); const size_t n = p.positional(); const string d = A(); XOV_COVER( "end" ); for ( size_t i = 0; i < N; ++i ) XOV_CHECK( q.template get<string>( i, d ) == ( i < n ? p.arg( i ) : d ), "an argument by its place before the first flag, else the default" ); const size_t i = N + xov::any_size( 9 ); XOV_CHECK( q.template get<string>( i, d ) == d, "the default after the last" ); }
XOV_PROOF( place0 ) { place<0>(); }
XOV_PROOF( place1 ) { place<1>(); }
XOV_BOUNDED( place2 ) { place<2>(); }
XOV_BOUNDED( place5 ) { place<5>(); }
XOV_PROOF( number ) { // a value that is no number leaves the default
	XOV_OPT( "force_unroll", 1 ); char c[2] = { xov::any_char( "-5a" ), xov::any_char( "-5a" ) }; xov::assume( c[0] != 0 && c[1] != 0 ); string s; s += c[0]; s += c[1]; const char* v[] = { "x", "--n", s.c_str() }; arg_parser q( 3, v ); const int d = xov::any_i32(); int e = d; if ( int x; from_str( s, x ) ) e = x; XOV_COVER( "end" ); XOV_CHECK( q.get<int>( "n", d ) == ( c[0] == '-' ? d : e ), "the number given, or the default" ); const char* w[] = { "x", s.c_str(), "--n" }; arg_parser r( 3, w ); XOV_CHECK( r.get<int>( 0, d ) == ( c[0] == '-' ? d : e ), "by place too" ); XOV_CHECK( r.get<int>( "n", d ) == d && r.get<int>( 1, d ) == d, "nothing follows" );
	}
// three arguments of two characters each, whatever these are
static string two( const char* abc ) { char c[2] = { xov::any_char( abc ), xov::any_char( abc ) }; xov::assume( c[0] != 0 && c[1] != 0 ); string s; s += c[0]; s += c[1]; return s; }
XOV_PROOF( texts3 ) {
	XOV_OPT( "force_unroll", 1 ); XOV_OPT( "paths", 3000 ); const string a = two( "-a" ), b = two( "-a" ), c = two( "-a" ), d = "default"; const char* v[] = { "x", a.c_str(), b.c_str(), c.c_str() }; arg_parser q( 4, v ); char n = xov::any_char( "ab" ); xov::assume( n != '-' && n != 0 ); const string f( 1, n );
	const auto is = [&]( const string& x ) { return ( x[0] == '-' ) & ( x[1] == n ); }; const size_t i = q.find_flag( f ); XOV_COVER( "end" ); XOV_CHECK( i == ( is( a ) ? 0 : is( b ) ? 1 : is( c ) ? 2 : no_index ), "the first that is the name after dashes, or none" ); const string r = q.get<string>( f, d ); XOV_CHECK( r == ( i == 0 && !flag( b ) ? b : i == 1 && !flag( c ) ? c : d ), "the argument after the flag, else the default" );
}
XOV_PROOF( places3 ) {
	XOV_OPT( "force_unroll", 1 ); XOV_OPT( "paths", 3000 ); const string a = two( "-a" ), b = two( "-a" ), c = two( "-a" ), d = "default"; const char* v[] = { "x", a.c_str(), b.c_str(), c.c_str() }; arg_parser q( 4, v ); const size_t n = flag( a ) ? 0 : flag( b ) ? 1 : flag( c ) ? 2 : 3; XOV_COVER( "end" );
	XOV_CHECK( q.get<string>( 0, d ) == ( n > 0 ? a : d ) && q.get<string>( 1, d ) == ( n > 1 ? b : d ) && q.get<string>( 2, d ) == ( n > 2 ? c : d ) && q.get<string>( 3, d ) == d, "by place before the first flag, else the default" );
}
