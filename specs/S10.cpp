#define XOV_CONCRETE
// S10: values written as text are read back: numbers, booleans, dates, versions, times, paths and lists.
#include "xov.h"
#include <cstring>
#include "xo/string/string_type.h"
#include "xo/string/string_tools.cpp"
#include "xo/system/version.h"
#include "xo/time/date.h"
#include "xo/time/time.h"
#include "xo/filesystem/path.cpp"
#ifdef XOV_SYM
// the C functions, for decimal numbers, by their definition
static std::string decimal( long v ) { if ( v < 0 ) return "-" + decimal( -v ); std::string t; do { t = std::string( 1, char( '0' + v % 10 ) ) + t; v /= 10; } while ( v != 0 ); return t; }
namespace std { string to_string( int v ) { return decimal( v ); } string to_string( unsigned v ) { return decimal( long( v ) ); } string to_string( long v ) { return decimal( v ); } string to_string( unsigned long v ) { return decimal( long( v ) ); } string to_string( long long v ) { return decimal( v ); } string to_string( unsigned long long v ) { return decimal( long( v ) ); } }
static long number( const char* b, char** e ) { const char* p = b; while ( *p == ' ' || ( *p >= '\t' && *p <= '\r' ) ) ++p; bool neg = *p == '-'; if ( *p == '-' || *p == '+' ) ++p; const char* from = p; long v = 0; while ( *p >= '0' && *p <= '9' ) v = v * 10 + ( *p++ - '0' ); *e = const_cast<char*>( p == from ? b : p ); return p == from ? 0 : neg ? -v : v; }
extern "C" long strtol( const char* b, char** e, int base ) noexcept { XOV_CHECK( base == 10, "decimal" ); return number( b, e ); }
extern "C" unsigned long strtoul( const char* b, char** e, int base ) noexcept { XOV_CHECK( base == 10, "decimal" ); return (unsigned long)( number( b, e ) ); }
extern "C" long long strtoll( const char* b, char** e, int base ) noexcept { XOV_CHECK( base == 10, "decimal" ); return number( b, e ); }
extern "C" unsigned long long strtoull( const char* b, char** e, int base ) noexcept { XOV_CHECK( base == 10, "decimal" ); return (unsigned long long)( number( b, e ) ); }
// stringf of %d and %0Nd
static std::string format( const char* f, int a, int b, int c ) { std::string r; int k = 0; for ( ; *f; ++f ) { if ( *f != '%' ) { r += *f; continue; } ++f; size_t w = 0; if ( *f == '0' ) ++f; while ( *f >= '0' && *f <= '9' ) w = w * 10 + ( *f++ - '0' ); XOV_CHECK( *f == 'd', "a format known here" ); std::string t = decimal( k == 0 ? a : k == 1 ? b : c ); ++k; while ( t.size() < w ) t = "0" + t; r += t; } return r; }
XOV_STUB( stringf, "xo::stringf(", format, "" );
#endif
#include "xo/string/string_cast.cpp"
using namespace xo;
using std::string;
#ifdef XOV_SYM
static long N( long lo, long hi ) { return xov::any_int( lo, hi ); }
#else
static long N( long lo, long hi ) { long v = xov::any_int( 0, 9 ); switch ( v ) { case 0: return lo; case 1: return hi; case 2: return hi / 2; case 3: return lo / 3; case 4: return hi / 1000 + 10; default: { long x = xov::any_int( -20, 1000 ); return x < lo ? lo : x > hi ? hi : x; } } }
#endif
template< typename T > static void number_back( long lo, long hi ) { XOV_OPT( "force_unroll", 1 ); const T v = T( N( lo, hi ) ); string s = to_str( v ); T w = 77; bool ok = from_str( s, w ); XOV_COVER( "end" ); XOV_CHECK( ok && w == v, "a number is read back" ); }
XOV_PROOF( int_back ) { number_back<int>( -( 1L << 31 ), ( 1L << 31 ) - 1 ); }
XOV_PROOF( unsigned_back ) { number_back<unsigned>( 0, ( 1L << 32 ) - 1 ); }
XOV_PROOF( long_back ) { number_back<long>( -9223372036854775807L, 9223372036854775807L ); }
XOV_PROOF( ulong_back ) { number_back<unsigned long>( 0, 9223372036854775807L ); }
XOV_PROOF( llong_back ) { number_back<long long>( -9223372036854775807L, 9223372036854775807L ); }
XOV_PROOF( ullong_back ) { number_back<unsigned long long>( 0, 9223372036854775807L ); }
XOV_BOUNDED( ulong_limits ) { unsigned long v = (unsigned long)( -1L ) - (unsigned long)( N( 0, 9223372036854775807L ) ), w = 0; XOV_CHECK( from_str( to_str( v ), w ) && w == v, "the largest numbers too" ); unsigned long long a = v, b = 0; XOV_CHECK( from_str( to_str( a ), b ) && b == a, "of both types" ); }
// what is not a number is refused
template< typename T, size_t L > static void word_number() { XOV_OPT( "force_unroll", 1 ); char c[L]; string s; for ( size_t i = 0; i < L; ++i ) { c[i] = xov::any_char( "a5 -" ); xov::assume( c[i] != 0 ); s += c[i]; } size_t p = 0; while ( p < L && ( c[p] == ' ' || ( c[p] >= '\t' && c[p] <= '\r' ) ) ) ++p; bool neg = p < L && c[p] == '-'; if ( p < L && ( c[p] == '-' || c[p] == '+' ) ) ++p; long v = 0; bool any = false; for ( ; p < L && c[p] >= '0' && c[p] <= '9'; ++p ) { v = v * 10 + ( c[p] - '0' ); any = true; } T w = 5; bool ok = from_str( s, w ); XOV_COVER( "end" ); XOV_CHECK( ok == any, "a number is read exactly if the text begins with one" ); XOV_CHECK( !any || ( neg && T( -1 ) > 0 ) || w == T( neg ? -v : v ), "its value" ); }
XOV_PROOF( words0 ) { XOV_OPT( "force_unroll", 1 ); int i = 1; long l = 1; unsigned u = 1; bool b = true; XOV_COVER( "end" ); XOV_CHECK( !from_str( string(), i ) && !from_str( string(), l ) && !from_str( string(), u ) && !from_str( string(), b ), "nothing is no number" ); }
XOV_PROOF( int_words ) { word_number<int, 3>(); }
XOV_PROOF( unsigned_words ) { word_number<unsigned, 3>(); }
XOV_PROOF( long_words ) { word_number<long, 3>(); }
XOV_PROOF( llong_words ) { word_number<long long, 3>(); }
XOV_PROOF( booleans ) { const string s = xov::any_string( "01tyesno", 4 ); const bool v = xov::any_bool(); bool b = v, t = s == "1" || s == "true" || s == "yes", f = s == "0" || s == "false" || s == "no"; bool ok = from_str( s, b ); XOV_COVER( "end" ); XOV_CHECK( ok == ( t || f ) && b == ( t ? true : f ? false : v ), "exactly six words are booleans, others change nothing" ); bool c = !v; XOV_CHECK( from_str( to_str( v ), c ) && c == v, "a boolean is read back" ); }
XOV_PROOF( texts ) { const string s = xov::any_string( "a b", 4 ); string t; path p; XOV_COVER( "end" ); XOV_CHECK( from_str( s, t ) && t == s && to_str( s ) == s, "text is itself" ); XOV_CHECK( from_str( s, p ) && p.str() == s && to_str( p ) == s, "a path is its text" ); XOV_CHECK( to_str( s.c_str() ) == s && to_str( (const char*)nullptr ) == "NULL", "C text too" ); }
XOV_PROOF( date_back ) { XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 12 ); date d, e; d.year = int( N( 0, 9999 ) ); d.month = int( N( 0, 99 ) ); d.day = int( N( 0, 99 ) ); string s = to_str( d ); XOV_COVER( "end" ); XOV_CHECK( s.size() == 10 && s[4] == '-' && s[7] == '-', "year, month and day in fixed width" ); bool ok = from_str( s, e ); XOV_CHECK( ok && e.year == d.year && e.month == d.month && e.day == d.day, "a date is read back" ); }
XOV_PROOF( version_back ) { XOV_OPT( "force_unroll", 1 ); version v( int( N( 0, 99 ) ), int( N( 0, 99 ) ), int( N( 0, 99 ) ), 0 ), w( 1, 2, 3, 4, "x" ); string s = to_str( v ); bool ok = from_str( s, w ); XOV_COVER( "end" ); XOV_CHECK( ok && w.major_ == v.major_ && w.minor_ == v.minor_ && w.patch_ == v.patch_ && w.build_ == 0 && w.postfix_.empty(), "a version is read back, nothing is left of the former" ); }
XOV_PROOF( version_build ) { XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 12 ); version v( int( N( 0, 9 ) ), int( N( 0, 9 ) ), int( N( 0, 99 ) ), int( N( 1, 999 ) ) ), w; string s = to_str( v ); bool ok = from_str( s, w ); XOV_COVER( "end" ); XOV_CHECK( ok && w.major_ == v.major_ && w.minor_ == v.minor_ && w.patch_ == v.patch_ && w.build_ == v.build_ && w.postfix_.empty(), "with its build number" ); }
XOV_PROOF( version_postfix ) { XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 12 ); char a = xov::any_char( "-ab" ), b = xov::any_char( "1. a" ); xov::assume( a != '.' && a != 0 && b != 0 && !( a >= '0' && a <= '9' ) && !( a == ' ' || ( a >= '\t' && a <= '\r' ) ) ); string p; p += a; p += b; version v( int( N( 0, 9 ) ), int( N( 0, 9 ) ), int( N( 0, 99 ) ), int( N( 0, 1 ) ), p ), w; string s = to_str( v ); bool ok = from_str( s, w ); XOV_COVER( "end" ); XOV_CHECK( ok && w.major_ == v.major_ && w.minor_ == v.minor_ && w.patch_ == v.patch_ && w.build_ == v.build_ && w.postfix_ == p, "with its postfix" ); }
XOV_PROOF( lists ) { XOV_OPT( "force_unroll", 1 ); string a = xov::any_string( "ab", 2 ), b = xov::any_string( "ab", 2 ); std::vector<string> v; XOV_CHECK( to_str( v ) == "[ ]", "an empty list" ); v.push_back( a ); v.push_back( b ); XOV_COVER( "end" ); XOV_CHECK( to_str( v ) == "[ " + a + ' ' + b + ' ' + "]", "every element in order" ); }
#ifndef XOV_SYM
#include <sstream>
#include <cmath>
#include "xo/serialization/container_io.h"
#include "xo/numerical/bounds.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/angle.h"
#include "xo/container/prop_node.h"
XOV_BOUNDED( real_back ) { double m = double( xov::any_int( -999999, 999999 ) ), d = m * std::pow( 10.0, double( xov::any_int( -20, 20 ) ) ), e = 1; XOV_CHECK( from_str( to_str( d ), e ) && std::fabs( e - d ) <= 1e-5 * std::fabs( d ), "six digits of a real number are read back" ); float f = float( d ), g = 1; XOV_CHECK( from_str( to_str( f ), g ) && std::fabs( g - f ) <= 1e-5f * std::fabs( f ), "in both precisions" ); double q = xov::any_int( -4000, 4000 ) / 4.0, r = 0; XOV_CHECK( from_str( to_str( q ), r ) && r == q, "exactly if six digits suffice" ); }
XOV_BOUNDED( real_words ) { string s = xov::any_string( "5-.e x", 4 ); double d = 7, e; float f = 7; char* p; e = std::strtod( s.c_str(), &p ); bool any = p != s.c_str(); XOV_CHECK( from_str( s, d ) == any && ( !any || d == e ) && from_str( s, f ) == any && ( !any || f == float( e ) ), "a real number is read exactly if the text begins with one" ); }
XOV_BOUNDED( time_back ) { // seconds, minutes and hours
	long s = xov::any_bool() ? xov::any_int( 0, 70 ) : xov::any_int( 0, 400000 ), ms = xov::any_int( 0, 999 ); xo::time v = time_from_milliseconds( s * 1000 + ms ), w; string t = to_str( v ); XOV_CHECK( from_str( t, w ), "a time is read back" ); XOV_CHECK( w == ( s < 10 ? v : time_from_seconds( s ) ), "with the decimals shown" ); XOV_CHECK( from_str( to_str( v, 0 ), w ) && w == time_from_seconds( s ), "in whole seconds if asked" ); if ( s > 0 ) { int h = int( s / 3600 ), m = int( s / 60 % 60 ), k = int( s % 60 ); if ( s >= 10 ) XOV_CHECK( t == ( h ? stringf( "%d:%02d:%02d", h, m, k ) : stringf( "%d:%02d", m, k ) ), "hours, minutes and seconds" ); }
	double q = xov::any_int( -4000, 4000 ) / 8.0; XOV_CHECK( from_str( std::to_string( q ), w ) && w == time_from_seconds( q ), "plain seconds are read" ); char x = xov::any_char( "a5 " ); XOV_CHECK( from_str( string( 1, x ), w ) == ( x >= '0' && x <= '9' ) && !from_str( "1:" + string( "a" ), w ) && !from_str( "", w ), "what is no time is refused" );
}
XOV_BOUNDED( version_words ) { string s = xov::any_string( "1.2 b", 7 ); xov::assume( s.size() < 9 ); version w( 7, 7, 7, 7, "x" ); bool ok = from_str( s, w ); size_t n = 0; std::vector<string> p; string q; while ( n < s.size() && ( s[n] == '.' || std::isdigit( s[n] ) ) ) { if ( s[n] == '.' ) { if ( !q.empty() ) p.push_back( q ); q.clear(); } else q += s[n]; ++n; } if ( !q.empty() ) p.push_back( q ); XOV_CHECK( ok == ( p.size() >= 3 ), "three numbers make a version" ); if ( ok ) { while ( n < s.size() && s[n] == ' ' ) ++n; XOV_CHECK( w.major_ == std::stoi( p[0] ) && w.minor_ == std::stoi( p[1] ) && w.patch_ == std::stoi( p[2] ) && w.build_ == ( p.size() > 3 ? std::stoi( p[3] ) : 0 ) && w.postfix_ == s.substr( n ), "its numbers and postfix" ); } }
XOV_BOUNDED( date_words ) { string s = xov::any_string( "12-/x", 6 ); xov::assume( s.size() < 9 ); date d; auto v = split_str( s, "-./" ); bool ok = v.size() == 3; for ( auto& x : v ) ok = ok && std::isdigit( x[0] ); XOV_CHECK( from_str( s, d ) == ok, "three numbers make a date" ); if ( ok ) XOV_CHECK( d.year == std::atoi( v[0].c_str() ) && d.month == std::atoi( v[1].c_str() ) && d.day == std::atoi( v[2].c_str() ), "in this order" ); }
XOV_BOUNDED( streams ) { // every element up to the end, also without line end
	std::vector<long> v, r; string s; for ( size_t n = xov::any_size( 4 ); n > 0; --n ) { v.push_back( xov::any_int( -9, 99 ) ); s += std::to_string( v.back() ) + ( n > 1 || xov::any_bool() ? ( xov::any_bool() ? " " : "\n" ) : "" ); } std::istringstream i( s ); using xo::operator>>; xo::operator>>( i, r ); XOV_CHECK( r == v && i.eof(), "every element, once" ); std::vector<string> w, x; s.clear(); for ( size_t n = xov::any_size( 3 ); n > 0; --n ) { w.push_back( "w" + xov::any_string( "ab", 2 ) ); s += w.back() + ( n > 1 || xov::any_bool() ? " " : "" ); } std::istringstream j( s ); xo::operator>>( j, x ); XOV_CHECK( x == w, "words too" ); std::pair<long, string> p; std::istringstream k( "5 x" ); xo::operator>>( k, p ); XOV_CHECK( p.first == 5 && p.second == "x", "pairs" ); }
XOV_BOUNDED( numeric_types ) { double a = xov::any_int( -400, 400 ) / 4.0, b = xov::any_int( -400, 400 ) / 4.0, c = xov::any_int( -400, 400 ) / 4.0; bounds<double> e( std::min( a, b ), std::max( a, b ) ), f; XOV_CHECK( from_str( to_str( e ), f ) && f.lower == e.lower && f.upper == e.upper, "bounds are read back" ); vec3d v( a, b, c ), w; prop_node vn; vn.set( "v", v ); XOV_CHECK( vn.get<vec3d>( "v" ) == v && prop_node( to_str( a ) + " " + to_str( b ) + " " + to_str( c ) ).get<vec3d>() == v, "vectors" ); degreed d( a ), g; XOV_CHECK( from_str( to_str( a ), g ) && g.value == a, "angles" ); }
XOV_BOUNDED( nodes ) { // values of property nodes are their text
	prop_node pn; int i = int( N( -( 1L << 31 ), ( 1L << 31 ) - 1 ) ); double d = xov::any_int( -4000, 4000 ) / 4.0; bool b = xov::any_bool(); string s = xov::any_string( "a \"#", 3 ); pn.set( "i", i ); pn.set( "d", d ); pn.set( "b", b ); pn.set( "s", s ); std::vector<int> v, w; for ( size_t n = xov::any_size( 3 ); n > 0; --n ) v.push_back( int( xov::any_int( -5, 5 ) ) ); pn.set( "v", v ); xo::time t = time_from_milliseconds( xov::any_int( 0, 9999 ) ); pn.set( "t", t ); version r( 1, 2, int( xov::any_int( 0, 5 ) ), int( xov::any_int( 0, 2 ) ), xov::any_bool() ? "b" : "" ); pn.set( "r", r );
	XOV_CHECK( pn.get<int>( "i" ) == i && pn.get<double>( "d" ) == d && pn.get<bool>( "b" ) == b && pn.get<string>( "s" ) == s, "values are got back" ); XOV_CHECK( pn.get<std::vector<int>>( "v" ) == v && pn.get<xo::time>( "t" ) == t, "lists and times" ); version q = pn.get<version>( "r" ); XOV_CHECK( q == r && q.build_ == r.build_ && q.postfix_ == r.postfix_, "versions" ); XOV_CHECK( pn.get<int>( "x", 5 ) == 5 && !pn.try_get<int>( "x" ) && xov::thrown( [&] { pn.get<int>( "x" ); } ), "a default, nothing or an error if missing" );
}
#endif
