// T01: time values and intervals.
#include "xov.h"
#include "xo/time/time.h"
#include "xo/time/interval_checker.h"
using namespace xo;
using xov::eq;
static const long far = 1L << 52;
static long ns() { return xov::any_int( -far, far ); }
static xo::time T( long n ) { return xo::time( n ); }
XOV_PROOF( arithmetic_laws ) {
	long a = ns(), b = ns(); XOV_COVER( "end" ); XOV_CHECK( T( a ).nanoseconds() == a && xo::time().nanoseconds() == 0 && xo::time().is_zero() && T( a ).is_zero() == ( a == 0 ), "holds its nanoseconds" );
	XOV_CHECK( ( T( a ) + T( b ) ).nanoseconds() == a + b && ( T( a ) - T( b ) ).nanoseconds() == a - b && ( -T( a ) ).nanoseconds() == -a, "sum, difference and negation" );
	xo::time t( a ); t += T( b ); XOV_CHECK( t == T( a ) + T( b ), "add" ); t -= T( b ); XOV_CHECK( t == T( a ), "and take away" ); t.reset(); XOV_CHECK( t.is_zero(), "reset" );
	XOV_CHECK( distance( T( a ), T( b ) ).nanoseconds() == ( a > b ? a - b : b - a ) && distance( T( a ), T( b ) ) == distance( T( b ), T( a ) ), "distance" );
}
XOV_PROOF( order ) {
	long a = ns(), b = ns(); XOV_COVER( "end" ); XOV_CHECK( ( T( a ) < T( b ) ) == ( a < b ) && ( T( a ) <= T( b ) ) == ( a <= b ) && ( T( a ) > T( b ) ) == ( a > b ) && ( T( a ) >= T( b ) ) == ( a >= b ) && ( T( a ) == T( b ) ) == ( a == b ) && ( T( a ) != T( b ) ) == ( a != b ), "ordered like their nanoseconds" );
}
template< typename I, int K > static void whole() { // division and multiplication by a whole number
	long a = ns(); XOV_COVER( "end" ); XOV_CHECK( ( T( a ) / I( K ) ).nanoseconds() == a / K, "division rounds towards zero" ); XOV_CHECK( ( T( a ) * I( K ) ).nanoseconds() == a * K, "multiples" ); if constexpr ( std::is_same_v<I, size_t> ) { xo::time t( a ); t /= size_t( K ); XOV_CHECK( t.nanoseconds() == a / K, "division in place" ); }
}
XOV_PROOF( by_size_1 ) { whole<size_t, 1>(); }
XOV_PROOF( by_size_2 ) { whole<size_t, 2>(); }
XOV_PROOF( by_size_7 ) { whole<size_t, 7>(); }
XOV_PROOF( by_size_60 ) { whole<size_t, 60>(); }
XOV_PROOF( by_int_1 ) { whole<int, 1>(); }
XOV_PROOF( by_int_3 ) { whole<int, 3>(); }
XOV_PROOF( by_int_negative ) { whole<int, -3>(); }
XOV_PROOF( by_int_60 ) { whole<int, 60>(); }
static bool near( double x, double y ) { return std::fabs( x - y ) <= 1e-12 * std::fabs( y ); }
XOV_PROOF( ratios ) {
	long a = ns(), b = ns(); xov::assume( b != 0 ); double r = T( a ) / T( b ); XOV_COVER( "end" ); XOV_CHECK( eq( r * double( b ), double( a ) ), "ratio" ); XOV_CHECK( eq( T( a ) * T( b ), double( a ) * double( b ) ), "product" );
	XOV_CHECK( near( T( a ).seconds<double>() * 1e9, double( a ) ) && near( T( a ).secondsd() * 1e9, double( a ) ) && near( T( a ).milliseconds() * 1e6, double( a ) ) && T( a ).nanosecondsd() == double( a ), "in seconds, milliseconds and nanoseconds" ); XOV_CHECK( std::fabs( double( T( a ).secondsf() ) - double( a ) / 1e9 ) <= 1e-6 * std::fabs( double( a ) / 1e9 ) && std::fabs( double( T( a ).millisecondsf() ) - double( a ) / 1e6 ) <= 1e-6 * std::fabs( double( a ) / 1e6 ), "in single precision" );
}
XOV_PROOF( by_real ) { long a = ns(); double d = xov::any_real(); xov::assume( d > -1000 && d < 1000 ); double r = double( ( T( a ) * d ).nanoseconds() ); XOV_COVER( "end" ); XOV_CHECK( std::fabs( r - double( a ) * d ) <= 1 + 1e-15 * std::fabs( double( a ) * d ), "multiplied by a real number" ); xov::assume( d > 0.001 ); double q = double( ( T( a ) / d ).nanoseconds() ); XOV_CHECK( std::fabs( q - double( a ) / d ) <= 1 + 1e-15 * std::fabs( double( a ) / d ), "divided by a real number" ); }
// a real number of seconds becomes the nearest number of nanoseconds, on either side of zero
template< class F > static void nearest( double s, double unit, const F& make ) { double v = s * unit; xov::assume( v < 1e15 && v > -1e15 ); long n = make( s ).nanoseconds(); XOV_COVER( "end" ); XOV_CHECK( std::fabs( double( n ) - v ) <= ( xov::sym() ? 0.5 : 0.75 ), "the nearest number of nanoseconds" ); XOV_CHECK( make( -s ).nanoseconds() == -n, "the same before and after" ); }
XOV_PROOF( from_seconds ) { nearest( xov::any_real(), 1e9, []( double s ) { return time_from_seconds( s ); } ); }
XOV_PROOF( from_milliseconds ) { nearest( xov::any_real(), 1e6, []( double s ) { return time_from_milliseconds( s ); } ); }
XOV_PROOF( from_nanoseconds ) { nearest( xov::any_real(), 1, []( double s ) { return time_from_nanoseconds( s ); } ); }
XOV_PROOF( from_whole ) { long s = xov::any_int( -100000, 100000 ); XOV_COVER( "end" ); XOV_CHECK( time_from_seconds( int( s ) ).nanoseconds() == s * 1000000000 && time_from_milliseconds( int( s ) ).nanoseconds() == s * 1000000 && time_from_nanoseconds( int( s ) ).nanoseconds() == s, "whole numbers exactly" ); }
XOV_PROOF( literals ) {
	unsigned long long n = (unsigned long long)xov::any_int( 0, 200 ); using namespace xo::time_literals; XOV_COVER( "end" ); XOV_CHECK( operator""_ns( n ).nanoseconds() == n && operator""_ms( n ) == T( 1000000 ) * n && operator""_s( n ) == operator""_ms( 1000 ) * n && operator""_minute( n ) == operator""_s( 60 ) * n && operator""_hour( n ) == operator""_minute( 60 ) * n && operator""_day( n ) == operator""_hour( 24 ) * n && operator""_year( n ) == operator""_day( 365 ) * n, "each unit in terms of the smaller one" );
}
XOV_PROOF( intervals ) { // a check succeeds exactly when an interval has passed since the last one that did
	long iv = ns(), last = 0; interval_checker c{ T( iv ) }; last = ns(); c.previous_time_ = T( last ); long t = ns(); bool b = c.check( T( t ) ); XOV_COVER( "end" ); XOV_CHECK( b == ( t - last >= iv ), "succeeds once the interval has passed" ); XOV_CHECK( c.previous_time_.nanoseconds() == ( b ? t : last ) && c.interval_.nanoseconds() == iv, "and counts from there" ); interval_checker n{ T( iv ) }; XOV_CHECK( n.check( T( t ) ) == ( t >= iv ), "the first interval starts at zero" ); if ( iv > 0 ) XOV_CHECK( !n.check( T( t ) ) || t < iv, "not twice at once" );
}
