// N01: scalar helpers (min, max, clamping, wrapping, waves, sign, rounding to bytes, integer tests) for every value.
#include "xov.h"
#include "xo/numerical/math.h"
#include "xo/numerical/functions.h"
#include "xo/numerical/compare.h"
#include "xo/numerical/delta.h"
using namespace xo;
using xov::eq; using xov::le;
static double R() { return xov::any_real(); }
XOV_PROOF( extremes ) {
	double a = R(), b = R(), c = R(); XOV_COVER( "end" );
	double m = xo::min( a, b ), M = xo::max( a, b );
	XOV_CHECK( m <= a && m <= b && ( m == a || m == b ) && M >= a && M >= b && ( M == a || M == b ), "min and max are the extremes" );
	m = xo::min( a, b, c ); M = xo::max( a, b, c );
	XOV_CHECK( m <= a && m <= b && m <= c && ( m == a || m == b || m == c ) && M >= a && M >= b && M >= c && ( M == a || M == b || M == c ), "three-way extremes" );
	double v = a; set_if_smaller( v, b ); XOV_CHECK( v == xo::min( a, b ), "set_if_smaller keeps the minimum" );
	v = a; set_if_bigger( v, b ); XOV_CHECK( v == xo::max( a, b ), "set_if_bigger keeps the maximum" );
	v = a; bool d = set_if_different( v, b ); XOV_CHECK( v == b && d == ( a != b ), "set_if_different reports a change" );
	XOV_CHECK( xo::abs( a ) >= 0 && ( xo::abs( a ) == a || xo::abs( a ) == -a ), "abs" );
}
XOV_PROOF( signs ) {
	double a = R(), b = R(); XOV_COVER( "end" );
	XOV_CHECK( signum( a ) == ( a > 0 ? 1 : a < 0 ? -1 : 0 ) && sign( a ) == ( a >= 0 ? 1.0 : -1.0 ), "sign and signum" );
	XOV_CHECK( same_sign( a, b ) == ( ( a > 0 && b > 0 ) || ( a < 0 && b < 0 ) || ( a == 0 && b == 0 ) ), "same_sign" );
	double s = signed_sqrt( a ); XOV_CHECK( eq( s * xo::abs( s ), a ), "signed_sqrt inverts the signed square" );
	XOV_CHECK( eq( squared( a ), a * a ) && eq( cubed( a ), a * a * a ) && eq( midpoint( a, b ) * 2, a + b ), "powers and midpoint" );
	XOV_CHECK( eq( power<0>( a ), 1 ) && eq( power<1>( a ), a ) && eq( power<5>( a ), a * a * a * a * a ), "integer powers" );
	if ( a != 0 ) XOV_CHECK( eq( inv( a ) * a, 1 ) && eq( power<-2>( a ) * a * a, 1 ), "inverse powers" );
	if ( a > 0.1 ) XOV_CHECK( eq( invsqrt( a ) * invsqrt( a ) * a, 1 ), "inverse square root" );
	delta<double> dl( a ); XOV_CHECK( eq( dl( b ), b - a ) && eq( dl( a ), a - b ), "delta returns the change since the last value" );
}
XOV_PROOF( integers ) {
	int i = xov::any_i32(); XOV_COVER( "end" );
	XOV_CHECK( is_even( i ) == ( i % 2 == 0 ) && is_odd( i ) == ( i % 2 != 0 ), "even and odd" );
	XOV_CHECK( xo::min( i, 7 ) <= 7 && signum( i ) == ( i > 0 ) - ( i < 0 ), "integer variants" );
}
XOV_PROOF( powers_of_two ) {
	unsigned long v = xov::any_bits(); bool p = false; for ( int k = 0; k < 64; ++k ) p = p | ( v == 1ul << k );
	XOV_CHECK( is_power_of_two( v ) == p, "is_power_of_two" ); XOV_COVER( "end" );
	unsigned b = unsigned( v ); XOV_CHECK( get_byte( b, 0 ) == ( b & 255u ) && get_byte( b, 24 ) == b >> 24 && ( get_byte( b, 8 ) << 8 ) == ( b & 0xff00u ), "get_byte" );
}
XOV_PROOF( clamping ) {
	double v = R(), l = R(), u = R(); xov::assume( l <= u ); double w = v; double& r = xo::clamp( w, l, u ); XOV_COVER( "end" );
	XOV_CHECK( &r == &w && w >= l && w <= u, "a clamped value is within the bounds" );
	XOV_CHECK( xov::implies( v >= l && v <= u, w == v ) && xov::implies( v < l, w == l ) && xov::implies( v > u, w == u ), "clamping gives the nearest value" );
	XOV_CHECK( clamped( v, l, u ) == w && clamped( w, l, u ) == w && is_between( v, l, u ) == ( v == w ), "clamping variants agree" );
	int i = xov::any_i32(), a = xov::any_i32(), b = xov::any_i32(); xov::assume( a <= b ); int c = clamped( i, a, b );
	XOV_CHECK( c >= a && c <= b && ( i < a || i > b || c == i ), "integer clamping" );
}
XOV_PROOF( soft_clamping ) {
	double v = R(), w = R(), l = R(), u = R(), b = R(); xov::assume( l < u && b > 0 && b <= 0.5 && u - l > 0.01 && b > 0.01 );
	double s = soft_clamped( v, l, u, b ); XOV_COVER( "end" );
	XOV_CHECK( le( l, s ) && le( s, u ), "a softly clamped value is within the bounds" );
	double r = b * ( u - l ); XOV_CHECK( xov::implies( v >= l + r && v <= u - r, s == v ), "values away from the boundary are unchanged" );
	double t = v; soft_clamp( t, l, u, b ); XOV_CHECK( t == s, "soft_clamp variants agree" );
}
XOV_PROOF( soft_monotone ) {
	double x = R(), y = R(), lim = R(); xov::assume( lim > 0.01 && x >= 0 && y >= x );
	double a = limit_transform( x, lim ), b = limit_transform( y, lim );
	XOV_CHECK( le( 0, a ) && a <= lim && le( a, b ) && le( a, x ), "the boundary transform is monotone, below its limit and below its argument" ); XOV_COVER( "end" );
}
XOV_PROOF( smooth_clamping ) {
	double v = R(), mi = R(), lb = R(), ub = R(), ma = R(); xov::assume( mi < lb && lb <= ub && ub < ma );
	double s = smooth_clamped( v, mi, ma, lb, ub ); XOV_COVER( "end" );
	XOV_CHECK( le( mi, s ) && le( s, ma ), "a smoothly clamped value is within the bounds" );
	XOV_CHECK( xov::implies( v >= lb && v <= ub, s == v ) && xov::implies( v < lb, le( s, lb ) ) && xov::implies( v > ub, le( ub, s ) ), "values between the inner bounds are unchanged" );
}
// congruence modulo the period: ghost-free, stated with floor
static bool whole( double x ) { return xov::sym() ? std::floor( x ) == x : std::fabs( x - std::round( x ) ) < 1e-6 * ( 1 + std::fabs( x ) ); }
XOV_PROOF( wrapping ) {
	double v = R(), l = R(), n = R(); xov::assume( n > 0.01 ); double u = l + n;
	double w = wrapped( v, l, u ); XOV_COVER( "end" );
	XOV_CHECK( le( l, w ) && le( w, u ), "a wrapped value is within the range" );
	double x = v; wrap( x, l, u ); if ( !xov::sym() ) XOV_CHECK( x == w, "wrap variants agree" );
}
XOV_PROOF( wrapping_unit ) { // period 2 and 3: congruent
	double v = R(); double w = wrapped( v, -1.0, 1.0 ), z = wrapped( v, 1.0, 4.0 ); XOV_COVER( "end" );
	XOV_CHECK( whole( ( v - w ) / 2 ) && whole( ( v - z ) / 3 ), "wrapping moves by whole periods" );
	XOV_CHECK( xov::implies( v > -1 && v < 1, eq( w, v ) ) && xov::implies( v > 1 && v < 4, eq( z, v ) ), "values inside the range are unchanged" );
}
XOV_PROOF( modulo ) {
	double x = R(), y = R(); xov::assume( y > 0.01 ); double m = pos_mod( x, y ); XOV_COVER( "end" );
	XOV_CHECK( le( 0, m ) && ( xov::sym() ? m < y : le( m, y ) ), "the positive modulo is in [0, y)" );
	double k = pos_mod( x, 2.5 ); XOV_CHECK( whole( ( x - k ) / 2.5 ), "the positive modulo is congruent" );
}
XOV_PROOF( square_waves ) {
	double v = R(); XOV_COVER( "end" ); double s = square_wave( v );
	XOV_CHECK( s == 0 || s == 1, "the square wave has two levels" );
	XOV_CHECK( xov::implies( v >= 0 && v < 1, s == 1 ) && xov::implies( v >= 1 && v < 2, s == 0 ), "the square wave is high in its first half period" );
	if ( xov::sym() || !whole( v ) ) XOV_CHECK( square_wave( v + 2 ) == s, "the square wave has period 2" );
}
XOV_PROOF( triangle_waves ) {
	double v = R(); XOV_COVER( "end" ); double t = triangle_wave( v );
	XOV_CHECK( le( 0, t ) && le( t, 1 ), "the triangle wave is in [0,1]" );
	XOV_CHECK( xov::implies( v >= 0 && v <= 1, eq( t, v ) ), "the triangle wave rises linearly" );
	XOV_CHECK( eq( triangle_wave( v + 2 ), t ), "the triangle wave has period 2" );
}
XOV_PROOF( triangle_even ) { double v = R(); XOV_COVER( "end" ); XOV_CHECK( eq( triangle_wave( -v ), triangle_wave( v ) ), "the triangle wave is even" ); }
XOV_PROOF( triangle_range ) {
	double v = R(), l = R(), u = R(); xov::assume( l < u && u - l > 0.01 );
	double t = triangle_wave( v, l, u ); XOV_CHECK( le( l, t ) && le( t, u ), "the triangle wave stays in its range" ); XOV_COVER( "end" );
	XOV_CHECK( eq( triangle_wave( u, l, u ), u ) && eq( triangle_wave( l, l, u ), l ), "the triangle wave touches its range" );
}
XOV_PROOF( bytes ) {
	double v = R(); unsigned b = float_to_byte( v ); XOV_COVER( "end" );
	XOV_CHECK( b <= 255 && xov::implies( v <= 0, b == 0 ) && xov::implies( v >= 1, b == 255 ), "float_to_byte is a byte" );
	XOV_CHECK( xov::implies( v >= 0 && v <= 1, le( double( b ) - 0.5, v * 255 ) && le( v * 255, double( b ) + 0.5 ) ), "float_to_byte rounds to nearest" );
	int r = round_cast<int>( v ); xov::assume( v < 1000000 && v > -1000000 ); XOV_CHECK( le( double( r ) - 0.5, v ) && le( v, double( r ) + 0.5 ), "round_cast rounds to nearest" );
	XOV_CHECK( is_whole( double( r ) ) && !is_whole( double( r ) + 0.5 ), "is_whole" );
}
XOV_PROOF( comparing ) {
	double a = R(), b = R(), e = R(); xov::assume( e >= 0 && e < 1 ); XOV_COVER( "end" );
	XOV_CHECK( equal( a, a, e ), "equal is reflexive" );
	XOV_CHECK( less_than_or_equal( a, b, e ) == ( a < b || equal( a, b, e ) ) && greater_than_or_equal( a, b, e ) == ( a > b || equal( a, b, e ) ), "comparisons include approximate equality" );
	XOV_CHECK( less_than_not_equal( a, b, e ) == !greater_than_or_equal( a, b, e ) && greater_than_not_equal( a, b, e ) == !less_than_or_equal( a, b, e ), "comparisons are complementary" );
	XOV_CHECK( int( less_than_not_equal( a, b, e ) ) + int( equal( a, b, e ) ) + int( greater_than_not_equal( a, b, e ) ) == 1, "exactly one of less, equal, greater holds" );
}
XOV_PROOF( jerk ) {
	double x = R(); xov::assume( x >= 0 && x <= 1 ); double y = minimum_jerk( x ); XOV_COVER( "end" );
	XOV_CHECK( le( 0, y ) && le( y, 1 ) && eq( minimum_jerk( 0.0 ), 0 ) && eq( minimum_jerk( 1.0 ), 1 ), "the minimum jerk curve runs from 0 to 1" );
	XOV_CHECK( eq( minimum_jerk( 1 - x ), 1 - y ), "the minimum jerk curve is symmetric" );
}
// digits: base^(d-1) <= v < base^d
template< size_t B > void digits() {
	size_t v = xov::any_int( 0, 999999 ); size_t d = count_digits( v, B ); XOV_COVER( "end" );
	size_t p = 1; size_t k = 1; while ( p * B <= v ) { p *= B; ++k; }
	XOV_CHECK( d == k, "count_digits is the number of digits in the base" );
}
XOV_BOUNDED( digits2 ) { digits<2>(); }
XOV_BOUNDED( digits10 ) { digits<10>(); }
XOV_BOUNDED( digits16 ) { digits<16>(); }
XOV_BOUNDED( divisors ) {
	int p = xov::any_int( 0, 60 ), q = xov::any_int( 0, 60 ); int g = greatest_common_divisor( p, q ); int best = 0; for ( int d = 1; d <= 60; ++d ) if ( p % d == 0 && q % d == 0 ) best = d;
	XOV_CHECK( p == 0 && q == 0 ? g == 0 : p == 0 || q == 0 ? g == p + q : g == best, "the greatest common divisor" );
}
