// N02: numeric ranges: membership, violation, clamping, extension and inversion agree, for every range and value.
#include "xov.h"
#include "xo/numerical/bounds.h"
#include "xo/numerical/bounded.h"
using namespace xo;
using xov::eq; using xov::le;
template< class T > T R() { return xov::any<T>(); }
template< class T > T S() { return xov::any<T>(); }
template<> int S<int>() { return int( xov::any_int( -1000000, 1000000 ) ); }
template< class T > void range() {
	T l = S<T>(), u = S<T>(), v = S<T>(), w = S<T>(); xov::assume( l <= u ); const bounds<T> b( l, u ); XOV_COVER( "end" );
	bool in = l <= v && v <= u;
	XOV_CHECK( b.is_within( v ) == in, "a value is within the bounds exactly when between them" );
	T d = b.get_violation( v ); auto c = b.check( v );
	XOV_CHECK( c.first == in && ( in ? c.second == 0 : eq( c.second, d ) ) && ( ( d == 0 ) == in || !xov::sym() ), "violation is zero exactly for values within" );
	XOV_CHECK( xov::implies( v < l, eq( v - d, l ) && d < 0 ) && xov::implies( v > u, eq( v - d, u ) && d > 0 ), "violation is the signed distance to the bounds" );
	T k = v; T& r = b.clamp( k ); XOV_CHECK( &r == &k && b.is_within( k ) && b.clamped( v ) == k && eq( v - k, d ), "clamping removes exactly the violation" );
	XOV_CHECK( eq( b.length(), u - l ) && ( -b ).lower == -u && ( -b ).upper == -l && b.is_null() == ( l == 0 && u == 0 ), "length, inversion and null" );
	XOV_CHECK( ( -b ).is_within( -v ) == in, "inverted bounds contain the negated values" );
	bounds<T> e = b; e.extend( v ); XOV_CHECK( e.is_within( v ) && e.is_within( l ) && e.is_within( u ) && ( e.lower == l || e.lower == v ) && ( e.upper == u || e.upper == v ), "extension is the smallest range with the value" );
	XOV_CHECK( xov::implies( b.is_within( w ), e.is_within( w ) ) && xov::implies( in, e.lower == l && e.upper == u ), "extension keeps every value and is idempotent" );
	T m = S<T>(); xov::assume( w <= m ); bounds<T> f = b; f.extend( bounds<T>( w, m ) );
	XOV_CHECK( f.is_within( w ) && f.is_within( m ) && f.is_within( l ) && f.is_within( u ) && ( f.lower == l || f.lower == w ) && ( f.upper == u || f.upper == m ), "extension by a range is the smallest enclosing range" );
}
template< class T > void empty_range() { // also ranges with nothing inside, as for collecting values
	T l = S<T>(), u = S<T>(), v = S<T>(), w = S<T>(), m = S<T>(); bounds<T> b( l, u ), c( l, u ); b.extend( v ); c.extend( bounds<T>( w, m ) ); XOV_COVER( "end" ); XOV_CHECK( b.lower == ( v < l ? v : l ) && b.upper == ( v > u ? v : u ), "each side is extended by itself" ); XOV_CHECK( c.lower == ( w < l ? w : l ) && c.upper == ( m > u ? m : u ), "by ranges as well" );
	bounds<T> d = bounds<T>( l, u ); XOV_CHECK( d.is_within( v ) == ( l <= v && v <= u ) && ( -d ).lower == -u && ( -d ).upper == -l, "nothing is inside an empty range" );
}
XOV_PROOF( empty_real ) { empty_range<double>(); }
XOV_PROOF( empty_int ) { empty_range<int>(); }
XOV_PROOF( real_range ) { range<double>(); }
XOV_PROOF( int_range ) { range<int>(); }
XOV_PROOF( float_range ) { range<float>(); }
XOV_PROOF( misc ) {
	double l = R<double>(), u = R<double>(), v = R<double>(); xov::assume( l <= u ); bounds<double> b( l, u ); XOV_COVER( "end" );
	XOV_CHECK( eq( b.center() * 2, l + u ) && xov::le( l, b.center() ) && xov::le( b.center(), u ), "the center halves the range" );
	bounds<double> z; XOV_CHECK( z.is_null() && z.lower == 0 && z.upper == 0, "default bounds are null" );
	int i = int( xov::any_int( -1000000, 1000000 ) ), j = int( xov::any_int( -1000000, 1000000 ) ); bounds<double> c( ( bounds<int>( i, j ) ) ); XOV_CHECK( c.lower == i && c.upper == j, "conversion keeps the bounds" );
	XOV_CHECK( bounds<double>::positive().is_within( v ) == ( v >= 0 ) || v > 1e300, "positive bounds" );
	XOV_CHECK( bounds<double>::negative().is_within( v ) == ( v <= 0 ) || v < -1e300, "negative bounds" );
	XOV_CHECK( bounds<double>::infinite().is_within( v ) || v > 1e300 || v < -1e300, "infinite bounds contain everything" );
}
XOV_PROOF( soft ) {
	double l = R<double>(), u = R<double>(), v = R<double>(), k = R<double>(); xov::assume( l < u && u - l > 0.01 && k > 0.01 && k <= 0.5 ); bounds<double> b( l, u ); XOV_COVER( "end" );
	double s = b.soft_clamped( v, k ), t = v; b.soft_clamp( t, k ); XOV_CHECK( s == t && le( l, s ) && le( s, u ), "soft clamping stays within the bounds" );
}
XOV_PROOF( bounded_value ) {
	using B = bounded<int, -3, 12>; int v = xov::any_i32(), w = xov::any_i32(); B b( 5 ); bool in = v >= -3 && v <= 12; XOV_COVER( "end" );
	bool t = xov::thrown( [&] { b = v; } ); XOV_CHECK( t == !in && int( b ) == ( in ? v : 5 ), "assignment accepts exactly the values in bounds" );
	t = xov::thrown( [&] { b.set( w ); } ); XOV_CHECK( t == !( w >= -3 && w <= 12 ) && int( b ) >= -3 && int( b ) <= 12, "set keeps the value in bounds" );
	XOV_CHECK( xov::thrown( [&] { B c( v ); } ) == !in, "construction accepts exactly the values in bounds" );
	B d( 1 ); d = b; XOV_CHECK( int( d ) == int( b ) && &( d = B( 2 ) ) == &d && int( d ) == 2, "assignment copies the value" );
}
