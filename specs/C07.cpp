// C07: dynamic arrays, vectors and matrices own independent elements and compute element by element, for any size.
#include "xov.h"
#include "xo/numerical/math.h"
#include "xo/numerical/compare.h"
#include "xo/container/dynarray.h"
#include "xo/geometry/dynvec.h"
#include "xo/geometry/dynmat.h"
using namespace xo;
using da = dynarray<int>;
template< class A > bool filled( const A& a, size_t n, int v ) { return a.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return a[i] == v; } ); }
static da any_da( std::vector<int>& v ) { v = xov::any_vector<int>( 4 ); da a( v.size() ); std::copy( v.data(), v.data() + v.size(), a.data() ); return a; }
static bool same( const da& a, const std::vector<int>& v ) { return a.size() == v.size() && xov::forall( 0, long( v.size() ), [&]( size_t i ) { return a[i] == v[i]; } ); }
XOV_PROOF( construct ) {
	size_t n = xov::any_size( 4 ); int v = xov::any_i32(); da a( n, v );
	XOV_CHECK( filled( a, n, v ) && a.empty() == ( n == 0 ) && a.end() - a.begin() == long( n ), "a new array has n equal elements" );
	da z; XOV_CHECK( z.empty() && z.size() == 0, "a default array is empty" );
	size_t m = xov::any_size( 4 ); int w = xov::any_i32(); a.resize( m, w ); XOV_CHECK( filled( a, m, w ), "resizing gives m equal elements" );
	a.assign( v ); XOV_CHECK( filled( a, m, v ), "assign sets every element" );
	a.clear(); XOV_CHECK( a.empty() && a.size() == 0, "clear empties" ); XOV_COVER( "end" );
}
XOV_PROOF( element ) {
	std::vector<int> v; da a = any_da( v ); XOV_CHECK( same( a, v ), "elements can be written through data" ); size_t i = xov::any_size( 5 );
	XOV_CHECK( xov::thrown( [&] { a.at( i ); } ) == ( i >= v.size() ), "at throws exactly for an index out of bounds" );
	if ( i < v.size() ) { XOV_COVER( "in" ); int w = xov::any_i32(); a[i] = w; v[i] = w; XOV_CHECK( same( a, v ) && a.at( i ) == w, "writing changes one element" ); } else XOV_COVER( "out" );
}
XOV_PROOF( copying ) {
	std::vector<int> v; da a = any_da( v ); da b( a ); XOV_CHECK( same( b, v ) && same( a, v ), "a copy has the same elements" );
	size_t i = xov::any_size( 4 ); xov::assume( i < v.size() ); int w = xov::any_i32(); b[i] = w; XOV_CHECK( same( a, v ), "writing to a copy leaves the original alone" ); v[i] = w; XOV_CHECK( same( b, v ), "the copy changes" ); XOV_COVER( "end" );
}
XOV_PROOF( assigning ) {
	std::vector<int> v, u; da a = any_da( v ); da b = any_da( u ); b = a; XOV_CHECK( same( b, v ) && same( a, v ), "assignment copies the elements" ); XOV_COVER( "end" );
}
XOV_PROOF( moving ) {
	std::vector<int> v; da a = any_da( v ); da b( std::move( a ) ); XOV_CHECK( same( b, v ) && a.empty() && a.size() == 0, "moving transfers the elements and empties the source" );
	size_t n = xov::any_size( 3 ); da c( n, 5 ); c = std::move( b ); XOV_CHECK( same( c, v ) && b.empty(), "move assignment transfers the elements" );
	da& r = c; c = std::move( r ); XOV_CHECK( same( c, v ), "moving to itself changes nothing" ); XOV_COVER( "end" );
}
XOV_PROOF( comparing ) {
	std::vector<int> v, u; da a = any_da( v ); da b = any_da( u ); bool e = a == b;
	XOV_CHECK( e == ( v.size() == u.size() && xov::forall( 0, long( v.size() ), [&]( size_t i ) { return v[i] == u[i]; } ) ), "equality is equality of sizes and elements" );
	XOV_CHECK( ( a != b ) == !e, "inequality is its negation" ); if ( e ) XOV_COVER( "eq" ); else XOV_COVER( "ne" );
}
// ---------------------------------------------------------------- dynvec
using dv = dynvec<double>;
static dv any_dv( std::vector<double>& v ) { v = xov::any_vector<double>( 4 ); dv a( v.size() ); std::copy( v.data(), v.data() + v.size(), a.data_.data() ); return a; }
template< class F > bool is( const dv& a, size_t n, const F& f ) { return a.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return xov::eq( a[i], f( i ) ); } ); }
XOV_PROOF( vec_add ) {
	std::vector<double> v, u; dv a = any_dv( v ); dv b = any_dv( u ); 
	if ( v.size() != u.size() ) { XOV_CHECK( xov::thrown( [&] { a + b; } ) && xov::thrown( [&] { a += b; } ), "adding vectors of different size is refused" ); XOV_COVER( "size" ); return; }
	XOV_CHECK( is( a + b, v.size(), [&]( size_t i ) { return v[i] + u[i]; } ), "addition is elementwise" );
	XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i]; } ), "operands stay" ); a += b;
	XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i] + u[i]; } ) && is( b, u.size(), [&]( size_t i ) { return u[i]; } ), "in-place addition is elementwise" ); XOV_COVER( "end" );
}
XOV_PROOF( vec_sub ) {
	std::vector<double> v, u; dv a = any_dv( v ); dv b = any_dv( u ); 
	if ( v.size() != u.size() ) { XOV_CHECK( xov::thrown( [&] { a - b; } ) && xov::thrown( [&] { a -= b; } ), "subtracting vectors of different size is refused" ); XOV_COVER( "size" ); return; }
	XOV_CHECK( is( a - b, v.size(), [&]( size_t i ) { return v[i] - u[i]; } ), "subtraction is elementwise" ); a -= b;
	XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i] - u[i]; } ) && is( b, u.size(), [&]( size_t i ) { return u[i]; } ), "in-place subtraction is elementwise" ); XOV_COVER( "end" );
}
XOV_PROOF( vec_neg ) { std::vector<double> v; dv a = any_dv( v ); XOV_CHECK( is( -a, v.size(), [&]( size_t i ) { return -v[i]; } ), "negation is elementwise" ); XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i]; } ), "the operand stays" ); XOV_COVER( "end" ); }
XOV_PROOF( vec_scale ) {
	std::vector<double> v; dv a = any_dv( v ); double s = xov::any_real(); XOV_CHECK( is( a * s, v.size(), [&]( size_t i ) { return v[i] * s; } ), "scaling is elementwise" ); XOV_CHECK( is( s * a, v.size(), [&]( size_t i ) { return s * v[i]; } ), "left scaling is elementwise" );
	a *= s; XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i] * s; } ), "in-place scaling is elementwise" ); XOV_COVER( "end" );
}
XOV_PROOF( vec_divide ) {
	std::vector<double> v; dv a = any_dv( v ); double s = xov::any_real(); xov::assume( s < -1e-3 || s > 1e-3 ); double q = 1 / s;
	XOV_CHECK( is( a / s, v.size(), [&]( size_t i ) { return v[i] * q; } ), "division is elementwise" ); a /= s; XOV_CHECK( is( a, v.size(), [&]( size_t i ) { return v[i] * q; } ), "in-place division is elementwise" ); XOV_COVER( "end" );
}
XOV_PROOF( vec_null ) { std::vector<double> v; dv a = any_dv( v ); XOV_CHECK( a.is_null() == xov::forall( 0, long( v.size() ), [&]( size_t i ) { return v[i] == 0; } ), "a vector is null exactly when every element is" ); XOV_COVER( "end" ); }
XOV_PROOF( vec_equal ) {
	std::vector<double> v, u; dv a = any_dv( v ); dv b = any_dv( u ); xov::assume( v.size() == u.size() );
	bool e = a == b; XOV_CHECK( e == xov::forall( 0, long( v.size() ), [&]( size_t i ) { return v[i] == u[i]; } ), "vectors are equal exactly when every element is" ); XOV_CHECK( ( a != b ) == !e, "inequality is its negation" ); XOV_COVER( "end" );
}
template< size_t N > void products() {
	double u[N + 1], v[N + 1], d = 0, q = 0, w = 0; dv a( N ), b( N ); for ( size_t i = 0; i < N; ++i ) { a[i] = u[i] = xov::any_real(); b[i] = v[i] = xov::any_real(); d += u[i] * v[i]; q += u[i] * u[i]; w += ( u[i] - v[i] ) * ( u[i] - v[i] ); }
	XOV_CHECK( xov::eq( dot_product( a, b ), d ) && xov::eq( a.squared_length(), q ), "inner products sum the products of elements" );
	double l = a.length(), s = distance( a, b ); XOV_CHECK( l >= 0 && xov::eq( l * l, q ) && s >= 0 && xov::eq( s * s, w ), "length and distance are the roots of the sums of squares" ); 
	XOV_CHECK( xov::thrown( [&] { dot_product( a, dv( N + 1 ) ); } ) && xov::thrown( [&] { distance( a, dv( N + 1 ) ); } ), "different sizes are refused" ); XOV_COVER( "end" );
}
XOV_PROOF( products0 ) { products<0>(); }
XOV_PROOF( products1 ) { products<1>(); }
XOV_PROOF( products3 ) { products<3>(); }
XOV_PROOF( normalizing ) {
	dv a( 2 ); double x = a[0] = xov::any_real(), y = a[1] = xov::any_real(); xov::assume( x * x + y * y > 1e-6 ); double l = normalize( a );
	XOV_CHECK( l > 0 && xov::eq( l * l, x * x + y * y ) && xov::eq( a[0] * l, x ) && xov::eq( a[1] * l, y ), "normalising keeps the direction and returns the length" ); XOV_COVER( "end" );
}
// ---------------------------------------------------------------- dynmat: cells are independent; resize keeps the common part
template< size_t C, size_t R > void matrix() {
	dynmat<double> m( C, R, 0.5 ); double v[C * R + 1], x[C + 1]; for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) { XOV_CHECK( m( c, r ) == 0.5, "a new matrix has equal elements" ); m( c, r ) = v[r * C + c] = xov::any_real(); }
	for ( size_t r = 0; r < R; ++r ) for ( size_t c = 0; c < C; ++c ) XOV_CHECK( m( c, r ) == v[r * C + c], "cells are independent" );
	XOV_CHECK( m.cols() == C && m.rows() == R && m.empty() == ( C * R == 0 ), "shape" );
	dv b( C ); for ( size_t c = 0; c < C; ++c ) b[c] = x[c] = xov::any_real(); dv p = m * b; XOV_CHECK( p.size() == R, "the product has one element per row" );
	for ( size_t r = 0; r < R; ++r ) { double s = 0; for ( size_t c = 0; c < C; ++c ) s += v[r * C + c] * x[c]; XOV_CHECK( xov::eq( p[r], s ), "matrix times vector" ); }
	XOV_CHECK( xov::thrown( [&] { m * dv( C + 1 ); } ), "a vector of the wrong size is refused" );
	dynmat<double> k = m; k( 0, 0 ) = 9; XOV_CHECK( m( 0, 0 ) == v[0], "copies are independent" );
	for ( int d = 0; d < 4; ++d ) { size_t c2 = d & 1 ? C + 1 : C - 1, r2 = d & 2 ? R + 1 : R - 1; dynmat<double> n = m; n.resize( c2, r2 ); if ( c2 * r2 ) XOV_CHECK( n.cols() == c2 && n.rows() == r2, "resizing gives the shape" );
		for ( size_t r = 0; r < r2; ++r ) for ( size_t c = 0; c < c2; ++c ) XOV_CHECK( n( c, r ) == ( c < C && r < R ? v[r * C + c] : 0 ), "resizing keeps the common part and zeroes the rest" ); }
	XOV_COVER( "end" );
}
XOV_PROOF( matrix11 ) { matrix<1, 1>(); }
XOV_PROOF( matrix23 ) { matrix<2, 3>(); }
XOV_PROOF( matrix31 ) { matrix<3, 1>(); }
// ---------------------------------------------------------------- the rest of the interface
XOV_PROOF( const_access ) {
	std::vector<int> v; const da a = any_da( v ); size_t i = xov::any_size( 5 ); xov::assume( i < 1000000000 ); XOV_CHECK( same( a, v ), "copied elements" );
	XOV_CHECK( xov::thrown( [&] { a.at( i ); } ) == ( i >= v.size() ), "at throws exactly for an index out of bounds, also for a constant array" );
	XOV_CHECK( a.cend() - a.cbegin() == long( v.size() ) && a.end() - a.begin() == long( v.size() ) && a.data() == &*a.begin() && a.empty() == v.empty(), "iterators span the array" );
	if ( i < v.size() ) { XOV_COVER( "in" ); XOV_CHECK( a.at( i ) == v[i] && a[i] == v[i] && a.data()[i] == v[i] && *( const_cast<da&>( a ).begin() + int( i ) ) == v[i], "reading by index, data and iterator" ); } else XOV_COVER( "out" );
}
XOV_PROOF( vec_rest ) {
	dynvec<double> e; XOV_CHECK( e.empty() && e.size() == 0 && e.is_null(), "a default vector is empty" ); size_t n = xov::any_size( 4 ); double x = xov::any_real(); dynvec<double> a( n, x );
	XOV_CHECK( a.size() == n && a.empty() == ( n == 0 ) && xov::forall( 0, long( n ), [&]( size_t i ) { return a[i] == x; } ), "a new vector has n equal elements" );
	dynvec<double> b; b = a; XOV_CHECK( b.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return b[i] == x; } ) && a.size() == n, "assignment copies" );
	dynvec<double> c; c = std::move( b ); XOV_CHECK( c.size() == n && b.empty() && xov::forall( 0, long( n ), [&]( size_t i ) { return c[i] == x; } ), "moving takes the elements" );
	size_t m = xov::any_size( 4 ); double y = xov::any_real(); c.resize( m, y ); XOV_CHECK( c.size() == m && xov::forall( 0, long( m ), [&]( size_t i ) { return c[i] == y; } ), "resizing gives m equal elements" ); XOV_COVER( "end" );
}
template< size_t N > void vec_fixed() {
	dynvec<double> a( N ), b( N ); for ( size_t i = 0; i < N; ++i ) { a[i] = xov::any_real(); b[i] = xov::any_real(); } const dynvec<double> o = a; double s = 0; for ( size_t i = 0; i < N; ++i ) s += o[i] * o[i]; XOV_CHECK( xov::eq( a.squared_length(), s ), "squared length" ); XOV_CHECK( a.is_null() == ( s == 0 ), "null" );
	a += b; for ( size_t i = 0; i < N; ++i ) XOV_CHECK( xov::eq( a[i], o[i] + b[i] ), "in place addition" ); a = o; a -= b; for ( size_t i = 0; i < N; ++i ) XOV_CHECK( xov::eq( a[i], o[i] - b[i] ), "in place subtraction" ); a = o; a *= 3.0; for ( size_t i = 0; i < N; ++i ) XOV_CHECK( xov::eq( a[i], 3 * o[i] ), "in place scaling" ); a = o; a /= 4.0; for ( size_t i = 0; i < N; ++i ) XOV_CHECK( xov::eq( 4 * a[i], o[i] ), "in place division" );
	dynvec<double> w( N + 1 ); XOV_CHECK( xov::thrown( [&] { a += w; } ) && xov::thrown( [&] { a -= w; } ) && xov::thrown( [&] { a + w; } ) && xov::thrown( [&] { w - a; } ) && xov::thrown( [&] { distance( a, w ); } ) && xov::thrown( [&] { dot_product( w, a ); } ) && xov::thrown( [&] { (void)( a == w ); } ), "different sizes are refused" );
	bool d = false; for ( size_t i = 0; i < N; ++i ) d = d || o[i] != b[i]; XOV_CHECK( ( o == b ) == !d && ( o != b ) == d, "equality" ); XOV_COVER( "end" );
	if constexpr ( N > 0 ) { xov::assume( s > 1 ); dynvec<double> n = normalized( o ); double q = 0; for ( size_t i = 0; i < N; ++i ) q += n[i] * n[i]; XOV_CHECK( xov::eq( q, 1 ), "normalised vectors have length one" ); for ( size_t i = 0; i < N; ++i ) XOV_CHECK( n[i] * o[i] >= 0, "normalising keeps the direction" ); XOV_CHECK( is_normalized( n ), "and are recognised" ); }
}
XOV_PROOF( vec_fixed1 ) { vec_fixed<1>(); }
XOV_PROOF( vec_fixed2 ) { vec_fixed<2>(); }
XOV_PROOF( matrix_rest ) {
	dynmat<int> e; XOV_CHECK( e.empty() && e.cols() == 0 && e.rows() == 0 && e.begin() == e.end(), "a default matrix is empty" );
	dynmat<int> m( 2, 3, 5 ); const dynmat<int>& c = m; XOV_CHECK( m.cols() == 2 && m.rows() == 3 && !m.empty() && m.end() - m.begin() == 6 && c.end() - c.begin() == 6 && c.cend() - c.cbegin() == 6, "a matrix has its cells" );
	for ( size_t i = 0; i < 6; ++i ) XOV_CHECK( *( m.begin() + int( i ) ) == 5, "with the given value" ); int v = xov::any_i32(); m( 1, 2 ) = v; XOV_CHECK( c( 1, 2 ) == v && c( 0, 2 ) == 5 && c( 1, 1 ) == 5, "cells are independent" ); m.clear(); XOV_CHECK( m.empty() && m.cols() == 0 && m.rows() == 0, "clear empties" ); XOV_COVER( "end" );
	dynmat<double> a( 2, 3, 1.0 ); dynvec<double> w( 3, 1.0 ); XOV_CHECK( xov::thrown( [&] { a * w; } ), "a vector of the wrong size is refused" );
}
XOV_PROOF( iterators ) {
	int d[4]; for ( int i = 0; i < 4; ++i ) d[i] = xov::any_i32(); pointer_iterator<int> b( d ), e( d + 4 ), i = b; XOV_COVER( "end" ); XOV_CHECK( e - b == 4 && b < e && !( e < b ) && b != e && i == b && *i == d[0], "iterators compare by position" );
	XOV_CHECK( *( i++ ) == d[0] && *i == d[1] && *( ++i ) == d[2] && *( i-- ) == d[2] && *i == d[1] && *( --i ) == d[0] && *( i + 3 ) == d[3], "stepping moves by one element" ); i = e; XOV_CHECK( i == e, "assignment" ); int n = 0; for ( auto k = b; k != e; ++k ) n += *k == d[n] ? 1 : 100; XOV_CHECK( n == 4, "iteration visits every element in order" );
}
