// N04: vectors compute component by component; products, lengths, projections and unit vectors satisfy their algebra.
#include "xov.h"
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/math.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/vec4.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/angle.h"
using namespace xo;
using xov::eq; using xov::le; using V = vec3d;
static double R() { return xov::any_real(); }
static double big() { double d = R(); xov::assume( d > 0.01 || d < -0.01 ); return d; }
static V A() { double x = R(), y = R(), z = R(); return V( x, y, z ); }
static V B() { double x = big(), y = big(), z = big(); return V( x, y, z ); }
static bool is( const V& v, double x, double y, double z ) { return eq( v.x, x ) && eq( v.y, y ) && eq( v.z, z ); }
static bool same( const V& a, const V& b ) { return a.x == b.x && a.y == b.y && a.z == b.z; }
template< class T > bool is4( const vec4_<T>& v, double x, double y, double z, double w ) { return eq( v.x, x ) && eq( v.y, y ) && eq( v.z, z ) && eq( v.w, w ); }
XOV_PROOF( access ) {
	V a = A(); XOV_COVER( "end" ); XOV_CHECK( a[0] == a.x && a[1] == a.y && a[2] == a.z && a.size() == 3 && a.end() - a.begin() == 3 && a.begin() == &a.x, "indexing and iteration visit x, y and z" );
	XOV_CHECK( a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 ), "null exactly when all components are zero" );
	V b = A(); XOV_CHECK( ( a == b ) == same( a, b ) && ( a != b ) == !same( a, b ), "equality is component wise" );
	double x = R(); V c( a ); c[1] = x; XOV_CHECK( is( c, a.x, x, a.z ), "writing an index changes one component" ); c.set( b.x, b.y, b.z ); XOV_CHECK( same( c, b ), "set" ); c.clear(); XOV_CHECK( c.is_null(), "clear" );
	XOV_CHECK( V().is_null() && same( V::zero(), V( 0, 0, 0 ) ) && same( V::one(), V( 1, 1, 1 ) ) && same( V::diagonal( x ), V( x, x, x ) ), "constant vectors" );
	XOV_CHECK( same( V::unit_x(), V( 1, 0, 0 ) ) && same( V::unit_y(), V( 0, 1, 0 ) ) && same( V::unit_z(), V( 0, 0, 1 ) ) && same( V::neg_unit_x(), V( -1, 0, 0 ) ) && same( V::neg_unit_y(), V( 0, -1, 0 ) ) && same( V::neg_unit_z(), V( 0, 0, -1 ) ), "unit vectors" );
	for ( int i = 0; i < 3; ++i ) { V u = V::axis( i ); for ( int j = 0; j < 3; ++j ) XOV_CHECK( u[j] == ( i == j ? 1 : 0 ), "axis" ); }
}
XOV_PROOF( add_subtract ) {
	V a = A(), b = A(); XOV_COVER( "end" ); XOV_CHECK( is( a + b, a.x + b.x, a.y + b.y, a.z + b.z ), "addition" ); XOV_CHECK( is( a - b, a.x - b.x, a.y - b.y, a.z - b.z ), "subtraction" ); XOV_CHECK( is( -a, -a.x, -a.y, -a.z ), "negation" );
	V c = a; V* p = &( c += b ); XOV_CHECK( p == &c && same( c, a + b ), "in place addition" ); V d = a; p = &( d -= b ); XOV_CHECK( p == &d && same( d, a - b ), "in place subtraction" );
}
XOV_PROOF( multiply_divide ) {
	V a = A(), b = B(); double s = big(); XOV_COVER( "end" );
	XOV_CHECK( is( s * a, s * a.x, s * a.y, s * a.z ) && is( a * s, s * a.x, s * a.y, s * a.z ), "scaling by a number" ); V c = a; c *= s; XOV_CHECK( same( c, a * s ), "in place scaling" );
	V d = a / s; XOV_CHECK( is( d * s, a.x, a.y, a.z ), "division by a number inverts scaling" ); d = a; d /= s; XOV_CHECK( is( d * s, a.x, a.y, a.z ), "in place division" );
	V m = a; m *= b; XOV_CHECK( is( m, a.x * b.x, a.y * b.y, a.z * b.z ) && same( multiply( a, b ), m ), "component wise product" ); V q = a / b; XOV_CHECK( is( V( q.x * b.x, q.y * b.y, q.z * b.z ), a.x, a.y, a.z ), "component wise division" ); q = a; q /= b; XOV_CHECK( same( q, a / b ), "in place component wise division" );
	V r = s / b; XOV_CHECK( is( V( r.x * b.x, r.y * b.y, r.z * b.z ), s, s, s ), "number divided by a vector" );
	V e = a; scale( e, b ); XOV_CHECK( same( e, m ), "scale" ); XOV_CHECK( is( scaled( a, b ), m.x, m.y, m.z ), "scaled" );
	V av = xo::abs( a ); XOV_CHECK( av.x >= 0 && av.y >= 0 && av.z >= 0 && ( av.x == a.x || av.x == -a.x ) && ( av.y == a.y || av.y == -a.y ) && ( av.z == a.z || av.z == -a.z ), "absolute components" );
}
XOV_PROOF( average ) {
	V a = A(); size_t n = xov::any_size(); xov::assume( n > 0 && n < 1000000000 ); XOV_COVER( "end" ); V d = a / n; XOV_CHECK( is( d * double( n ), a.x, a.y, a.z ), "division by a count" ); V e = a; e /= n; XOV_CHECK( same( e, d ), "in place division by a count" );
}
XOV_PROOF( products ) {
	V a = A(), b = A(), c = A(); double s = R(); XOV_COVER( "end" ); double d = dot_product( a, b ); V x = cross_product( a, b );
	XOV_CHECK( eq( d, a.x * b.x + a.y * b.y + a.z * b.z ), "dot product" ); XOV_CHECK( eq( squared_length( a ), dot_product( a, a ) ), "squared length" );
	XOV_CHECK( is( x, a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x ), "cross product" );
	XOV_CHECK( eq( dot_product( x, a ), 0 ) && eq( dot_product( x, b ), 0 ), "the cross product is orthogonal to both factors" );
	V y = cross_product( b, a ); XOV_CHECK( is( x, -y.x, -y.y, -y.z ), "the cross product is anticommutative" );
	XOV_CHECK( eq( squared_distance( a, b ), ( a.x - b.x ) * ( a.x - b.x ) + ( a.y - b.y ) * ( a.y - b.y ) + ( a.z - b.z ) * ( a.z - b.z ) ), "squared distance" );
	V z = cross_product( V::unit_x(), V::unit_y() ); XOV_CHECK( same( z, V::unit_z() ), "axes are right handed" );
}
XOV_PROOF( lengths ) {
	V a = A(), b = A(); double l = length( a ), d = distance( a, b ); XOV_COVER( "end" ); XOV_CHECK( l >= 0 && eq( l * l, a.x * a.x + a.y * a.y + a.z * a.z ), "length" );
	XOV_CHECK( d >= 0 && eq( d * d, squared_distance( a, b ) ), "distance" ); double m = manhattan_length( a ); XOV_CHECK( eq( m, std::fabs( a.x ) + std::fabs( a.y ) + std::fabs( a.z ) ), "manhattan length" );
	if ( l == 0 ) XOV_CHECK( a.is_null(), "only the null vector has no length" );
}
XOV_PROOF( unit ) {
	V a = A(), b = a; double r = normalize( b ); double ll = a.x * a.x + a.y * a.y + a.z * a.z;
	XOV_CHECK( r >= 0 && eq( r * r, ll ), "normalize returns the length" );
	if ( ll > 1e-6 ) { XOV_COVER( "long" ); XOV_CHECK( eq( b.x * r, a.x ) && eq( b.y * r, a.y ) && eq( b.z * r, a.z ), "normalizing keeps the direction" ); }
	if ( ll == 0 ) { XOV_COVER( "null" ); XOV_CHECK( b.is_null(), "the null vector stays" ); }
}
XOV_PROOF( unit_length ) {
	V a = A(); xov::assume( a.x * a.x + a.y * a.y + a.z * a.z > 1e-6 ); V b = a; normalize( b ); XOV_COVER( "end" ); XOV_CHECK( eq( b.x * b.x + b.y * b.y + b.z * b.z, 1 ), "a normalized vector has unit length" );
}
XOV_PROOF( unit_variants ) {
	V a = A(); V b = a; double r = normalize( b ); XOV_COVER( "end" ); V c = normalized( a ); XOV_CHECK( is( c, b.x, b.y, b.z ), "normalized" ); auto dl = direction_length( a ); XOV_CHECK( is( dl.first, b.x, b.y, b.z ) && eq( dl.second, r ), "direction and length" );
	double s = a.x * a.x + a.y * a.y + a.z * a.z; if ( is_normalized( a ) ) XOV_CHECK( s > 0.999999 && s < 1.000001, "only vectors of unit length are normalized" ); if ( s == 1 ) XOV_CHECK( is_normalized( a ), "vectors of unit length are normalized" );
}
XOV_PROOF( project ) {
	V a = A(), b = A(); double ll = b.x * b.x + b.y * b.y + b.z * b.z; xov::assume( ll > 0.01 ); XOV_COVER( "end" ); V p = projection( a, b ); double d = a.x * b.x + a.y * b.y + a.z * b.z;
	XOV_CHECK( is( V( p.x * ll, p.y * ll, p.z * ll ), d * b.x, d * b.y, d * b.z ), "the projection is the multiple of the target given by the dot product" );
	XOV_CHECK( is( projected_xy( a ), a.x, a.y, 0 ) && is( projected_xz( a ), a.x, 0, a.z ) && is( projected_yz( a ), 0, a.y, a.z ), "projections on the coordinate planes" );
}
XOV_PROOF( clamping ) {
	V a = A(), b = a; double l = R(), u = R(); xov::assume( l <= u ); V* p = &xo::clamp( b, l, u ); XOV_COVER( "end" ); XOV_CHECK( p == &b, "clamp returns its argument" );
	for ( int i = 0; i < 3; ++i ) XOV_CHECK( b[i] == ( a[i] < l ? l : a[i] > u ? u : a[i] ), "every component is clamped" );
}
XOV_PROOF( nearly_equal ) {
	V a = A(), c = A(); XOV_COVER( "end" ); double e = R(); xov::assume( e >= 0 ); bool q = xo::equal( a, c, e ); for ( int i = 0; i < 3; ++i ) if ( q ) XOV_CHECK( le( std::fabs( a[i] - c[i] ), e * std::fabs( a[i] ) ), "nearly equal vectors have nearly equal components" );
	if ( same( a, c ) ) XOV_CHECK( q, "equal vectors are nearly equal" );
}
XOV_PROOF( four ) {
	vec4d a( R(), R(), R(), R() ), b( R(), R(), R(), R() ); double s = big(); XOV_COVER( "end" );
	XOV_CHECK( is4( a + b, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ) && is4( a - b, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ) && is4( -a, -a.x, -a.y, -a.z, -a.w ), "four-vectors add and subtract by component" );
	vec4d c = a; c += b; vec4d d = a; d -= b; vec4d e = a; e *= s; XOV_CHECK( is4( c, a.x + b.x, a.y + b.y, a.z + b.z, a.w + b.w ) && is4( d, a.x - b.x, a.y - b.y, a.z - b.z, a.w - b.w ) && is4( e, a.x * s, a.y * s, a.z * s, a.w * s ), "in place" );
	XOV_CHECK( is4( a * s, a.x * s, a.y * s, a.z * s, a.w * s ) && is4( s * a, a.x * s, a.y * s, a.z * s, a.w * s ), "scaling" ); vec4d f = a / s, g = a; g /= s; XOV_CHECK( is4( f * s, a.x, a.y, a.z, a.w ) && is4( g * s, a.x, a.y, a.z, a.w ), "division" );
	XOV_CHECK( eq( a.squared_length(), a.x * a.x + a.y * a.y + a.z * a.z + a.w * a.w ) && a.length() >= 0 && eq( a.length() * a.length(), a.squared_length() ), "length" );
	XOV_CHECK( a[0] == a.x && a[1] == a.y && a[2] == a.z && a[3] == a.w && a.is_null() == ( a.x == 0 && a.y == 0 && a.z == 0 && a.w == 0 ), "access" );
}
XOV_PROOF( scaling ) {
	scale3d s( big(), big(), big() ), t( big(), big(), big() ); V v = A(); XOV_COVER( "end" );
	V w = s * v; XOV_CHECK( is( w, s.x * v.x, s.y * v.y, s.z * v.z ), "scaling multiplies components" ); V w2 = v * s; XOV_CHECK( is( w2, s.x * v.x, s.y * v.y, s.z * v.z ), "scaling from the right" ); V d = w / s; XOV_CHECK( is( d, v.x, v.y, v.z ), "division inverts scaling" );
	V m = v; m *= s; XOV_CHECK( same( m, w2 ), "in place scaling" ); m /= s; XOV_CHECK( is( m, v.x, v.y, v.z ), "in place division" );
	V c = ( s * t ) * v, c2 = s * ( t * v ); XOV_CHECK( is( c, c2.x, c2.y, c2.z ), "scales compose" ); scale3d r = s / t; XOV_CHECK( is( r, s.x / t.x, s.y / t.y, s.z / t.z ), "scales divide" );
	scale3d o; XOV_CHECK( o.is_one() && same( o, V( 1, 1, 1 ) ), "the default scale is one" ); XOV_CHECK( s.is_one() == ( s.x == 1 && s.y == 1 && s.z == 1 ), "one" ); s.reset(); XOV_CHECK( s.is_one(), "reset" );
	double u = R(); scale3d un( u ); XOV_CHECK( same( un, V( u, u, u ) ), "uniform scale" );
}
XOV_PROOF( angles ) {
	double a = R(), b = R(); degreed d( a ); radiand r( d ); XOV_COVER( "end" ); XOV_CHECK( eq( r.value * 180, a * 3.14159265358979323846 ) || std::fabs( r.value * 180 - a * 3.14159265358979323846 ) <= 1e-12 * ( 1 + std::fabs( a ) ), "radians from degrees" );
	XOV_CHECK( eq( d.deg_value(), a ) && eq( r.rad_value(), r.value ) && eq( d.rad_value(), r.value ), "values" ); radiand rb( b ); degreed e( rb ); XOV_CHECK( std::fabs( e.value * 3.14159265358979323846 - b * 180 ) <= 1e-10 * ( 1 + std::fabs( b ) ), "degrees from radians" );
	degreed c( b ); XOV_CHECK( eq( ( d + c ).value, a + b ) && eq( ( d - c ).value, a - b ) && eq( ( -d ).value, -a ) && eq( ( d * 2.0 ).value, 2 * a ), "angles add" ); XOV_CHECK( ( d < c ) == ( a < b ) && ( d == c ) == ( a == b ) && ( d > c ) == ( a > b ), "angles compare" );
}
XOV_PROOF( polar ) {
	double rad = R(); radiand i( R() ), z( R() ); V v = vec3_from_polar( rad, i, z ); XOV_COVER( "end" ); XOV_CHECK( eq( v.x * v.x + v.y * v.y + v.z * v.z, rad * rad ), "a polar vector has the given radius" );
	XOV_CHECK( eq( v.y, rad * std::cos( i.value ) ), "inclination is measured from the y axis" ); XOV_CHECK( eq( v.x, rad * std::sin( i.value ) * std::sin( z.value ) ) && eq( v.z, rad * std::sin( i.value ) * std::cos( z.value ) ), "azimuth is measured from the z axis" );
}
// ---------------------------------------------------------------- the rest of the interface
XOV_PROOF( accessors ) {
	const V a = A(); XOV_COVER( "end" ); XOV_CHECK( a[0] == a.x && a[1] == a.y && a[2] == a.z && a.end() - a.begin() == 3 && a.begin() == &a.x && !a.is_nan(), "a constant vector is read by index" );
	V m( a ); XOV_CHECK( m.begin() == &m.x && m.end() == &m.x + 3, "iteration starts at x" ); *( m.begin() + 2 ) = 7; XOV_CHECK( same( m, V( a.x, a.y, 7 ) ), "iterators write components" );
	V f{ vec3f( 1.0f, 2.0f, 3.0f ) }; XOV_CHECK( same( f, V( 1, 2, 3 ) ), "conversion keeps components" );
	vec4d u; XOV_CHECK( u.is_null() && is4( vec4d::zero(), 0, 0, 0, 0 ) && is4( vec4d::unit_x(), 1, 0, 0, 0 ) && is4( vec4d::unit_y(), 0, 1, 0, 0 ) && is4( vec4d::unit_z(), 0, 0, 1, 0 ) && is4( vec4d::unit_w(), 0, 0, 0, 1 ), "constant four-vectors" );
	const vec4d c( R(), R(), R(), R() ); XOV_CHECK( c[0] == c.x && c[1] == c.y && c[2] == c.z && c[3] == c.w, "a constant four-vector is read by index" ); vec4d w( c ); double x = R(); w[2] = x; XOV_CHECK( is4( w, c.x, c.y, x, c.w ), "writing an index changes one component" );
}
XOV_PROOF( scale_forms ) {
	scale3d s( big(), big(), big() ), t( big(), big(), big() ); double u = R(); XOV_COVER( "end" ); XOV_CHECK( same( scale3d::one(), V( 1, 1, 1 ) ) && same( scale3d::uniform( u ), V( u, u, u ) ), "constant scales" );
	scale3d p = s; p *= t; XOV_CHECK( same( p, s * t ) && is( p, s.x * t.x, s.y * t.y, s.z * t.z ), "in place product of scales" ); p /= t; XOV_CHECK( is( p, s.x, s.y, s.z ), "in place quotient of scales" );
	scale3d q; q.set( s.x, s.y, s.z ); XOV_CHECK( same( q, s ), "set" ); scale3d i( 1, 2, 3 ); XOV_CHECK( same( i, V( 1, 2, 3 ) ), "from whole numbers" ); scale3d g{ scale3f( 2.0f, 3.0f, 4.0f ) }; XOV_CHECK( same( g, V( 2, 3, 4 ) ), "conversion keeps components" );
}
static const double PI = 3.14159265358979323846;
static bool near( double a, double b, double f ) { return std::fabs( a - b ) <= 1e-12 * ( 1 + std::fabs( f ) ); }
XOV_PROOF( angle_arithmetic ) {
	double a = R(), b = R(), s = big(); degreed d( a ), c( b ); XOV_COVER( "end" ); degreed x = d; x += c; XOV_CHECK( eq( x.value, a + b ), "in place addition" ); x = d; x -= c; XOV_CHECK( eq( x.value, a - b ), "in place subtraction" );
	x = d; x *= s; XOV_CHECK( eq( x.value, a * s ) && eq( ( d * s ).value, a * s ) && eq( ( s * d ).value, a * s ), "scaling" ); x = d; x /= s; XOV_CHECK( eq( x.value * s, a ) && eq( ( d / s ).value * s, a ), "division" );
	XOV_CHECK( ( d >= c ) == ( a >= b ) && ( d <= c ) == ( a <= b ) && ( d != c ) == ( a != b ), "angles compare" ); degreed m = abs( d ); XOV_CHECK( m.value == ( a < 0 ? -a : a ), "absolute angle" ); degreed zero; radiand zr; XOV_CHECK( zero.value == 0 && zr.value == 0 && double( d ) == a && double( radiand( b ) ) == b, "values" );
	XOV_CHECK( near( rad_to_deg( a ) * PI, 180 * a, 1000 * a ) && near( deg_to_rad( a ) * 180, PI * a, 1000 * a ), "numbers convert between radians and degrees" ); degreed y( 1.0 ); y = d; radiand z( 1.0 ); z = radiand( b ); XOV_CHECK( y.value == a && z.value == b, "assignment" );
	radiand r( a ), q( b ); radiand k = r; k += q; XOV_CHECK( eq( k.value, a + b ) && eq( ( r - q ).value, a - b ) && eq( ( -r ).value, -a ) && ( r < q ) == ( a < b ), "radians add and compare" );
}
XOV_PROOF( angle_literals ) {
	XOV_COVER( "end" ); XOV_CHECK( ( 90.0_degd ).value == 90 && ( 90_degd ).value == 90 && ( 2.5_degf ).value == 2.5f && ( 3_degf ).value == 3 && ( 0.5_radd ).value == 0.5 && ( 2_radd ).value == 2 && ( 0.25_radf ).value == 0.25f && ( 4_radf ).value == 4, "literals are what they say" );
	radiand r( 180_degd ); XOV_CHECK( near( r.value, PI, 1000 ), "half a turn" ); radiand f( degreef( 2.0f ) ); XOV_CHECK( near( f.value * 90, PI, 1e6 ), "conversion between types" );
}
XOV_PROOF( angle_functions ) { double a = R(); xov::assume( a < 1 && a > -1 ); radiand r( a ); XOV_COVER( "end" ); XOV_CHECK( eq( sin( r ), std::sin( a ) ) && eq( cos( r ), std::cos( a ) ) && eq( tan( r ), std::tan( a ) ) && eq( asin( r ), std::asin( a ) ) && eq( acos( r ), std::acos( a ) ) && eq( atan( r ), std::atan( a ) ), "functions of an angle take radians" ); degreed d( a ); double v = d.rad_value(); XOV_CHECK( eq( sin( d ), std::sin( v ) ) && eq( cos( d ), std::cos( v ) ) && eq( tan( d ), std::tan( v ) ), "functions of degrees convert" ); }
