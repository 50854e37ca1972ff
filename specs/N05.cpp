// N05: unit quaternions are rotations: products compose, conjugates invert, axes and matrices agree, constructions
// from angles, axes, Euler angles and directions rotate as their name says.
#include "xov.h"
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/math.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/mat33.h"
using namespace xo;
using xov::eq; using xov::le; using V = vec3d; using Q = quatd;
static double R() { return xov::any_real(); }
static V A() { double x = R(), y = R(), z = R(); return V( x, y, z ); }
static double sq( const Q& q ) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
static double sq( const V& v ) { return v.x * v.x + v.y * v.y + v.z * v.z; }
static Q any() { double w = R(), x = R(), y = R(), z = R(); return Q( w, x, y, z ); }
static Q unit() { Q q = any(); if ( xov::sym() ) xov::assume( sq( q ) == 1 ); else { double l = std::sqrt( sq( q ) ); xov::assume( l > 0.1 ); q.set( q.w / l, q.x / l, q.y / l, q.z / l ); } return q; }
static V unitv() { V v = A(); if ( xov::sym() ) xov::assume( sq( v ) == 1 ); else { double l = std::sqrt( sq( v ) ); xov::assume( l > 0.1 ); v.set( v.x / l, v.y / l, v.z / l ); } return v; }
// rotation by definition: vector part of q (0,v) q*
static V rot( const Q& q, const V& v ) {
	double w = q.w, x = q.x, y = q.y, z = q.z;
	return V( ( w * w + x * x - y * y - z * z ) * v.x + 2 * ( x * y - w * z ) * v.y + 2 * ( x * z + w * y ) * v.z, 2 * ( x * y + w * z ) * v.x + ( w * w - x * x + y * y - z * z ) * v.y + 2 * ( y * z - w * x ) * v.z, 2 * ( x * z - w * y ) * v.x + 2 * ( y * z + w * x ) * v.y + ( w * w - x * x - y * y + z * z ) * v.z );
}
#define SAMEV( a, b, l ) { const V a_ = a, b_ = b; XOV_CHECK( eq( a_.x, b_.x ), l " (x)" ); XOV_CHECK( eq( a_.y, b_.y ), l " (y)" ); XOV_CHECK( eq( a_.z, b_.z ), l " (z)" ); }
#define SAMEQ( a, b, l ) { const Q a_ = a, b_ = b; XOV_CHECK( eq( a_.w, b_.w ), l " (w)" ); XOV_CHECK( eq( a_.x, b_.x ), l " (x)" ); XOV_CHECK( eq( a_.y, b_.y ), l " (y)" ); XOV_CHECK( eq( a_.z, b_.z ), l " (z)" ); }
XOV_PROOF( product ) {
	Q p = any(), q = any(), r = any(); Q m = p * q; XOV_COVER( "end" );
	SAMEQ( m, Q( p.w * q.w - p.x * q.x - p.y * q.y - p.z * q.z, p.w * q.x + p.x * q.w + p.y * q.z - p.z * q.y, p.w * q.y - p.x * q.z + p.y * q.w + p.z * q.x, p.w * q.z + p.x * q.y - p.y * q.x + p.z * q.w ), "Hamilton product" );
	XOV_CHECK( eq( sq( m ), sq( p ) * sq( q ) ), "lengths multiply" ); SAMEQ( ( p * q ) * r, p * ( q * r ), "the product is associative" );
	SAMEQ( p * Q::identity(), p, "identity is neutral on the right" ); SAMEQ( Q::identity() * p, p, "identity is neutral on the left" );
	Q n = p; Q* a = &( n *= q ); SAMEQ( n, m, "in place product" ); XOV_CHECK( a == &n, "in place product returns its target" ); Q s = p; s *= p; SAMEQ( s, p * p, "squaring in place" );
}
XOV_PROOF( rotate ) { Q q = unit(); V v = A(), w = q * v; XOV_COVER( "end" ); SAMEV( w, rot( q, v ), "a unit quaternion rotates" ); XOV_CHECK( eq( sq( w ), sq( v ) ), "rotation keeps the length" ); }
XOV_PROOF( rotate_dot ) { Q q = unit(); V u = A(), v = A(); XOV_COVER( "end" ); XOV_CHECK( eq( dot_product( q * u, q * v ), dot_product( u, v ) ), "rotation keeps inner products" ); }
XOV_PROOF( compose ) { Q p = unit(), q = unit(); V v = A(); XOV_COVER( "end" ); SAMEV( ( p * q ) * v, p * ( q * v ), "the product rotates by the second, then by the first" ); }
XOV_PROOF( inverses ) {
	Q q = unit(); V v = A(); XOV_COVER( "end" ); Q c = conjugate( q ), n = -q; SAMEQ( c, Q( q.w, -q.x, -q.y, -q.z ), "conjugate" ); SAMEQ( n, c, "minus is the conjugate" ); SAMEV( c * ( q * v ), v, "the conjugate undoes the rotation" ); SAMEQ( q * c, Q::identity(), "a unit quaternion times its conjugate" );
}
XOV_PROOF( inverse_any ) {
	Q q = any(); xov::assume( sq( q ) > 0.01 ); Q i = inverse( q ); XOV_COVER( "end" ); SAMEQ( q * i, Q::identity(), "a quaternion times its inverse is the identity" ); SAMEQ( i * q, Q::identity(), "the inverse times the quaternion is the identity" );
}
XOV_PROOF( between ) { Q p = unit(), q = unit(); XOV_COVER( "end" ); SAMEQ( p * quat_from_quats( p, q ), q, "the rotation from source to target composed with the source is the target" ); }
XOV_PROOF( properties ) {
	Q q = any(); double l = length( q ); XOV_COVER( "end" ); XOV_CHECK( l >= 0 && eq( l * l, sq( q ) ) && eq( squared_length( q ), sq( q ) ), "length" ); double lx = length_xyz( q ); XOV_CHECK( lx >= 0 && eq( lx * lx, q.x * q.x + q.y * q.y + q.z * q.z ), "length of the imaginary part" );
	XOV_CHECK( q.is_identity() == ( q.w == 1 && q.x == 0 && q.y == 0 && q.z == 0 ), "identity test" ); Q d; XOV_CHECK( d.is_identity() && Q::identity().is_identity(), "default is identity" );
	Q s = q; double f = R(); s *= f; SAMEQ( s, Q( q.w * f, q.x * f, q.y * f, q.z * f ), "scaling" );
}
XOV_PROOF( comparisons ) {
	Q p = any(), q = any(); bool e = p.w == q.w && p.x == q.x && p.y == q.y && p.z == q.z; XOV_COVER( "end" ); XOV_CHECK( ( p == q ) == e && ( p != q ) == !e, "equality is component wise" ); if ( e ) XOV_CHECK( xo::equal( p, q ), "equal quaternions are nearly equal" );
	if ( is_normalized( q ) ) XOV_CHECK( sq( q ) > 0.999999 && sq( q ) < 1.000001, "only unit quaternions are normalized" );
	if ( is_identity( q ) ) XOV_CHECK( std::fabs( q.w - 1 ) < 1e-6 && std::fabs( q.x ) < 1e-6 && std::fabs( q.y ) < 1e-6 && std::fabs( q.z ) < 1e-6, "only the identity is nearly the identity" );
}
XOV_PROOF( unit_is_normalized ) { Q q = unit(); XOV_COVER( "end" ); XOV_CHECK( is_normalized( q ), "unit quaternions are normalized" ); XOV_CHECK( is_identity( Q::identity() ), "the identity is identity" ); }
XOV_PROOF( normalizing ) {
	Q q = any(); xov::assume( sq( q ) > 0.01 ); Q n = q; double l = normalize( n ); XOV_COVER( "end" ); XOV_CHECK( l > 0 && eq( l * l, sq( q ) ), "normalize returns the length" ); SAMEQ( Q( n.w * l, n.x * l, n.y * l, n.z * l ), q, "normalizing keeps the rotation" ); XOV_CHECK( eq( sq( n ), 1 ), "a normalized quaternion has unit length" );
	SAMEQ( normalized( q ), n, "normalized" );
}
XOV_PROOF( normalizing_fast ) {
	Q q = any(); double s = sq( q ); Q n = normalized_fast( q ); XOV_COVER( "end" ); SAMEQ( Q( n.w * ( 1 + s ), n.x * ( 1 + s ), n.y * ( 1 + s ), n.z * ( 1 + s ) ), Q( 2 * q.w, 2 * q.x, 2 * q.y, 2 * q.z ), "fast normalization scales by 2 / ( 1 + squared length )" );
	Q m = q; normalize_fast( m ); SAMEQ( m, n, "in place" );
}
XOV_PROOF( normalizing_try_fast ) {
	Q q = any(); double s = sq( q ); xov::assume( s > 0.01 ); Q n = normalized_try_fast( q ); double m = sq( n ); XOV_COVER( "end" ); XOV_CHECK( le( 0.999999, m ) && le( m, 1.000001 ), "the result has (nearly) unit length" ); double d = n.w * q.x - n.x * q.w; XOV_CHECK( eq( d, 0 ) && eq( n.y * q.z, n.z * q.y ), "the direction is kept" ); XOV_CHECK( q.w <= 0 || n.w > 0, "the orientation is kept" );
}
XOV_PROOF( positive_w ) { Q q = any(), p = positive( q ); XOV_COVER( "end" ); XOV_CHECK( p.w >= 0, "w is made positive" ); if ( q.w >= 0 ) { SAMEQ( p, q, "kept if positive" ); } else { SAMEQ( p, Q( -q.w, -q.x, -q.y, -q.z ), "negated if negative" ); } }
XOV_PROOF( axes ) {
	Q q = unit(); XOV_COVER( "end" ); V x = local_x_axis( q ), y = local_y_axis( q ), z = local_z_axis( q ); SAMEV( x, rot( q, V( 1, 0, 0 ) ), "local x axis" ); SAMEV( y, rot( q, V( 0, 1, 0 ) ), "local y axis" ); SAMEV( z, rot( q, V( 0, 0, 1 ) ), "local z axis" );
	auto a = axes_from_quat( q ); SAMEV( a.x, x, "first axis" ); SAMEV( a.y, y, "second axis" ); SAMEV( a.z, z, "third axis" );
}
static mat33d matrix( const Q& q ) { V x = rot( q, V( 1, 0, 0 ) ), y = rot( q, V( 0, 1, 0 ) ), z = rot( q, V( 0, 0, 1 ) ); return mat33d( x.x, y.x, z.x, x.y, y.y, z.y, x.z, y.z, z.z ); }
XOV_PROOF( matrices ) {
	V x = A(), y = A(), z = A(); mat33d m = mat33_from_axes( x, y, z ); XOV_COVER( "end" ); for ( int i = 0; i < 3; ++i ) XOV_CHECK( m[i][0] == x[i] && m[i][1] == y[i] && m[i][2] == z[i], "axes are the columns" );
	mat33d d = mat33_from_diagonal( x ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) XOV_CHECK( d[i][j] == ( i == j ? x[i] : 0 ), "diagonal matrix" );
}
XOV_PROOF( from_matrix_w ) { Q q = unit(); xov::assume( q.w > 0.5001 ); mat33d m = matrix( q ); Q p = quat_from_mat33( m ); XOV_COVER( "end" ); SAMEQ( p, q, "the quaternion of a rotation matrix" ); }
static void from_matrix( const Q& q ) { mat33d m = matrix( q ); Q p = quat_from_mat33( m ); XOV_COVER( "end" ); XOV_CHECK( eq( p.w * p.w, q.w * q.w ), "up to sign (w)" ); XOV_CHECK( eq( p.w * p.x, q.w * q.x ), "up to sign (wx)" ); XOV_CHECK( eq( p.x * p.x, q.x * q.x ), "up to sign (x)" ); XOV_CHECK( eq( p.x * p.y, q.x * q.y ), "up to sign (xy)" ); XOV_CHECK( eq( p.x * p.z, q.x * q.z ), "up to sign (xz)" ); XOV_CHECK( eq( p.y * p.z, q.y * q.z ), "up to sign (yz)" ); XOV_CHECK( eq( p.w * p.z, q.w * q.z ), "up to sign (wz)" ); XOV_CHECK( eq( p.w * p.y, q.w * q.y ), "up to sign (wy)" ); }
XOV_PROOF( from_matrix_x ) { Q q = unit(); double x = q.x * q.x; xov::assume( q.w * q.w < 0.2499 && x > q.y * q.y + 0.0001 && x > q.z * q.z + 0.0001 ); from_matrix( q ); }
XOV_PROOF( from_matrix_y ) { Q q = unit(); double y = q.y * q.y; xov::assume( q.w * q.w < 0.2499 && y > q.x * q.x + 0.0001 && y > q.z * q.z + 0.0001 ); from_matrix( q ); }
XOV_PROOF( from_matrix_z ) { Q q = unit(); double z = q.z * q.z; xov::assume( q.w * q.w < 0.2499 && z > q.x * q.x + 0.0001 && z > q.y * q.y + 0.0001 ); from_matrix( q ); }
XOV_PROOF( directions ) {
	V a = unitv(), b = unitv(); double d = a.x * b.x + a.y * b.y + a.z * b.z; xov::assume( d > -0.99 ); { V c = cross_product( a, b ); XOV_CHECK( eq( ( d + 1.0f ) * ( d + 1.0f ) + c.x * c.x + c.y * c.y + c.z * c.z, 2 * ( 1 + d ) ), "squared length before normalizing" ); } Q q = quat_from_directions( a, b ); XOV_COVER( "end" ); XOV_CHECK( eq( sq( q ), 1 ), "the result is a unit quaternion" ); V r = rot( q, a ); SAMEV( r, b, "the rotation takes the source direction to the target" );
}
XOV_PROOF( opposite_across_x ) { V a = unitv(); if ( xov::sym() ) xov::assume( a.x == 0 ); else { double l = std::sqrt( a.y * a.y + a.z * a.z ); xov::assume( l > 0.1 ); a.set( 0, a.y / l, a.z / l ); } V b( -a.x, -a.y, -a.z ); Q q = quat_from_directions( a, b ); XOV_COVER( "end" ); XOV_CHECK( eq( sq( q ), 1 ), "unit" ); SAMEV( rot( q, a ), b, "opposite directions orthogonal to x" ); }
XOV_FINDING( opposite_directions ) { V a = unitv(); V b( -a.x, -a.y, -a.z ); Q q = quat_from_directions( a, b ); SAMEV( rot( q, a ), b, "opposite directions" ); }
XOV_PROOF( axis_angle ) {
	V a = unitv(); double t = R(); Q q = quat_from_axis_angle( a, radiand( t ) ); double s = std::sin( 0.5 * t ), c = std::cos( 0.5 * t ); XOV_COVER( "end" ); SAMEQ( q, Q( c, s * a.x, s * a.y, s * a.z ), "quaternion of an axis and angle" ); XOV_CHECK( eq( sq( q ), 1 ), "unit length" ); SAMEV( rot( q, a ), a, "the axis stays fixed" );
}
XOV_PROOF( axis_angle_degrees ) { V a = unitv(); double t = R(); degreed d( t ); Q q = quat_from_axis_angle( a, d ), p = quat_from_axis_angle( a, radiand( d ) ); XOV_COVER( "end" ); SAMEQ( q, p, "degrees and radians agree" ); }
XOV_PROOF( rotation_vector ) {
	V v = A(); Q q = quat_from_rotation_vector( v ); double l = std::sqrt( sq( v ) ); if ( l > 0.001 ) { XOV_COVER( "turn" ); double s = std::sin( 0.5 * l ); XOV_CHECK( eq( q.w, std::cos( 0.5 * l ) ), "angle is the length of the vector" ); SAMEV( V( q.x * l, q.y * l, q.z * l ), V( s * v.x, s * v.y, s * v.z ), "axis is the direction of the vector" ); }
	else if ( l == 0 ) { XOV_COVER( "zero" ); XOV_CHECK( q.is_identity(), "the null vector is no rotation" ); }
}
XOV_PROOF( to_rotation_vector ) {
	Q q = unit(); xov::assume( q.w < 1 && q.w > -1 && q.x * q.x + q.y * q.y + q.z * q.z > 0.0001 ); V v = rotation_vector_from_quat( q ); double a = 2 * std::acos( q.w ), l = std::sqrt( q.x * q.x + q.y * q.y + q.z * q.z ); XOV_COVER( "end" ); SAMEV( V( v.x * l, v.y * l, v.z * l ), V( a * q.x, a * q.y, a * q.z ), "axis times angle" );
	auto va = rotation_vector_angle_from_quat( q ); SAMEV( va.first, v, "with angle" ); XOV_CHECK( eq( va.second.value, a ), "angle" ); auto aa = axis_angle_from_quat( q ); XOV_CHECK( eq( aa.second.value, a ), "angle of axis and angle" ); SAMEV( V( aa.first.x * l, aa.first.y * l, aa.first.z * l ), V( q.x, q.y, q.z ), "axis of axis and angle" );
}
XOV_PROOF( no_rotation ) { Q q; XOV_COVER( "end" ); XOV_CHECK( rotation_vector_from_quat( q ).is_null() && rotation_vector_angle_from_quat( q ).first.is_null() && rotation_vector_angle_from_quat( q ).second.value == 0 && axis_angle_from_quat( q ).second.value == 0, "the identity has no rotation" ); }
static Q ax( int i, double t ) { double s = std::sin( 0.5 * t ); return Q( std::cos( 0.5 * t ), i == 0 ? s : 0, i == 1 ? s : 0, i == 2 ? s : 0 ); }
XOV_PROOF( axis_quats ) { double t = R(); radiand a( t ); XOV_COVER( "end" ); SAMEQ( quat_from_x_angle( a ), ax( 0, t ), "x" ); SAMEQ( quat_from_y_angle( a ), ax( 1, t ), "y" ); SAMEQ( quat_from_z_angle( a ), ax( 2, t ), "z" ); }
static void euler( euler_order o, int i, int j, int k ) { double e[3] = { R(), R(), R() }; Q q = quat_from_euler( vec3radd( radiand( e[0] ), radiand( e[1] ), radiand( e[2] ) ), o ); XOV_COVER( "end" ); SAMEQ( q, ax( i, e[i] ) * ax( j, e[j] ) * ax( k, e[k] ), "Euler angles turn about the axes in the named order" ); SAMEQ( quat_from_euler( radiand( e[0] ), radiand( e[1] ), radiand( e[2] ), o ), q, "single angles" ); }
XOV_PROOF( euler_xyz ) { euler( euler_order::xyz, 0, 1, 2 ); }
XOV_PROOF( euler_xzy ) { euler( euler_order::xzy, 0, 2, 1 ); }
XOV_PROOF( euler_yxz ) { euler( euler_order::yxz, 1, 0, 2 ); }
XOV_PROOF( euler_yzx ) { euler( euler_order::yzx, 1, 2, 0 ); }
XOV_PROOF( euler_zxy ) { euler( euler_order::zxy, 2, 0, 1 ); }
XOV_PROOF( euler_zyx ) { euler( euler_order::zyx, 2, 1, 0 ); }
// Euler angles of a rotation: R = R_i(a) R_j(b) R_k(c); sg is +1 for cyclic orders. With M the matrix of the rotation,
// M[i][k] = sg sin b, tan a = -sg M[j][k] / M[k][k], tan c = -sg M[i][j] / M[i][i], with cos b >= 0.
static void angles( euler_order o, int i, int j, int k, double sg ) {
	Q q = unit(); mat33d m = matrix( q ); xov::assume( m[i][k] < 0.999 && m[i][k] > -0.999 ); vec3radd e = euler_from_quat( q, o ); double a = e[i].value, b = e[j].value, c = e[k].value; XOV_COVER( "end" );
	XOV_CHECK( eq( std::sin( b ), sg * m[i][k] ), "second angle" ); XOV_CHECK( le( 0, std::cos( b ) ), "second angle is at most a right angle" );
	XOV_CHECK( eq( -sg * m[j][k] * std::cos( a ), m[k][k] * std::sin( a ) ), "first angle" ); XOV_CHECK( le( 0, -sg * m[j][k] * std::sin( a ) + m[k][k] * std::cos( a ) ), "quadrant of the first angle" );
	XOV_CHECK( eq( -sg * m[i][j] * std::cos( c ), m[i][i] * std::sin( c ) ), "third angle" ); XOV_CHECK( le( 0, -sg * m[i][j] * std::sin( c ) + m[i][i] * std::cos( c ) ), "quadrant of the third angle" );
}
XOV_PROOF( angles_xyz ) { angles( euler_order::xyz, 0, 1, 2, 1 ); }
XOV_PROOF( angles_xzy ) { angles( euler_order::xzy, 0, 2, 1, -1 ); }
XOV_PROOF( angles_yxz ) { angles( euler_order::yxz, 1, 0, 2, -1 ); }
XOV_PROOF( angles_yzx ) { angles( euler_order::yzx, 1, 2, 0, 1 ); }
XOV_PROOF( angles_zxy ) { angles( euler_order::zxy, 2, 0, 1, 1 ); }
XOV_PROOF( angles_zyx ) { angles( euler_order::zyx, 2, 1, 0, -1 ); }
static void round_trip( euler_order o, int i, int k ) { Q q = unit(); mat33d m = matrix( q ); xov::assume( m[i][k] < 0.999 && m[i][k] > -0.999 ); Q p = quat_from_euler( euler_from_quat( q, o ), o ); XOV_CHECK( std::fabs( std::fabs( p.w * q.w + p.x * q.x + p.y * q.y + p.z * q.z ) - 1 ) < 1e-9, "Euler angles of a rotation give the same rotation" ); }
XOV_BOUNDED( euler_round_trip ) { euler_order os[] = { euler_order::xyz, euler_order::xzy, euler_order::yxz, euler_order::yzx, euler_order::zxy, euler_order::zyx }; int is[] = { 0, 0, 1, 1, 2, 2 }, ks[] = { 2, 1, 2, 0, 1, 0 }; int n = int( xov::any_int( 0, 5 ) ); round_trip( os[n], is[n], ks[n] ); }
// twist of a rotation about a unit axis
static void twist_length( const Q& q, const V& a, double d ) { XOV_CHECK( eq( q.w * q.w + d * a.x * ( d * a.x ) + d * a.y * ( d * a.y ) + d * a.z * ( d * a.z ), q.w * q.w + d * d ), "squared length of the twist" ); }
XOV_PROOF( twist ) {
	Q q = unit(); V a = unitv(); double d = q.x * a.x + q.y * a.y + q.z * a.z; double s = q.w * q.w + d * d; xov::assume( s > 0.01 ); twist_length( q, a, d ); auto p = quat_angle_around_axis( q, a ); double l = length( Q( q.w, d * a.x, d * a.y, d * a.z ) ); XOV_COVER( "end" ); XOV_CHECK( eq( l * l, s ), "length of the twist" );
	SAMEQ( Q( p.first.w * l, p.first.x * l, p.first.y * l, p.first.z * l ), Q( q.w, d * a.x, d * a.y, d * a.z ), "the twist is the part of the rotation about the axis" ); XOV_CHECK( ( d >= 0 && le( 0, p.second.value ) ) || ( d <= 0 && le( p.second.value, 0 ) ), "sign of the angle" );
	auto f = quat_angle_around_axis_fast( q, a ); SAMEQ( f.first, p.first, "fast variant" );
}
static void around( const Q& q, double d, double l, double ang ) { XOV_CHECK( l >= 0 && eq( l * l, q.w * q.w + d * d ), "length" ); XOV_CHECK( eq( std::cos( std::fabs( ang ) * 0.5 ) * l, q.w ), "angle about the axis" ); XOV_CHECK( ( d >= 0 && le( 0, ang ) ) || ( d <= 0 && le( ang, 0 ) ), "sign" ); }
XOV_PROOF( around_axis ) { Q q = unit(); V a = unitv(); double d = q.x * a.x + q.y * a.y + q.z * a.z; xov::assume( q.w * q.w + d * d > 0.01 ); twist_length( q, a, d ); XOV_COVER( "end" ); double l = length( Q( q.w, d * a.x, d * a.y, d * a.z ) ); XOV_CHECK( l >= 0 && eq( l * l, q.w * q.w + d * d ), "length of the twist" ); double c = q.w / l; XOV_CHECK( eq( c * l, q.w ), "cosine of half the angle" ); XOV_CHECK( le( l * l * ( c * c ), l * l ), "bounded" ); XOV_CHECK( le( c, 1 ) && le( -1, c ), "cosine range" ); around( q, d, l, rotation_around_axis( q, a ).value ); }
XOV_PROOF( around_x ) { Q q = unit(); xov::assume( q.w * q.w + q.x * q.x > 0.01 ); XOV_COVER( "end" ); around( q, q.x, std::sqrt( q.w * q.w + q.x * q.x ), rotation_around_x( q ).value ); }
XOV_PROOF( around_y ) { Q q = unit(); xov::assume( q.w * q.w + q.y * q.y > 0.01 ); XOV_COVER( "end" ); around( q, q.y, std::sqrt( q.w * q.w + q.y * q.y ), rotation_around_y( q ).value ); }
XOV_PROOF( around_z ) { Q q = unit(); xov::assume( q.w * q.w + q.z * q.z > 0.01 ); XOV_COVER( "end" ); around( q, q.z, std::sqrt( q.w * q.w + q.z * q.z ), rotation_around_z( q ).value ); }
// ---------------------------------------------------------------- the rest of the interface
XOV_PROOF( accessors ) {
	Q q = any(); const Q c = q; XOV_COVER( "end" ); XOV_CHECK( q.size() == 4 && q.end() - q.begin() == 4 && c.end() - c.begin() == 4 && q.begin() == &q.w && c.begin() == &c.w, "iteration visits w, x, y and z" );
	XOV_CHECK( c.begin()[0] == c.w && c.begin()[1] == c.x && c.begin()[2] == c.y && c.begin()[3] == c.z && !q.is_nan(), "in this order" ); double x = R(); q.begin()[2] = x; SAMEQ( q, Q( c.w, c.x, x, c.z ), "iterators write components" );
	SAMEQ( Q(), Q( 1, 0, 0, 0 ), "the default is no rotation" ); SAMEQ( Q::identity(), Q( 1, 0, 0, 0 ), "identity" ); XOV_CHECK( c.is_identity() == ( c.w == 1 && c.x == 0 && c.y == 0 && c.z == 0 ), "identity test" ); SAMEQ( Q( quatf( 1.0f, 2.0f, 3.0f, 4.0f ) ), Q( 1, 2, 3, 4 ), "conversion keeps components" ); Q s; s.set( c.w, c.x, c.y, c.z ); SAMEQ( s, c, "set" );
	SAMEV( q * V::unit_x(), V( q * V( 1, 0, 0 ) ), "axis" );
}
XOV_PROOF( bad_order ) { Q q = unit(); XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { quat_from_euler( vec3radd( radiand( 1 ), radiand( 2 ), radiand( 3 ) ), euler_order( 17 ) ); } ), "an unknown order is refused" ); }
