// N06: transforms are rigid motions that compose and invert; mirroring is an involution that commutes with them.
#include "xov.h"
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/math.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/transform.h"
#include "xo/geometry/mirror_tools.h"
using namespace xo;
using xov::eq; using xov::le; using V = vec3d; using Q = quatd; using T = transformd;
static double R() { return xov::any_real(); }
static V A() { double x = R(), y = R(), z = R(); return V( x, y, z ); }
static double sq( const Q& q ) { return q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z; }
static Q any() { double w = R(), x = R(), y = R(), z = R(); return Q( w, x, y, z ); }
static Q unit() { Q q = any(); if ( xov::sym() ) xov::assume( sq( q ) == 1 ); else { double l = std::sqrt( sq( q ) ); xov::assume( l > 0.1 ); q.set( q.w / l, q.x / l, q.y / l, q.z / l ); } return q; }
static T rigid() { V p = A(); Q q = unit(); return T( p, q ); }
static V rot( const Q& q, const V& v ) {
	double w = q.w, x = q.x, y = q.y, z = q.z;
	return V( ( w * w + x * x - y * y - z * z ) * v.x + 2 * ( x * y - w * z ) * v.y + 2 * ( x * z + w * y ) * v.z, 2 * ( x * y + w * z ) * v.x + ( w * w - x * x + y * y - z * z ) * v.y + 2 * ( y * z - w * x ) * v.z, 2 * ( x * z - w * y ) * v.x + 2 * ( y * z + w * x ) * v.y + ( w * w - x * x - y * y + z * z ) * v.z );
}
static V apply( const T& t, const V& v ) { V r = rot( t.q, v ); return V( t.p.x + r.x, t.p.y + r.y, t.p.z + r.z ); }
#define SAMEV( a, b, l ) { const V a_ = a, b_ = b; XOV_CHECK( eq( a_.x, b_.x ), l " (x)" ); XOV_CHECK( eq( a_.y, b_.y ), l " (y)" ); XOV_CHECK( eq( a_.z, b_.z ), l " (z)" ); }
#define SAMEQ( a, b, l ) { const Q a_ = a, b_ = b; XOV_CHECK( eq( a_.w, b_.w ), l " (w)" ); XOV_CHECK( eq( a_.x, b_.x ), l " (qx)" ); XOV_CHECK( eq( a_.y, b_.y ), l " (qy)" ); XOV_CHECK( eq( a_.z, b_.z ), l " (qz)" ); }
#define SAMET( a, b, l ) { const T at_ = a, bt_ = b; SAMEV( at_.p, bt_.p, l ) SAMEQ( at_.q, bt_.q, l ) }
XOV_PROOF( construct ) {
	T d; V p = A(); Q q = any(); XOV_COVER( "end" ); XOV_CHECK( d.is_identity() && T::identity().is_identity() && d.p.is_null() && d.q.is_identity(), "a default transform is the identity" );
	T a( p, q ), b( p ), c( q ); SAMEV( a.p, p, "position" ); SAMEQ( a.q, q, "orientation" ); SAMEV( b.p, p, "only position" ); XOV_CHECK( b.q.is_identity(), "only position: no rotation" ); SAMEQ( c.q, q, "only orientation" ); XOV_CHECK( c.p.is_null(), "only orientation: no translation" );
	XOV_CHECK( a.is_identity() == ( p.x == 0 && p.y == 0 && p.z == 0 && q.w == 1 && q.x == 0 && q.y == 0 && q.z == 0 ), "identity test" );
}
XOV_PROOF( point ) { T t = rigid(); V v = A(); XOV_COVER( "end" ); SAMEV( t * v, apply( t, v ), "a point is rotated, then translated" ); SAMEV( t.trans( v ), apply( t, v ), "trans" ); }
XOV_PROOF( point_inverse ) { T t = rigid(); V v = A(); XOV_COVER( "end" ); SAMEV( t.inv_trans( t * v ), v, "inverse transform of the transformed point" ); SAMEV( t * t.inv_trans( v ), v, "transform of the inverse transformed point" ); }
XOV_PROOF( isometry ) { T t = rigid(); V u = A(), v = A(); XOV_COVER( "end" ); XOV_CHECK( eq( squared_distance( t * u, t * v ), squared_distance( u, v ) ), "a transform keeps distances" ); }
XOV_PROOF( compose ) { T s = rigid(), t = rigid(); XOV_COVER( "end" ); V p = apply( s, t.p ); Q q = s.q * t.q; SAMET( s * t, T( p, q ), "composition" ); SAMET( s.trans( t ), T( p, q ), "trans" ); T c = s; T* r = &( c *= t ); SAMET( c, T( p, q ), "in place composition" ); XOV_CHECK( r == &c, "returns its target" ); }
XOV_PROOF( compose_point ) { T s = rigid(), t = rigid(); V v = A(); XOV_COVER( "end" ); SAMEV( ( s * t ) * v, s * ( t * v ), "the composition transforms by the second, then by the first" ); }
XOV_PROOF( compose_self ) { T s = rigid(); T c = s; c *= c; XOV_COVER( "end" ); SAMET( c, s * s, "composition with itself in place" ); }
XOV_PROOF( inverse ) { T t = rigid(); XOV_COVER( "end" ); SAMET( t * t.inv(), T(), "a transform times its inverse" ); SAMET( t.inv() * t, T(), "the inverse times the transform" ); }
XOV_PROOF( inverse_compose ) { T s = rigid(), t = rigid(); XOV_COVER( "end" ); SAMET( s.inv_trans( t ), s.inv() * t, "inverse transform is composition with the inverse" ); }
XOV_PROOF( inverse_compose_back ) { T s = rigid(), t = rigid(); XOV_COVER( "end" ); SAMET( s.inv_trans( s * t ), t, "inverse transform undoes composition" ); }
XOV_PROOF( orientation ) { T t = rigid(); Q q = unit(); XOV_COVER( "end" ); SAMEQ( t * q, t.q * q, "orientations compose" ); SAMEQ( t.trans( q ), t.q * q, "trans" ); SAMEQ( t.inv_trans( t * q ), q, "inverse transform of an orientation" ); }
XOV_PROOF( mirror_values ) {
	V v = A(), m = mirrored( v ); Q q = any(), n = mirrored( q ); T t( v, q ); T u = mirrored( t ); XOV_COVER( "end" ); SAMEV( m, V( v.x, v.y, -v.z ), "a position is mirrored in the xy plane" ); SAMEQ( n, Q( q.w, -q.x, -q.y, q.z ), "an orientation is mirrored in the xy plane" ); SAMEV( u.p, m, "position of a mirrored transform" ); SAMEQ( u.q, n, "orientation of a mirrored transform" );
	SAMEV( mirrored( m ), v, "mirroring a position twice" ); SAMEQ( mirrored( n ), q, "mirroring an orientation twice" ); SAMET( mirrored( u ), t, "mirroring a transform twice" );
	V a = v; mirror_axis( a ); SAMEV( a, V( -v.x, -v.y, v.z ), "an axis of rotation is mirrored with opposite sense" ); mirror_axis( a ); SAMEV( a, v, "mirroring an axis twice" );
}
XOV_PROOF( mirror_scalar ) { double d = R(); int i = xov::any_i32(); xov::assume( i > -2147483647 ); XOV_COVER( "end" ); XOV_CHECK( mirrored( d ) == -d && mirrored( i ) == -i && mirrored( mirrored( d ) ) == d, "numbers are negated" ); }
XOV_PROOF( mirror_conditional ) {
	V v = A(); bool b = xov::any_bool(); V w = v; XOV_COVER( "end" ); XOV_CHECK( &mirror_if( w, b ) == &w, "mirror_if returns its argument" ); if ( b ) { SAMEV( w, mirrored( v ), "mirrored if asked" ); } else { SAMEV( w, v, "left alone otherwise" ); } SAMEV( mirrored_if( v, b ), w, "mirrored_if" );
	V a = v, c = v; mirror_axis( c ); mirror_axis_if( a, b ); if ( b ) { SAMEV( a, c, "axis mirrored if asked" ); } else { SAMEV( a, v, "axis left alone otherwise" ); } SAMEV( mirrored_axis_if( v, b ), a, "mirrored_axis_if" );
}
XOV_PROOF( mirror_rotation ) { Q q = unit(); V v = A(); XOV_COVER( "end" ); SAMEV( mirrored( q ) * mirrored( v ), mirrored( q * v ), "mirroring commutes with rotation" ); }
XOV_PROOF( mirror_transform ) { T t = rigid(); V v = A(); XOV_COVER( "end" ); SAMEV( mirrored( t ) * mirrored( v ), mirrored( t * v ), "mirroring commutes with transforming points" ); }
XOV_PROOF( mirror_composition ) { T s = rigid(), t = rigid(); XOV_COVER( "end" ); SAMET( mirrored( s ) * mirrored( t ), mirrored( s * t ), "mirroring commutes with composition" ); }
XOV_PROOF( mirror_axes ) { V a = A(), b = A(); XOV_COVER( "end" ); V x = cross_product( a, b ), y = cross_product( mirrored( a ), mirrored( b ) ); mirror_axis( x ); SAMEV( x, y, "the cross product of mirrored vectors is the mirrored axis" ); }
XOV_PROOF( mirror_range ) {
	double l = R(), u = R(), v = R(); bounds<double> b( l, u ), m = mirrored( b ); XOV_COVER( "end" ); XOV_CHECK( m.lower == -u && m.upper == -l, "a range is mirrored at zero" ); XOV_CHECK( ( v >= b.lower && v <= b.upper ) == ( -v >= m.lower && -v <= m.upper ), "it contains the mirrored values" );
	vec3_<bounds<double>> w( b, bounds<double>( R(), R() ), bounds<double>( R(), R() ) ), x = mirrored( w ); XOV_CHECK( x.x.lower == -w.x.upper && x.x.upper == -w.x.lower && x.y.lower == -w.y.upper && x.y.upper == -w.y.lower && x.z.lower == w.z.lower && x.z.upper == w.z.upper, "rotation limits are mirrored like an axis" );
}
