// N07: shapes: volumes, dimensions, inertia, scaling, bounding boxes, and distances from the center.
#include "xov.h"
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/math.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/transform.h"
#include "xo/shape/aabb.h"
#include "xo/shape/sphere.h"
#include "xo/shape/box.h"
#include "xo/shape/cylinder.h"
#include "xo/shape/capsule.h"
#include "xo/shape/cone.h"
#include "xo/shape/plane.h"
#include "xo/shape/shape_tools.h"
#include "xo/shape/box.cpp"
using namespace xo;
using V = vec3f;
static float R() { return float( xov::any_real() ); }
static float P() { float r = R(); xov::assume( r > 0.01f && r < 1000.0f ); return r; }
static V A() { float x = R(), y = R(), z = R(); return V( x, y, z ); }
static V PV() { float x = P(), y = P(), z = P(); return V( x, y, z ); }
static bool eq( double a, double b ) { return xov::sym() ? a == b : std::fabs( a - b ) <= 2e-3 * ( 1 + std::fabs( a ) + std::fabs( b ) ); }
static bool le( double a, double b ) { return a <= b || eq( a, b ); }
static bool in( double v, double lo, double hi, double f ) { return le( lo * f, v ) && le( v, hi * f ); }  // v is f times a constant between lo and hi
static bool is( const V& v, double x, double y, double z ) { return eq( v.x, x ) && eq( v.y, y ) && eq( v.z, z ); }
static double sq( const quatf& q ) { return double( q.w ) * q.w + double( q.x ) * q.x + double( q.y ) * q.y + double( q.z ) * q.z; }
static quatf unit() { float w = R(), x = R(), y = R(), z = R(); quatf q( w, x, y, z ); if ( xov::sym() ) xov::assume( sq( q ) == 1 ); else { float l = float( std::sqrt( sq( q ) ) ); xov::assume( l > 0.1 ); q.set( q.w / l, q.x / l, q.y / l, q.z / l ); } return q; }
static bool inside( const aabbf& b, const V& v ) { return b.lower_bounds.x <= v.x && v.x <= b.upper_bounds.x && b.lower_bounds.y <= v.y && v.y <= b.upper_bounds.y && b.lower_bounds.z <= v.z && v.z <= b.upper_bounds.z; }
XOV_PROOF( bounding_box ) {
	V l = A(), u = A(), p = A(); aabbf b( l, u ), c = b; aabbf* r = &( c += p ); XOV_COVER( "end" ); XOV_CHECK( r == &c, "returns its target" );
	for ( int i = 0; i < 3; ++i ) { XOV_CHECK( c.lower_bounds[i] == ( p[i] < l[i] ? p[i] : l[i] ), "lower bound" ); XOV_CHECK( c.upper_bounds[i] == ( p[i] > u[i] ? p[i] : u[i] ), "upper bound" ); }
}
XOV_PROOF( bounding_box_merge ) {
	V l = A(), u = A(), m = A(), n = A(); aabbf c( l, u ); c += aabbf( m, n ); XOV_COVER( "end" );
	for ( int i = 0; i < 3; ++i ) { XOV_CHECK( c.lower_bounds[i] == ( m[i] < l[i] ? m[i] : l[i] ), "merged lower bound" ); XOV_CHECK( c.upper_bounds[i] == ( n[i] > u[i] ? n[i] : u[i] ), "merged upper bound" ); }
}
XOV_PROOF( bounding_box_point ) { V p = A(); aabbf a( p ); XOV_COVER( "end" ); XOV_CHECK( a.lower_bounds == p && a.upper_bounds == p, "box of one point" ); }
XOV_PROOF( bounding_box_empty ) { V p = A(); xov::assume( p.x < 1e30f && p.x > -1e30f && p.y < 1e30f && p.y > -1e30f && p.z < 1e30f && p.z > -1e30f ); aabbf a; a += p; XOV_COVER( "end" ); XOV_CHECK( a.lower_bounds == p && a.upper_bounds == p, "the first point added to an empty box" ); }
static aabbf& grow_stub( aabbf* b, const V& p ) { b->lower_bounds.set( std::fmin( b->lower_bounds.x, p.x ), std::fmin( b->lower_bounds.y, p.y ), std::fmin( b->lower_bounds.z, p.z ) ); b->upper_bounds.set( std::fmax( b->upper_bounds.x, p.x ), std::fmax( b->upper_bounds.y, p.y ), std::fmax( b->upper_bounds.z, p.z ) ); return *b; }
XOV_STUB( grow, "xo::aabb_<float>::operator+=(xo::vec3_<float> const&)", grow_stub, "bounding_box bounding_box_point bounding_box_empty" );
static V corner( const box& s, int k ) { return V( k & 1 ? s.half_dim_.x : -s.half_dim_.x, k & 2 ? s.half_dim_.y : -s.half_dim_.y, k & 4 ? s.half_dim_.z : -s.half_dim_.z ); }
XOV_PROOF( box_corners ) { box s( PV() ); auto c = corners( s ); XOV_COVER( "end" ); for ( int k = 0; k < 8; ++k ) { V e = corner( s, k ); XOV_CHECK( c[k].x == e.x && c[k].y == e.y && c[k].z == e.z, "corners of a box" ); } XOV_CHECK( c.size() == 8 && c.end() - c.begin() == 8, "eight corners" ); }
static double pick( const V& v, int i ) { return i == 0 ? v.x : i == 1 ? v.y : v.z; }
static void box_bounds( int i ) {
	box s( PV() ); transformf t( A(), unit() ); aabbf b = aabb( s, t ); double lo = pick( b.lower_bounds, i ), hi = pick( b.upper_bounds, i ); XOV_COVER( "end" );
	double mn = 1e30, mx = -1e30; for ( int k = 0; k < 8; ++k ) { double v = pick( t * corner( s, k ), i ); xov::assume( v < 1e30 && v > -1e30 ); mn = std::fmin( mn, v ); mx = std::fmax( mx, v ); }
	XOV_CHECK( eq( lo, mn ), "lower bound is the lowest corner" ); XOV_CHECK( eq( hi, mx ), "upper bound is the highest corner" );
}
XOV_PROOF( box_bounds_x ) { box_bounds( 0 ); }
XOV_PROOF( box_bounds_y ) { box_bounds( 1 ); }
XOV_PROOF( box_bounds_z ) { box_bounds( 2 ); }
XOV_PROOF( sphere_shape ) {
	sphere s( P() ); double r = s.radius_; transformf t( A(), unit() ); XOV_COVER( "end" ); aabbf b = aabb( s, t ); XOV_CHECK( is( b.lower_bounds, t.p.x - r, t.p.y - r, t.p.z - r ) && is( b.upper_bounds, t.p.x + r, t.p.y + r, t.p.z + r ), "box of a sphere" );
	XOV_CHECK( in( volume( s ), 4.18878, 4.18880, r * r * r ), "volume of a sphere" ); XOV_CHECK( is( dim( s ), 2 * r, 2 * r, 2 * r ), "diameter" ); float d = P(); V i = inertia( s, d ); double m = double( volume( s ) ) * d; XOV_CHECK( in( i.x, 0.3999, 0.4001, m * r * r ) && i.y == i.x && i.z == i.x, "inertia of a sphere" ); XOV_CHECK( distance_from_center( s, A() ) == s.radius_, "distance" );
}
XOV_PROOF( box_shape ) {
	V h = PV(); box s( h ); double x = h.x, y = h.y, z = h.z; XOV_COVER( "end" ); XOV_CHECK( eq( volume( s ), 8 * x * y * z ), "volume of a box" ); XOV_CHECK( is( dim( s ), 2 * x, 2 * y, 2 * z ), "size of a box" ); float d = P(); V i = inertia( s, d ); double m = double( volume( s ) ) * d;
	XOV_CHECK( in( i.x, 0.333333, 0.333334, m * ( y * y + z * z ) ) && in( i.y, 0.333333, 0.333334, m * ( x * x + z * z ) ) && in( i.z, 0.333333, 0.333334, m * ( x * x + y * y ) ), "inertia of a box" );
	box b = make_box( h.x, h.y, h.z ); XOV_CHECK( is( dim( b ), x, y, z ), "a box of given size" ); box c( h.x, h.y, h.z ); XOV_CHECK( is( c.half_dim_, x, y, z ), "a box of given half size" );
}
XOV_PROOF( cylinder_shape ) {
	cylinder s( P(), P() ); double r = s.radius_, h = s.height_; XOV_COVER( "end" ); XOV_CHECK( in( volume( s ), 3.14159, 3.14160, r * r * h ), "volume of a cylinder" ); XOV_CHECK( is( dim( s ), 2 * r, h, 2 * r ), "size of a cylinder" ); float d = P(); V i = inertia( s, d ); double m = double( volume( s ) ) * d; XOV_CHECK( eq( i.x, m / 12 * ( 3 * r * r + h * h ) ) && i.z == i.x && eq( i.y, m * r * r / 2 ), "inertia of a cylinder" );
}
XOV_PROOF( cone_shape ) { cone s( P(), P() ); double r = s.radius_, h = s.height_; XOV_COVER( "end" ); XOV_CHECK( in( volume( s ), 1.047197, 1.047198, r * r * h ), "volume of a cone" ); XOV_CHECK( is( dim( s ), 2 * r, h, 2 * r ), "size of a cone" ); }
XOV_PROOF( capsule_shape ) {
	capsule s( P(), P() ); double r = s.radius_, h = s.height_; XOV_COVER( "end" ); XOV_CHECK( in( volume( s ), 3.14159, 3.14160, r * r * ( 4.0 / 3 * r + h ) ), "volume of a capsule" ); XOV_CHECK( is( dim( s ), 2 * r, h + 2 * r, 2 * r ), "size of a capsule" ); transformf t( A(), unit() ); auto c = center_positions( s, t ); V e = t * V( 0, s.height_, 0 ); XOV_CHECK( is( c.first, t.p.x, t.p.y, t.p.z ), "first center" ); XOV_CHECK( is( c.second, e.x, e.y, e.z ), "second center" );
}
XOV_PROOF( capsule_inertia ) {
	capsule s( P(), P() ); double r = s.radius_, h = s.height_; float d = P(); V i = inertia( s, d ); XOV_COVER( "end" ); double c = r * r * h * d, b = r * r * r * d; // cylinder: pi c, both halves of the sphere: 4/3 pi b
	XOV_CHECK( in( i.y, 3.14159, 3.14160, r * r * ( c * 0.5 + b * ( 1.6 / 3 ) ) ), "inertia about the axis" ); XOV_CHECK( in( i.x, 3.14159, 3.14160, c * ( r * r / 4 + h * h / 12 ) + 4.0 / 3 * b * ( 0.4 * r * r + 0.375 * r * h + h * h / 4 ) ) && i.z == i.x, "inertia across the axis" );
}
XOV_PROOF( scaling ) {
	float f = P(); XOV_COVER( "end" ); sphere s( P() ); sphere s2 = s; scale( s2, f ); XOV_CHECK( eq( s2.radius_, s.radius_ * double( f ) ), "scaled sphere" ); V h = PV(); box b( h ); scale( b, f ); XOV_CHECK( is( b.half_dim_, h.x * double( f ), h.y * double( f ), h.z * double( f ) ), "scaled box" );
	cylinder c( P(), P() ), c2 = c; scale( c2, f ); XOV_CHECK( eq( c2.radius_, c.radius_ * double( f ) ) && eq( c2.height_, c.height_ * double( f ) ), "scaled cylinder" ); cone n( P(), P() ), n2 = n; scale( n2, f ); XOV_CHECK( eq( n2.radius_, n.radius_ * double( f ) ) && eq( n2.height_, n.height_ * double( f ) ), "scaled cone" ); capsule k( P(), P() ), k2 = k; scale( k2, f ); XOV_CHECK( eq( k2.radius_, k.radius_ * double( f ) ) && eq( k2.height_, k.height_ * double( f ) ), "scaled capsule" );
}
XOV_PROOF( scaling_vector ) {
	V v = PV(), h = PV(); box b( h ); scale( b, v ); XOV_COVER( "end" ); XOV_CHECK( is( b.half_dim_, h.x * double( v.x ), h.y * double( v.y ), h.z * double( v.z ) ), "box" ); cylinder c( P(), P() ), c2 = c; scale( c2, v ); XOV_CHECK( eq( double( c2.radius_ ) * c2.radius_, double( c.radius_ ) * c.radius_ * v.x * v.z ) && c2.radius_ >= 0 && eq( c2.height_, double( c.height_ ) * v.y ), "cylinder" );
	cone n( P(), P() ), n2 = n; scale( n2, v ); XOV_CHECK( eq( double( n2.radius_ ) * n2.radius_, double( n.radius_ ) * n.radius_ * v.x * v.z ) && eq( n2.height_, double( n.height_ ) * v.y ), "cone" ); capsule k( P(), P() ), k2 = k; scale( k2, v ); XOV_CHECK( eq( double( k2.radius_ ) * k2.radius_, double( k.radius_ ) * k.radius_ * v.x * v.z ) && eq( k2.height_, double( k.height_ ) * v.y ), "capsule" );
}
static V dir() { V d = A(); double n = double( d.x ) * d.x + double( d.y ) * d.y + double( d.z ) * d.z; if ( xov::sym() ) xov::assume( n == 1 ); else { float l = float( std::sqrt( n ) ); xov::assume( l > 0.1 ); d.set( d.x / l, d.y / l, d.z / l ); } return d; }
XOV_PROOF( box_surface ) {
	V h = PV(), d = dir(); xov::assume( std::fabs( d.x ) > 0.01 && std::fabs( d.y ) > 0.01 && std::fabs( d.z ) > 0.01 ); double t = distance_from_center( box( h ), d ); double x = t * std::fabs( d.x ), y = t * std::fabs( d.y ), z = t * std::fabs( d.z ); XOV_COVER( "end" ); XOV_CHECK( le( x, h.x ) && le( y, h.y ) && le( z, h.z ), "the point is not outside the box" ); XOV_CHECK( eq( x, h.x ) || eq( y, h.y ) || eq( z, h.z ), "the point is on a face" );
}
XOV_PROOF( cylinder_surface ) {
	cylinder s( P(), P() ); V d = dir(); double t = distance_from_center( s, d ); double hh = double( s.height_ ) / 2, r = s.radius_, y = t * std::fabs( d.y ), rr = t * t * ( double( d.x ) * d.x + double( d.z ) * d.z );
	XOV_CHECK( le( y, hh ), "the point is not above or below the cylinder" ); XOV_CHECK( le( rr, r * r ), "the point is not beside the cylinder" ); XOV_CHECK( eq( y, hh ) || eq( rr, r * r ), "the point is on the surface" ); XOV_COVER( "end" );
}
XOV_PROOF( capsule_surface ) {
	capsule s( P(), P() ); V d = dir(); double t = distance_from_center( s, d ); double hh = double( s.height_ ) / 2, r = s.radius_, y = t * std::fabs( d.y ), rr = t * t * ( double( d.x ) * d.x + double( d.z ) * d.z );
	if ( std::fabs( d.y ) * r > hh * std::sqrt( d.x * d.x + d.z * d.z ) ) { XOV_COVER( "cap" ); XOV_CHECK( eq( rr + ( y - hh ) * ( y - hh ), r * r ), "the point is on the sphere of the cap" ); } else { XOV_COVER( "side" ); XOV_CHECK( eq( rr, r * r ), "the point is on the side" ); }
}
static bool zero( double v, double mag ) { return xov::sym() ? v == 0 : std::fabs( v ) <= 1e-4 * mag; }
XOV_PROOF( plane_intersection ) {
	plane s( A() ); transformf t( A(), unit() ); linef l( A(), A() ); V n = t.q * s.normal_; double p2 = double( l.dir.x ) * n.x + double( l.dir.y ) * n.y + double( l.dir.z ) * n.z; xov::assume( p2 > 0.1 || p2 < -0.1 ); V i = intersection( l, s, t ); XOV_COVER( "end" );
	double m = 1 + double( l.pos.x ) * l.pos.x + double( l.pos.y ) * l.pos.y + double( l.pos.z ) * l.pos.z + double( t.p.x ) * t.p.x + double( t.p.y ) * t.p.y + double( t.p.z ) * t.p.z, d = 1 + double( l.dir.x ) * l.dir.x + double( l.dir.y ) * l.dir.y + double( l.dir.z ) * l.dir.z, e = 1 + double( n.x ) * n.x + double( n.y ) * n.y + double( n.z ) * n.z; m = m * d * d * e * e;
	XOV_CHECK( zero( ( i.x - t.p.x ) * double( n.x ) + ( i.y - t.p.y ) * double( n.y ) + ( i.z - t.p.z ) * double( n.z ), m ), "the intersection lies in the plane" ); V o = i - l.pos; V c = cross_product( o, l.dir ); XOV_CHECK( zero( c.x, m ) && zero( c.y, m ) && zero( c.z, m ), "the intersection lies on the line" );
}
XOV_PROOF( any_shape ) {
	sphere a( P() ); box b( PV() ); cylinder c( P(), P() ); capsule d( P(), P() ); cone e( P(), P() ); shape s[5] = { a, b, c, d, e }; XOV_COVER( "end" );
	XOV_CHECK( volume( s[0] ) == volume( a ) && volume( s[1] ) == volume( b ) && volume( s[2] ) == volume( c ) && volume( s[3] ) == volume( d ) && volume( s[4] ) == volume( e ), "volume of any shape" );
	XOV_CHECK( dim( s[0] ) == dim( a ) && dim( s[1] ) == dim( b ) && dim( s[2] ) == dim( c ) && dim( s[3] ) == dim( d ) && dim( s[4] ) == dim( e ), "size of any shape" );
	float f = P(); shape g = scaled( s[1], f ); box h = b; scale( h, f ); XOV_CHECK( dim( g ) == dim( h ), "scaling any shape" );
	XOV_CHECK( is_valid( s[0] ) && is_valid( s[1] ) && !is_valid( shape() ), "a default shape is not valid" );
}
// ---------------------------------------------------------------- the rest of the interface
XOV_PROOF( sphere_scaling_vector ) { V v = PV(); sphere s( P() ), t = s; scale( t, v ); XOV_COVER( "end" ); double a = t.radius_, b = s.radius_; XOV_CHECK( eq( a * a * a, b * b * b * v.x * v.y * v.z ) || !xov::sym(), "a sphere keeps its share of the scaled volume" ); XOV_CHECK( xov::sym() || std::fabs( a - b * std::cbrt( double( v.x ) * v.y * v.z ) ) <= 1e-3 * a, "scaled radius" ); }
XOV_PROOF( any_shape_more ) {
	sphere a( P() ); box b( PV() ); cylinder c( P(), P() ); capsule d( P(), P() ); cone e( P(), P() ); shape s[5] = { a, b, c, d, e }; float f = P(); V v = PV(); XOV_COVER( "end" );
	XOV_CHECK( inertia( s[0], f ) == inertia( a, f ) && inertia( s[1], f ) == inertia( b, f ) && inertia( s[2], f ) == inertia( c, f ) && inertia( s[3], f ) == inertia( d, f ), "inertia of any shape" );
	shape t[5] = { scaled( s[0], f ), scaled( s[1], f ), scaled( s[2], f ), scaled( s[3], f ), scaled( s[4], f ) }; sphere a1 = a; box b1 = b; cylinder c1 = c; capsule d1 = d; cone e1 = e; scale( a1, f ); scale( b1, f ); scale( c1, f ); scale( d1, f ); scale( e1, f );
	XOV_CHECK( dim( t[0] ) == dim( a1 ) && dim( t[1] ) == dim( b1 ) && dim( t[2] ) == dim( c1 ) && dim( t[3] ) == dim( d1 ) && dim( t[4] ) == dim( e1 ) && dim( s[0] ) == dim( a ), "scaling any shape" );
	shape u[4] = { scaled( s[1], v ), scaled( s[2], v ), scaled( s[3], v ), scaled( s[4], v ) }; box b2 = b; cylinder c2 = c; capsule d2 = d; cone e2 = e; scale( b2, v ); scale( c2, v ); scale( d2, v ); scale( e2, v );
	XOV_CHECK( dim( u[0] ) == dim( b2 ) && dim( u[1] ) == dim( c2 ) && dim( u[2] ) == dim( d2 ) && dim( u[3] ) == dim( e2 ), "scaling any shape by a vector" );
}
XOV_PROOF( any_shape_surface ) {
	sphere a( P() ); box b( PV() ); shape s[2] = { a, b }; V v = dir(); xov::assume( std::fabs( v.x ) > 0.01 && std::fabs( v.y ) > 0.01 && std::fabs( v.z ) > 0.01 ); XOV_COVER( "end" ); XOV_CHECK( distance_from_center( s[0], v ) == distance_from_center( a, v ) && distance_from_center( s[1], v ) == distance_from_center( b, v ), "distance for any shape" );
	V p = intersection_from_center( s[0], v ), q = intersection_from_center( s[1], v ); double r = a.radius_, k = distance_from_center( b, v ); XOV_CHECK( is( p, r * v.x, r * v.y, r * v.z ) && is( q, k * v.x, k * v.y, k * v.z ), "the surface point lies in the direction, at the distance" );
	transformf t( A(), unit() ); aabbf m = aabb( s[0], t ), n = aabb( a, t ); XOV_CHECK( m.lower_bounds == n.lower_bounds && m.upper_bounds == n.upper_bounds, "bounds of any shape" );
}
XOV_PROOF( planes ) {
	plane p( A() ); shape s = p; V n = p.normal_; float f = P(); XOV_COVER( "end" ); XOV_CHECK( volume( s ) == 0 && inertia( s, f ) == V( 0, 0, 0 ) && distance_from_center( s, n ) == 0, "a plane has no volume" ); scale( p, f ); XOV_CHECK( p.normal_ == n, "scaling keeps a plane" ); scale( p, PV() ); XOV_CHECK( p.normal_ == n, "scaling by a vector keeps a plane" );
	XOV_CHECK( plane().normal_ == V( 0, 0, 0 ) && sphere().radius_ == 0 && box().half_dim_ == V( 0, 0, 0 ) && cylinder().radius_ == 0 && cylinder().height_ == 0 && capsule().radius_ == 0 && capsule().height_ == 0 && cone().radius_ == 0 && cone().height_ == 0, "default shapes are empty" );
	XOV_CHECK( xov::thrown( [&] { dim( s ); } ) && xov::thrown( [&] { aabb( s, transformf() ); } ), "a plane has no bounds" );
}
