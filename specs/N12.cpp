#define XOV_CONCRETE
// N12: geometry, shapes and ranges as property nodes: what is written is read back, all documented forms are read, others are refused.
#include "xov.h"
#ifndef XOV_SYM
#include "xo/shape/shape.h"
#endif
#ifdef XOV_SYM
extern "C" int strncmp( const char* a, const char* b, size_t n ) noexcept { for ( size_t k = 0; k < n; ++k ) { if ( a[k] != b[k] ) return a[k] < b[k] ? -1 : 1; if ( a[k] == 0 ) return 0; } return 0; }
static bool in_set( char c, const char* set ) { for ( ; *set; ++set ) if ( *set == c ) return true; return false; }
extern "C" size_t strcspn( const char* s, const char* set ) noexcept { size_t n = 0; while ( s[n] && !in_set( s[n], set ) ) ++n; return n; }
extern "C" size_t strspn( const char* s, const char* set ) noexcept { size_t n = 0; while ( s[n] && in_set( s[n], set ) ) ++n; return n; }
#endif
#include "xo/container/prop_node.cpp"
#include "xo/container/prop_node_tools.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/geometry/vec3.h"
#include "xo/geometry/quat.h"
#include "xo/geometry/scale3.h"
#include "xo/geometry/transform.h"
#include "xo/numerical/bounds.h"
#include "xo/shape/shape.cpp"
using namespace xo;
using std::string;
// numbers as text: contract of to_str and from_str for real numbers: each number has a text that gives the number back
static double values[16]; static int used;
#ifdef XOV_SYM
static string text( double v ) { values[used] = v; char b[3] = { '#', char( 'a' + used ), 0 }; ++used; return b; }
static int known( const string& s ) { return s.size() >= 2 && s[0] == '#' && s[1] >= 'a' && s[1] < 'a' + used ? s[1] - 'a' : -1; }
static string textf( float v ) { return text( v ); }
static bool numf( const string& s, float& v ) { int k = known( s ); if ( k >= 0 ) v = float( values[k] ); return k >= 0; }
static bool numd( const string& s, double& v ) { int k = known( s ); if ( k >= 0 ) v = values[k]; return k >= 0; }
#else
static string text( double v ) { return to_str( v ); }
#endif
XOV_STUB( tof, "xo::to_str(float)", textf, "" );
XOV_STUB( tod, "xo::to_str(double)", text, "" );
XOV_STUB( fromf, "xo::from_str(std::basic_string<char, std::char_traits<char>, void> const&, float&)", numf, "" );
XOV_STUB( fromd, "xo::from_str(std::basic_string<char, std::char_traits<char>, void> const&, double&)", numd, "" );
static float R() { return xov::sym() ? float( xov::any_real() ) : float( xov::any_int( -400, 400 ) ) / 4; }
static double D() { return xov::sym() ? xov::any_real() : double( xov::any_int( -400, 400 ) ) / 4; }
static bool is( const vec3f& v, float x, float y, float z ) { return v.x == x && v.y == y && v.z == z; }
static prop_node named( std::initializer_list< std::pair< const char*, float > > l ) { prop_node p; for ( auto& i : l ) p.add_child( i.first ).set_value( text( i.second ) ); return p; }
static prop_node listed( std::initializer_list< float > l ) { prop_node p; for ( auto& i : l ) p.add_child( "" ).set_value( text( i ) ); return p; }
XOV_PROOF( vec ) { float x = R(), y = R(), z = R(); prop_node p = to_prop_node( vec3f( x, y, z ) ); vec3f v( R(), R(), R() ); bool ok = from_prop_node( p, v ); XOV_COVER( "end" ); XOV_CHECK( ok && is( v, x, y, z ), "written and read" ); XOV_CHECK( p.size() == 3 && p.get_key( 0 ) == "x" && p.get_key( 1 ) == "y" && p.get_key( 2 ) == "z", "as named components" ); }
XOV_PROOF( vec_array ) { float x = R(), y = R(), z = R(); vec3f v; bool ok = from_prop_node( listed( { x, y, z } ), v ); XOV_COVER( "end" ); XOV_CHECK( ok && is( v, x, y, z ), "an array" ); XOV_CHECK( from_prop_node( named( { { "z", z }, { "x", x }, { "y", y } } ), v ) && is( v, x, y, z ), "a group in any order" ); }
XOV_PROOF( vec_text ) { float x = R(), y = R(), z = R(); string s = text( x ) + " " + text( y ) + "\t" + text( z ); vec3f v; bool ok = from_prop_node( prop_node( s ), v ); XOV_COVER( "end" ); XOV_CHECK( ok && is( v, x, y, z ), "a text" ); vec3f w( x, y, z ); XOV_CHECK( from_prop_node( prop_node( to_str( w ) ), v ) && is( v, x, y, z ), "also the text written" ); }
XOV_PROOF( vec_refused ) { float x = R(), y = R(), z = R(); vec3f v; string a = text( x ), b = text( y ); XOV_COVER( "end" ); XOV_CHECK( !from_prop_node( prop_node(), v ) && !from_prop_node( prop_node( a ), v ) && !from_prop_node( prop_node( a + " " + b ), v ) && !from_prop_node( prop_node( a + " " + b + " " + a + " " + b ), v ) && !from_prop_node( prop_node( a + " q " + b ), v ), "too few, too many or no numbers" ); XOV_CHECK( !from_prop_node( listed( { x, y } ), v ) && !from_prop_node( listed( { x, y, z, x } ), v ), "nor as array" ); prop_node p = named( { { "x", x }, { "y", y }, { "w", z } } ); XOV_CHECK( xov::thrown( [&] { vec3f u; from_prop_node( p, u ); } ), "a missing component" ); }
XOV_PROOF( vec_d ) { double x = D(), y = D(), z = D(); prop_node p; p.set( "v", vec3d( x, y, z ) ); vec3d v = p.get< vec3d >( "v" ); XOV_COVER( "end" ); XOV_CHECK( v.x == x && v.y == y && v.z == z, "as a member" ); vec3d d( D(), D(), D() ), e = p.get< vec3d >( "w", d ); XOV_CHECK( e.x == d.x && e.y == d.y && e.z == d.z, "or its default" ); }
XOV_PROOF( orientation ) { float w = R(), x = R(), y = R(), z = R(); prop_node p = to_prop_node( quatf( w, x, y, z ) ); quatf q; bool ok = from_prop_node( p, q ); XOV_COVER( "end" ); XOV_CHECK( ok && q.w == w && q.x == x && q.y == y && q.z == z, "written and read" ); XOV_CHECK( to_str( quatf( w, x, y, z ) ).size() >= 4 + 3, "as text" ); prop_node g = named( { { "z", z }, { "w", w }, { "y", y }, { "x", x } } ); XOV_CHECK( from_prop_node( g, q ) && q.w == w && q.x == x && q.y == y && q.z == z, "in any order" ); }
static bool same( const quatf& a, const quatf& b ) { return a.w == b.w && a.x == b.x && a.y == b.y && a.z == b.z; }
XOV_PROOF( euler ) { float x = R(), y = R(), z = R(); vec3degf e{ degreef( x ), degreef( y ), degreef( z ) }; quatf q, d = quat_from_euler( e ); bool ok = from_prop_node( named( { { "x", x }, { "y", y }, { "z", z } } ), q ); XOV_COVER( "end" ); XOV_CHECK( ok && same( q, d ), "Euler angles in degrees" ); XOV_CHECK( from_prop_node( listed( { x, y, z } ), q ) && same( q, d ), "as array" ); XOV_CHECK( from_prop_node( prop_node( text( x ) + " " + text( y ) + " " + text( z ) ), q ) && same( q, d ), "or text" ); XOV_CHECK( !from_prop_node( listed( { x, y } ), q ) && !from_prop_node( prop_node( "u" ), q ), "others are refused" ); }
XOV_PROOF( euler_ordered ) { float x = R(), y = R(), z = R(); int o = int( xov::any_int( 0, 5 ) ); static const char* n[] = { "xyz", "xzy", "yxz", "yzx", "zxy", "zyx" }; prop_node p = named( { { "x", x }, { "y", y }, { "z", z } } ); p.add_child( "order" ).set_value( string( n[o] ) ); vec3degf e{ degreef( x ), degreef( y ), degreef( z ) }; quatf q, d = quat_from_euler( e, euler_order( o ) ); bool ok = from_prop_node( p, q ); XOV_COVER( "end" ); XOV_CHECK( ok && same( q, d ), "in the order given" ); }
XOV_PROOF( placed ) { float w = R(), x = R(), y = R(), z = R(), a = R(), b = R(), c = R(); transformf t( vec3f( a, b, c ), quatf( w, x, y, z ) ), u; prop_node p( t ); bool ok = from_prop_node( p, u ); XOV_COVER( "end" ); XOV_CHECK( ok && is( u.p, a, b, c ) && same( u.q, t.q ), "position and orientation" ); prop_node h; h.set( "p", t.p ); XOV_CHECK( xov::thrown( [&] { from_prop_node( h, u ); } ), "both are needed" ); }
XOV_PROOF( scaled_by ) { float x = R(), y = R(), z = R(); scale3f s; bool ok = from_prop_node( prop_node( text( x ) ), s ); XOV_COVER( "end" ); XOV_CHECK( ok && is( s, x, x, x ), "one number for all" ); XOV_CHECK( from_prop_node( listed( { x, y, z } ), s ) && is( s, x, y, z ), "array" ); XOV_CHECK( from_prop_node( named( { { "y", y }, { "z", z }, { "x", x } } ), s ) && is( s, x, y, z ), "group" ); XOV_CHECK( !from_prop_node( prop_node(), s ), "nothing" ); XOV_CHECK( !from_prop_node( listed( { x, y } ), s ), "or two" ); XOV_CHECK( is( s, x, y, z ), "change nothing" ); }
template< typename T > static bool bound( const bounds< T >& b, T l, T u ) { return b.lower == l && b.upper == u; }
XOV_PROOF( range ) { float l = R(), u = R(); boundsf b( R(), R() ); bool ok = from_str( to_str( boundsf( l, u ) ), b ); XOV_COVER( "end" ); XOV_CHECK( ok && bound( b, l, u ), "written and read" ); string s = text( l ), t = text( u ); XOV_CHECK( from_str( s, b ) && bound( b, l, l ), "a single number" ); XOV_CHECK( !from_str( "", b ) && !from_str( "u", b ) && !from_str( s + "..u", b ) && !from_str( "..", b ), "no number" ); boundsf c; XOV_CHECK( from_prop_node( prop_node( s + ".." + t ), c ) && bound( c, l, u ), "as a value" ); }
XOV_PROOF( range_group ) { float l = R(), u = R(); int k = int( xov::any_int( 0, 7 ) ); static const char* lo[] = { "min", "lower" }; static const char* hi[] = { "max", "upper" }; const char *a = lo[k & 1], *b = hi[k >> 1 & 1]; prop_node p = k & 4 ? named( { { b, u }, { a, l } } ) : named( { { a, l }, { b, u } } ); boundsf r; bool ok = from_prop_node( p, r ); XOV_COVER( "end" ); XOV_CHECK( ok && bound( r, l, u ), "by name, in any order" ); XOV_CHECK( from_prop_node( listed( { l, u } ), r ) && bound( r, l, u ), "or as array" ); XOV_CHECK( !from_prop_node( listed( { l } ), r ) && !from_prop_node( prop_node(), r ), "one is not enough" ); }
// ---------------------------------------------------------------- shapes
template< typename T > static const T* kept( const shape& s, shape& r ) { prop_node p = to_prop_node( s ); bool ok = from_prop_node( p, r ); XOV_COVER( "end" ); XOV_CHECK( ok && std::holds_alternative< T >( r ), "the same type" ); return std::get_if< T >( &r ); }
static shape other() { return xov::any_bool() ? shape( box() ) : shape( cone() ); }
XOV_PROOF( a_sphere ) { float a = R(); sphere s; s.radius_ = a; shape r = other(); auto* t = kept< sphere >( s, r ); XOV_CHECK( t && t->radius_ == a, "radius" ); }
XOV_PROOF( a_box ) { float a = R(), b = R(), c = R(); box s; s.half_dim_ = vec3f( a, b, c ); shape r = other(); auto* t = kept< box >( s, r ); XOV_CHECK( t && is( t->half_dim_, a, b, c ), "dimensions" ); prop_node p; p.set( "type", "box" ); p["dim"] = listed( { a, b, c } ); XOV_CHECK( from_prop_node( p, r ) && is( std::get< box >( r ).half_dim_, a / 2, b / 2, c / 2 ), "the full dimensions are given" ); }
template< typename T > static void round_one() { float a = R(), b = R(); T s; s.radius_ = a; s.height_ = b; shape r = other(); auto* t = kept< T >( s, r ); XOV_CHECK( t && t->radius_ == a && t->height_ == b, "radius and height" ); }
XOV_PROOF( a_cylinder ) { round_one< cylinder >(); }
XOV_PROOF( a_capsule ) { round_one< capsule >(); }
XOV_PROOF( a_cone ) { round_one< cone >(); }
XOV_PROOF( total_length ) { float a = R(), b = R(), h = R(); prop_node p = named( { { "radius", a }, { "total_length", b } } ); capsule c; bool ok = from_prop_node( p, c ); XOV_COVER( "end" ); XOV_CHECK( ok && c.radius_ == a && c.height_ == b - 2 * a, "the length with both ends" ); p = named( { { "height", h }, { "total_length", b }, { "radius", a } } ); XOV_CHECK( from_prop_node( p, c ) && c.height_ == b - 2 * a, "counts more than the height" ); }
XOV_PROOF( a_plane ) { float a = R(), b = R(), c = R(); plane s( vec3f( a, b, c ) ); shape r = other(); auto* t = kept< plane >( s, r ); XOV_CHECK( t && is( t->normal_, a, b, c ), "normal" ); plane u( vec3f( a, b, c ) ); XOV_CHECK( from_prop_node( prop_node(), u ) && is( u.normal_, 1, 0, 0 ), "or along x" ); }
XOV_PROOF( no_shape ) { prop_node p; p.set( "type", "ball" ); p.set( "radius", R() ); shape s = other(), t = s; bool ok = from_prop_node( p, s ); XOV_COVER( "end" ); XOV_CHECK( !ok && s.index() == t.index(), "an unknown type changes nothing" ); XOV_CHECK( xov::thrown( [&] { prop_node q; q.set( "radius", 1.0f ); from_prop_node( q, s ); } ) && xov::thrown( [&] { prop_node q; q.set( "type", "cone" ); q.set( "radius", 1.0f ); from_prop_node( q, s ); } ), "type and sizes are needed" ); }
#ifndef XOV_SYM
XOV_BOUNDED( scale_refused ) { string t = xov::any_string( "ub.-", 3 ); scale3f s( 2, 3, 4 ); XOV_CHECK( !from_prop_node( prop_node( t ), s ) && is( s, 2, 3, 4 ), "no number, no change" ); }
XOV_BOUNDED( shown ) { // as text
	float a = R(), b = R(), c = R(); sphere s; s.radius_ = a; box x; x.half_dim_ = vec3f( a, b, c ); cylinder y; y.radius_ = a; y.height_ = b; capsule z; z.radius_ = a; z.height_ = b; cone o; o.radius_ = a; o.height_ = b; plane p( vec3f( a, b, c ) ); char t[200]; auto f = [&]( const shape& h, const char* m ) { snprintf( t, 200, m, a, b, c ); XOV_CHECK( to_str( h ) == t, "type and sizes" ); };
	f( s, "sphere( radius=%g )" ); f( x, "box( half_dim=%g %g %g )" ); f( y, "cylinder( radius=%g, height=%g )" ); f( z, "capsule( radius=%g, height=%g )" ); f( o, "cone( radius=%g, height=%g )" ); f( p, "plane( normal=%g %g %g )" );
}
#endif
