// N11: lines, segments, paths and splines.
#include "xov.h"
#include "xo/xo_types.h"
#include "xo/system/assert.h"
#include "xo/numerical/math.h"
#include "xo/geometry/vec3.h"
#include "xo/geometry/line.h"
#include "xo/geometry/segment.h"
#include "xo/geometry/path_alg.h"
#include "xo/geometry/catmull_rom.h"
using namespace xo;
using xov::eq; using xov::le; using V = vec3d;
static double R() { return xov::any_real(); }
static V A() { double x = R(), y = R(), z = R(); return V( x, y, z ); }
static double sq( const V& v ) { return v.x * v.x + v.y * v.y + v.z * v.z; }
static bool on( const V& p, const lined& l ) { V c = cross_product( p - l.pos, l.dir ); return eq( c.x, 0 ) && eq( c.y, 0 ) && eq( c.z, 0 ); }
XOV_PROOF( lines ) {
	lined k( A(), A() ), l( A(), A() ); double b = dot_product( k.dir, l.dir ); xov::assume( sq( k.dir ) * sq( l.dir ) - b * b > 0.01 ); auto p = closest_points( k, l ); XOV_COVER( "end" );
	XOV_CHECK( on( p.first, k ) && on( p.second, l ), "the closest points lie on their lines" );
}
XOV_PROOF( lines_closest ) {
	lined k( A(), A() ), l( A(), A() ); double b = dot_product( k.dir, l.dir ); xov::assume( sq( k.dir ) * sq( l.dir ) - b * b > 0.01 ); auto p = closest_points( k, l ); V d = p.first - p.second; XOV_COVER( "end" );
	XOV_CHECK( eq( dot_product( d, k.dir ), 0 ), "the connection is orthogonal to the first line" ); XOV_CHECK( eq( dot_product( d, l.dir ), 0 ), "the connection is orthogonal to the second line" );
}
XOV_PROOF( lines_distance ) { lined k( A(), A() ), l( A(), A() ); double b = dot_product( k.dir, l.dir ); xov::assume( sq( k.dir ) * sq( l.dir ) - b * b > 0.01 ); auto p = closest_points( k, l ); double d = distance( k, l ); XOV_COVER( "end" ); XOV_CHECK( d >= 0 && eq( d * d, squared_distance( p.first, p.second ) ), "the distance of lines is that of the closest points" ); }
XOV_PROOF( lines_parallel ) {
	V dir = A(); double s = R(); xov::assume( sq( dir ) > 0.01 && ( s > 0.1 || s < -0.1 ) ); lined k( A(), dir ), l( A(), V( s * dir.x, s * dir.y, s * dir.z ) ); auto p = closest_points( k, l ); XOV_COVER( "end" ); if ( !xov::sym() ) { double b = dot_product( k.dir, l.dir ); xov::assume( sq( k.dir ) * sq( l.dir ) - b * b < 1e-16 ); }
	XOV_CHECK( eq( dot_product( p.first - p.second, dir ), 0 ), "parallel lines: the connection is orthogonal" ); XOV_CHECK( on( p.first, k ) && on( p.second, l ), "parallel lines: the points lie on their lines" );
}
static V at( const segmentd& s, double t ) { return V( s.p0.x + t * ( s.p1.x - s.p0.x ), s.p0.y + t * ( s.p1.y - s.p0.y ), s.p0.z + t * ( s.p1.z - s.p0.z ) ); }
XOV_PROOF( segment_distance ) {
	V p = A(); segmentd s( A(), A() ); V v = s.p1 - s.p0, w = p - s.p0; double c1 = dot_product( w, v ), c2 = dot_product( v, v ); double d = distance( p, s );
	if ( c1 <= 0 ) { XOV_COVER( "before" ); XOV_CHECK( d >= 0 && eq( d * d, squared_distance( p, s.p0 ) ), "before the segment: distance to the first point" ); }
	else if ( c1 >= c2 ) { XOV_COVER( "beyond" ); XOV_CHECK( d >= 0 && eq( d * d, squared_distance( p, s.p1 ) ), "beyond the segment: distance to the last point" ); }
	else { XOV_COVER( "inside" ); double b = c1 / c2; XOV_CHECK( d >= 0 && eq( d * d, squared_distance( p, at( s, b ) ) ), "else: distance to the projection" ); }
}
XOV_PROOF( segment_nearest ) { // the characterisation above is the distance to the nearest point of the segment
	V p = A(); segmentd s( A(), A() ); V v = s.p1 - s.p0, w = p - s.p0; double c1 = dot_product( w, v ), c2 = dot_product( v, v ), t = R(); xov::assume( 0 <= t && t <= 1 ); double d = distance( p, s ); V q = at( s, t ); XOV_COVER( "end" );
	double e = squared_distance( p, q ); XOV_CHECK( eq( e, sq( w ) - 2 * t * c1 + t * t * c2 ), "squared distance along the segment" ); XOV_CHECK( c2 >= 0, "squared length" );
	if ( c1 <= 0 ) { XOV_CHECK( eq( d * d, sq( w ) ), "first point" ); XOV_CHECK( le( d * d, e ), "no point of the segment is nearer (first)" ); }
	else if ( c1 >= c2 ) { XOV_CHECK( eq( d * d, sq( w ) - 2 * c1 + c2 ), "last point" ); XOV_CHECK( le( 0, ( 1 - t ) * ( ( c1 - c2 ) * 2 + c2 * ( 1 - t ) ) ), "lemma" ); XOV_CHECK( le( d * d, e ), "no point of the segment is nearer (last)" ); }
	else { double b = c1 / c2; XOV_CHECK( eq( b * c2, c1 ), "parameter of the projection" ); XOV_CHECK( eq( d * d, sq( w ) - b * c1 ), "projection" ); XOV_CHECK( eq( e - d * d, c2 * ( t - b ) * ( t - b ) ), "difference" ); XOV_CHECK( le( 0, c2 * ( t - b ) * ( t - b ) ), "lemma" ); XOV_CHECK( le( d * d, e ), "no point of the segment is nearer (projection)" ); }
}
XOV_PROOF( spline_segment ) {
	double p0 = R(), p1 = R(), p2 = R(), p3 = R(), t = R(); catmull_rom_segment<double> s( p0, p1, p2, p3 ); XOV_COVER( "end" ); XOV_CHECK( eq( s( 0.0 ), p1 ), "a spline segment starts at its second point" ); XOV_CHECK( eq( s( 1.0 ), p2 ), "a spline segment ends at its third point" );
	XOV_CHECK( eq( 2 * s( t ), 2 * p1 + ( p2 - p0 ) * t + ( 2 * p0 - 5 * p1 + 4 * p2 - p3 ) * t * t + ( 3 * p1 - p0 - 3 * p2 + p3 ) * t * t * t ), "Catmull-Rom polynomial" );
	catmull_rom_segment<double> l( p0, p0 + p1, p0 + 2 * p1, p0 + 3 * p1 ); XOV_CHECK( eq( l( t ), p0 + p1 + t * p1 ), "points on a line give a line" );
}
XOV_PROOF( spline_segment_vector ) { V p0 = A(), p1 = A(), p2 = A(), p3 = A(); catmull_rom_segment<V> s( p0, p1, p2, p3 ); V a = s( 0.0 ), b = s( 1.0 ); XOV_COVER( "end" ); XOV_CHECK( eq( a.x, p1.x ) && eq( a.y, p1.y ) && eq( a.z, p1.z ), "start" ); XOV_CHECK( eq( b.x, p2.x ) && eq( b.y, p2.y ) && eq( b.z, p2.z ), "end" ); }
static bool same( const catmull_rom_segment<double>& s, const std::vector<double>& p, size_t j ) { return ( s.a_ == 2 * p[j + 1] ) & ( s.b_ == -p[j] + p[j + 2] ) & ( s.c_ == 2 * p[j] - 5 * p[j + 1] + 4 * p[j + 2] - p[j + 3] ) & ( s.d_ == -p[j] + 3 * p[j + 1] - 3 * p[j + 2] + p[j + 3] ); }
XOV_PROOF( spline ) {
	auto p = xov::any_vector<double>( 6 ); const auto t = xov::any_vector<double>( 4 ); size_t n = t.size(); xov::assume( n >= 2 ); if ( !xov::sym() ) p.resize( n + 2, R() ); xov::assume( p.size() == n + 2 ); xov::assume( xov::forall( 0, long( n ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return t[j] < t[i]; } ); } ) );
	XOV_HINT_OBJ( [&]( const catmull_rom<double, double>& c, size_t k ) { return c.segments_.size() == k && xov::forall( 0, long( k ), [&]( size_t j ) { return same( c.segments_[j], p, j ); } ); } );
	catmull_rom<double, double> c( p, t ); XOV_COVER( "end" ); XOV_CHECK( c.segments_.size() == n - 1, "one segment between two times" ); size_t i = xov::any_size(); xov::assume( i < n ); XOV_CHECK( eq( c( t[i] ), p[i + 1] ), "the spline passes through its points at their times" );
}
XOV_PROOF( spline_refused ) { auto p = xov::any_vector<double>(); auto t = xov::any_vector<double>(); XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { catmull_rom<double, double> c( p, t ); } ) == ( p.size() < 4 || t.size() + 2 != p.size() ), "a spline needs four points and a time for each but the outer two" ); }
struct pt { double v; };
static pt operator-( const pt& a, const pt& b ) { return pt{ a.v - b.v }; }
static pt operator+( const pt& a, const pt& b ) { return pt{ a.v + b.v }; }
static pt operator*( double s, const pt& b ) { return pt{ s * b.v }; }
static double length( const pt& a ) { return std::fmax( a.v, -a.v ); }
namespace xov { template<> struct gen<pt> { static pt make() { return pt{ any_real() }; } }; }
static std::vector<double> lengths( const std::vector<pt>& p ) { // S[i]: length of the path up to point i
	if ( xov::sym() ) { auto S = xov::any_vector<double>(); xov::assume( S.size() == p.size() ); xov::assume( xov::forall( 0, long( p.size() ), [&]( size_t i ) { return i == 0 ? S[0] == 0 : S[i] == S[i - 1] + length( p[i] - p[i - 1] ); } ) ); return S; }
	std::vector<double> S; for ( size_t i = 0; i < p.size(); ++i ) S.push_back( i ? S[i - 1] + length( p[i] - p[i - 1] ) : 0 ); return S;
}
XOV_PROOF( path_lengths ) {
	const auto p = xov::any_vector<pt>(); auto S = lengths( p ); size_t n = p.size(); double l = 0; XOV_HINT( [&]( double len, size_t b ) { return b < n && len == S[b]; } ); bool t = xov::thrown( [&] { l = path_length( p ); } );
	XOV_CHECK( t == ( n == 0 ), "only an empty path has no length" ); if ( n ) { XOV_COVER( "end" ); XOV_CHECK( eq( l, S[n - 1] ), "the length of a path is the sum of the distances between its points" ); }
}
XOV_PROOF( path_insert ) {
	auto p = xov::any_vector<pt>(); const auto o = p; auto S = lengths( p ); size_t n = p.size(); double l = R(); index_t r = 0;
	size_t k = xov::any_size(); size_t kk = k < n ? k : 0; bool inside = k > 0 && k < n && S[k - 1] < l && l < S[k] && S[k] - l > 1e-5 * S[k] + 1e-5 && l - S[k - 1] > 1e-5 * l + 1e-5;
	if ( n ) { XOV_HINT( [&]( size_t i ) { return i >= 1 && i <= kk + 1 && xov::forall( 0, long( i ), [&]( size_t j ) { return S[j] <= S[i - 1]; } ); } ); for ( size_t i = 1; i < kk; ++i ) XOV_CHECK( S[i] >= S[i - 1], "the length does not decrease along the path" ); }
	XOV_HINT( [&]( double il, size_t i ) { return i >= 1 && i <= n && il == l - S[i - 1]; } ); if ( inside ) XOV_HINT( [&]( size_t i ) { return i <= k; } );
	bool t = xov::thrown( [&] { r = insert_path_point( p, l ); } ); XOV_CHECK( t == ( n < 2 ), "a path has at least two points" ); if ( n < 2 ) return;
	if ( l <= 0 ) { XOV_COVER( "before" ); XOV_CHECK( r == 0 && p.size() == n, "nothing is inserted before the path" ); return; }
	if ( !inside ) return; XOV_COVER( "inside" );
	XOV_CHECK( r == index_t( k ) && p.size() == n + 1, "a point is inserted in the segment that reaches the length" );
	size_t j = xov::any_size(); xov::assume( j < n ); XOV_CHECK( p[j < k ? j : j + 1].v == o[j].v, "all other points are kept in order" );
	XOV_CHECK( eq( length( p[k] - p[k - 1] ), l - S[k - 1] ), "the new point is at the given length along the path" ); XOV_CHECK( eq( length( p[k] - p[k - 1] ) + length( p[k + 1] - p[k] ), length( o[k] - o[k - 1] ) ), "the new point lies between its neighbours" );
}
