// N03: interpolation and piecewise functions pass through their data and stay between neighbouring values, for any
// number of data points.
#include "xov.h"
#include "xo/numerical/math.h"
#include "xo/system/assert.h"
#include "xo/container/flat_map.h"
#include "xo/numerical/interpolation.h"
#include "xo/numerical/piecewise_constant_function.h"
#include "xo/numerical/piecewise_linear_function.h"
#include "xo/numerical/regular_piecewise_linear_function.h"
using namespace xo;
using xov::eq; using xov::le;
static double R() { return xov::any_real(); }
using map_t = flat_map<double, double>;
static bool sorted( const map_t& m ) { return xov::forall( 0, long( m.data_.size() ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return m.data_[j].first < m.data_[i].first; } ); } ); }
static map_t any_map() { map_t m; m.data_ = xov::any_vector<std::pair<double, double>>(); xov::assume( sorted( m ) ); return m; }
XOV_PROOF( linear ) {
	double a = R(), b = R(), t = R(); XOV_COVER( "end" ); double v = lerp( a, b, t ), w = lerp_precise( a, b, t );
	XOV_CHECK( eq( lerp( a, b, 0.0 ), a ) && eq( lerp( a, b, 1.0 ), b ) && eq( lerp_precise( a, b, 0.0 ), a ) && eq( lerp_precise( a, b, 1.0 ), b ), "interpolation passes through its end points" );
	XOV_CHECK( eq( v, w ), "the precise variant computes the same value" );
	if ( t >= 0 && t <= 1 ) XOV_CHECK( le( xo::min( a, b ), v ) && le( v, xo::max( a, b ) ), "interpolation stays between its end points" );
	if ( a < b ) { double s = R(); if ( s < t ) XOV_CHECK( le( lerp( a, b, s ), v ), "interpolation is monotone" ); }
}
static bool between( double v, double a, double b ) { return le( xo::min( a, b ), v ) && le( v, xo::max( a, b ) ); }
XOV_PROOF( map_interpolation ) {
	const map_t m = any_map(); const size_t n = m.size(); double x = R(); double y = 0; bool t = xov::thrown( [&] { y = lerp_map( m, x ); } );
	XOV_CHECK( t == ( n == 0 ), "only an empty map has no value" ); if ( n == 0 ) return;
	if ( x <= m.data_[0].first ) XOV_CHECK( y == m.data_[0].second, "before the data, the first value" );
	else if ( x >= m.data_[n - 1].first ) XOV_CHECK( y == m.data_[n - 1].second, "beyond the data, the last value" );
	else { size_t i = xov::any_size(); xov::assume( i + 1 < n && m.data_[i].first <= x && x < m.data_[i + 1].first ); XOV_COVER( "inside" );
		auto& p = m.data_[i]; auto& q = m.data_[i + 1]; XOV_CHECK( eq( ( y - p.second ) * ( q.first - p.first ), ( q.second - p.second ) * ( x - p.first ) ), "inside, the line through the neighbours" ); }
}
XOV_PROOF( span_interpolation ) {
	const std::vector<double> v = xov::any_vector<double>(); const size_t n = v.size(); xov::assume( n < 1000000000 ); double x = R(); xov::assume( x < 1e9 ); double y = 0; bool t = xov::thrown( [&] { y = lerp_vec( v, x ); } );
	XOV_CHECK( t == ( n == 0 ), "only an empty sequence has no value" ); if ( n == 0 ) return;
	if ( x <= 0 ) XOV_CHECK( y == v[0], "before the data, the first value" );
	else if ( x >= double( n - 1 ) ) XOV_CHECK( y == v[n - 1], "beyond the data, the last value" );
	else { size_t i = xov::any_size(); xov::assume( i + 1 < n && double( i ) <= x && x < double( i + 1 ) ); XOV_COVER( "inside" ); XOV_CHECK( eq( y, v[i] + ( v[i + 1] - v[i] ) * ( x - double( i ) ) ), "inside, the line through the neighbours" ); }
}
XOV_PROOF( constant_pieces ) {
	piecewise_constant_function<double> f; f.data_ = any_map(); const map_t& m = f.data_; const size_t n = m.size(); double x = R(), y = 0; bool t = xov::thrown( [&] { y = f( x ); } );
	XOV_CHECK( t == ( n == 0 ) && f.size() == n, "only an empty function has no value" ); if ( n == 0 ) return;
	if ( x < m.data_[0].first ) XOV_CHECK( y == m.data_[0].second, "before the data, the first value" );
	else { size_t i = xov::any_size(); xov::assume( i < n && m.data_[i].first <= x && ( i + 1 == n || x < m.data_[i + 1].first ) ); XOV_COVER( "inside" ); XOV_CHECK( y == m.data_[i].second, "the value of the last point at or before the argument" ); XOV_CHECK( f.point( i ).first == m.data_[i].first && &f.point( i ).second == &m.data_[i].second, "points can be read back" ); }
}
XOV_PROOF( linear_pieces ) {
	piecewise_linear_function<double> f; f.data_ = any_map(); const map_t& m = f.data_; const size_t n = m.size(); double x = R(), y = 0; bool t = xov::thrown( [&] { y = f( x ); } );
	XOV_CHECK( t == ( n < 2 ) && f.size() == n, "two points are needed" ); if ( n < 2 ) return;
	size_t i = xov::any_size(); xov::assume( i + 1 < n && ( i == 0 || m.data_[i].first < x ) && ( i + 2 == n || x <= m.data_[i + 1].first ) ); XOV_COVER( "segment" );
	auto& p = m.data_[i]; auto& q = m.data_[i + 1];
	XOV_CHECK( eq( ( y - p.second ) * ( q.first - p.first ), ( q.second - p.second ) * ( x - p.first ) ), "the line through the neighbouring points, extended beyond the ends" );
}
XOV_PROOF( linear_at_points ) {
	piecewise_linear_function<double> f; f.data_ = any_map(); const size_t n = f.data_.size(); xov::assume( n >= 2 ); size_t i = xov::any_size(); xov::assume( i < n );
	const auto p = f.data_.data_[i]; XOV_CHECK( eq( f( p.first ), p.second ), "the function passes through every point" ); XOV_COVER( "end" );
	const auto& q = f.point( i ); XOV_CHECK( q.first == p.first && q.second == p.second, "points can be read back" );
}
template< class F > void inserting() {
	F f; f.data_ = any_map(); const map_t o = f.data_; double x = R(), y = R(); f.insert_point( x, y ); XOV_COVER( "end" );
	XOV_CHECK( sorted( f.data_ ) && xov::exists( 0, long( f.data_.size() ), [&]( size_t i ) { return f.data_.data_[i].first == x && f.data_.data_[i].second == y; } ), "an inserted point becomes part of the function" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { double k = o.data_[i].first, v = o.data_[i].second; return k == x || xov::exists( long( i ), long( i + 2 ), [&]( size_t j ) { return j < f.data_.size() && f.data_.data_[j].first == k && f.data_.data_[j].second == v; } ); } ), "other points stay" );
}
XOV_PROOF( insert_constant ) { inserting<piecewise_constant_function<double>>(); }
XOV_PROOF( insert_linear ) { inserting<piecewise_linear_function<double>>(); }
static double g0 = 0, g1 = 0;
template< size_t N > void regular() {
	double l = R(), h = R(); xov::assume( h > 0.01 ); double a = R(), b = R(), c = R(); double u = l + h * ( N - 1 );
	regular_piecewise_linear_function<double, N> f( l, u, [=]( double x ) { return a + b * x + c * ( x > l + h / 2 ? 1 : 0 ); } ); XOV_COVER( "end" );
	auto g = [=]( double x ) { return a + b * x + c * ( x > l + h / 2 ? 1 : 0 ); };
	for ( size_t i = 0; i < N; ++i ) XOV_CHECK( eq( f.data[i], g( l + h * i ) ), "the function is sampled at regular points" );
	XOV_CHECK( eq( f.x_step, h ) && eq( f.x_base, l ), "the samples are equally spaced" );
}
XOV_PROOF( regular3 ) { regular<3>(); }
XOV_PROOF( regular_eval ) {
	regular_piecewise_linear_function<double, 4> f( 0.0, 3.0, []( double ) { return 0.0; } ); for ( double& d : f.data ) d = R(); f.x_base = R(); f.x_step = R(); xov::assume( f.x_step > 0.01 ); double w = R(); xov::assume( w > -1000 && w < 1000 ); XOV_COVER( "end" );
	double y = f( f.x_base + w * f.x_step ); int i = w < 1 ? 0 : w < 2 ? 1 : 2; if ( xov::sym() || std::fabs( w - std::round( w ) ) > 1e-6 ) XOV_CHECK( eq( y, f.data[i] + ( w - i ) * ( f.data[i + 1] - f.data[i] ) ), "the line through the neighbouring samples, extended beyond the ends" );
}
