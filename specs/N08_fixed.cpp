#define XOV_CONCRETE
// N08, fixed sizes: medians, order statistics, regression.
#include "xov.h"
#include "xo/system/assert.h"
#include "xo/container/container_tools.h"
#include "xo/container/container_algorithms.h"
#include "xo/numerical/regression.h"
#include "xo/utility/data_algorithms.h"
using namespace xo;
using xov::eq; using xov::le;
using vec = std::vector<double>;
static double R() { return xov::any_real(); }
// a sequence whose iterators are classes, as those of the standard containers are
struct it { using value_type = double; using difference_type = long; using pointer = const double*; using reference = const double&; using iterator_category = std::random_access_iterator_tag; const double* p; const double& operator*() const { return *p; } it& operator++() { ++p; return *this; } it operator+( long n ) const { return { p + n }; } long operator-( it o ) const { return p - o.p; } bool operator!=( it o ) const { return p != o.p; } bool operator==( it o ) const { return p == o.p; } };
struct seq { const vec& v; it begin() const { return { v.data() }; } it end() const { return { v.data() + v.size() }; } };
template< int N > static vec values() { vec v; for ( int i = 0; i < N; ++i ) v.push_back( R() ); return v; }
// rank of m in v: at most half below, at most half above
template< int N > static bool is_median( const vec& v, double m ) { // independent definition: half the values on either side, m halfway between the two in the middle
	auto below = [&]( double x ) { int k = 0; for ( int i = 0; i < N; ++i ) k += v[i] < x; return k; }; auto upto = [&]( double x ) { int k = 0; for ( int i = 0; i < N; ++i ) k += v[i] <= x; return k; };
	bool ok = false; for ( int i = 0; i < N; ++i ) for ( int j = 0; j < N; ++j ) { if ( N % 2 == 1 && i != j ) continue; ok |= ( below( v[i] ) <= ( N - 1 ) / 2 ) & ( upto( v[i] ) > ( N - 1 ) / 2 ) & ( below( v[j] ) <= N / 2 ) & ( upto( v[j] ) > N / 2 ) & eq( 2 * m, v[i] + v[j] ); } return ok;
}
template< int N > static void medians() { const vec v = values<N>(); XOV_COVER( "end" ); XOV_CHECK( is_median<N>( v, median( v ) ), "median" ); XOV_CHECK( is_median<N>( v, median_slow( v ) ), "median by sorting" ); vec w = v; XOV_CHECK( is_median<N>( v, median_non_const( w ) ), "median in place" ); }
XOV_PROOF( median_1 ) { medians<1>(); }
XOV_PROOF( median_2 ) { medians<2>(); }
XOV_PROOF( median_3 ) { medians<3>(); }
XOV_PROOF( median_4 ) { medians<4>(); }
XOV_PROOF( median_empty ) { vec v; XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { median( v ); } ) && xov::thrown( [&] { median_slow( v ); } ), "nothing has no median" ); }
template< int N > static void ordered() {
	const vec v = values<N>(); const vec s = sorted_copy( v ); double lo = min_value( v ), hi = max_value( v ); XOV_COVER( "end" ); XOV_CHECK( s[0] == lo && s[N - 1] == hi, "smallest and largest" ); for ( int i = 0; i < N; ++i ) XOV_CHECK( lo <= v[i] && v[i] <= hi && ( i == 0 || s[i - 1] <= s[i] ), "in between, in order" );
	auto idx = sorted_indices( v ); for ( int i = 0; i < N; ++i ) { XOV_CHECK( idx[i] < N && v[idx[i]] == s[i], "sorted indices" ); for ( int j = 0; j < i; ++j ) XOV_CHECK( idx[i] != idx[j], "each once" ); }
	double t = 0; for ( int i = 0; i + 1 < N; ++i ) t += s[i]; if ( N > 1 ) XOV_CHECK( eq( top_average( v, N - 1 ) * ( N - 1 ), t ), "average of the smallest" );
}
XOV_PROOF( order_1 ) { ordered<1>(); }
XOV_PROOF( order_2 ) { ordered<2>(); }
XOV_PROOF( order_3 ) { ordered<3>(); }
template< int N > static void line_steps() { // evenly spaced arguments: the least squares line
	vec y = values<N>(); double x0 = R(), s = R(); xov::assume( xov::sym() ? s != 0 : s > 0.01 || s < -0.01 ); auto f = linear_regression( y, x0, s ); double r0 = 0, r1 = 0; for ( int i = 0; i < N; ++i ) { double x = x0 + i * s, r = y[i] - f.offset() - f.slope() * x; r0 += r; r1 += r * x; } XOV_COVER( "end" ); XOV_CHECK( eq( r0, 0 ) && eq( r1, 0 ), "the residuals are balanced (least squares)" );
}
XOV_PROOF( line_steps_2 ) { line_steps<2>(); }
XOV_PROOF( line_steps_3 ) { line_steps<3>(); }
XOV_PROOF( line_steps_5 ) { line_steps<5>(); }
template< int N > static void line_points() {
	vec x = values<N>(), y = values<N>(); double m = 0, d = 0; for ( int i = 0; i < N; ++i ) m += x[i] / N; for ( int i = 0; i < N; ++i ) d += ( x[i] - m ) * ( x[i] - m ); xov::assume( xov::sym() ? d != 0 : d > 0.01 ); auto f = linear_regression( seq{ x }, seq{ y } ); double r0 = 0, r1 = 0; for ( int i = 0; i < N; ++i ) { double r = y[i] - f.offset() - f.slope() * x[i]; r0 += r; r1 += r * x[i]; } XOV_COVER( "end" ); XOV_CHECK( eq( r0, 0 ) && eq( r1, 0 ), "the residuals are balanced (least squares)" );
}
XOV_PROOF( line_points_2 ) { line_points<2>(); }
XOV_PROOF( line_points_3 ) { line_points<3>(); }
template< int N > static void line_median() { // points on a line: that line
	double a = R(), b = R(), x0 = R(), s = R(); xov::assume( xov::sym() ? s > 0 : s > 0.01 ); vec y, x; for ( int i = 0; i < N; ++i ) { x.push_back( x0 + i * s ); y.push_back( a + b * x[i] ); } auto f = linear_median_regression( y, x0, s ), g = repeated_median_regression( x.begin(), x.end(), y.begin(), y.end() ); XOV_COVER( "end" ); XOV_CHECK( eq( f.slope(), b ) && eq( f.offset(), a ), "median regression of a line" ); XOV_CHECK( eq( g.slope(), b ) && eq( g.offset(), a ), "repeated median regression of a line" );
}
XOV_PROOF( line_median_2 ) { line_median<2>(); }
XOV_PROOF( line_median_3 ) { line_median<3>(); }
XOV_PROOF( too_few ) { vec v = values<1>(); XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { linear_median_regression( v, 0.0, 1.0 ); } ) && xov::thrown( [&] { repeated_median_regression( v.begin(), v.end(), v.begin(), v.end() ); } ), "a single point has no line" ); }
template< int C, int F > static void channels() { // means and covariances of a table of frames
	storage<double> s; for ( int c = 0; c < C; ++c ) s.labels_.labels_.push_back( string() ); s.frame_size_ = F; s.data_ = values<C * F>(); auto m = compute_channel_means( s ); auto cv = compute_covariance( s ); XOV_COVER( "end" );
	for ( int c = 0; c < C; ++c ) { double t = 0; for ( int f = 0; f < F; ++f ) t += s.data_[f * C + c]; XOV_CHECK( eq( m[c] * F, t ), "mean of a channel" ); }
	for ( int c = 0; c < C; ++c ) for ( int d = 0; d < C; ++d ) { double t = 0; for ( int f = 0; f < F; ++f ) t += ( s.data_[f * C + c] - m[c] ) * ( s.data_[f * C + d] - m[d] ); XOV_CHECK( eq( cv( c, d ) * F, t ) && eq( cv( c, d ), cv( d, c ) ), "covariance of two channels" ); }
}
XOV_PROOF( channels_1_2 ) { channels<1, 2>(); }
XOV_PROOF( channels_2_3 ) { channels<2, 3>(); }
