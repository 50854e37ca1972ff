// N08: sums, averages, variances, regression and polynomials, for any number of values (ghost prefix sums).
#include "xov.h"
#include "xo/system/assert.h"
#include "xo/container/container_tools.h"
#include "xo/container/container_algorithms.h"
#include "xo/numerical/average.h"
#include "xo/numerical/regression.h"
#include "xo/numerical/polynomial.h"
using namespace xo;
using xov::eq;
using vec = std::vector<double>;
static double R() { return xov::any_real(); }
// ghost: S[i] is the sum of the first i terms
template< class F > static vec sums( size_t n, const F& f ) {
	if ( xov::sym() ) { vec S = xov::any_vector<double>(); xov::assume( S.size() == n + 1 && xov::forall( 0, long( n + 1 ), [&]( size_t i ) { return i == 0 ? S[0] == 0 : S[i] == S[i - 1] + f( i - 1 ); } ) ); return S; }
	vec S( n + 1 ); for ( size_t i = 0; i < n; ++i ) S[i + 1] = S[i] + f( i ); return S;
}
// a sequence whose iterators are classes, as those of the standard containers are
struct it { using value_type = double; using difference_type = long; using pointer = const double*; using reference = const double&; using iterator_category = std::random_access_iterator_tag; const double* p; const double& operator*() const { return *p; } it& operator++() { ++p; return *this; } it operator+( long n ) const { return { p + n }; } long operator-( it o ) const { return p - o.p; } bool operator!=( it o ) const { return p != o.p; } bool operator==( it o ) const { return p == o.p; } };
static it first( const vec& v ) { return { v.data() }; }
static it last( const vec& v ) { return { v.data() + v.size() }; }
XOV_PROOF( averages ) {
	const vec v = xov::any_vector<double>(); const size_t n = v.size(); const vec S = sums( n, [&]( size_t i ) { return v[i]; } ); double a = 0;
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == S[b]; } );
	bool t = xov::thrown( [&] { a = average( v ); } ); XOV_CHECK( t == ( n == 0 ), "only an empty sequence has no average" ); if ( n == 0 ) return; XOV_COVER( "end" ); XOV_CHECK( eq( a * double( n ), S[n] ), "the average times the count is the sum" );
}
XOV_PROOF( averages_of ) { // of a function of the values
	const vec v = xov::any_vector<double>(); const size_t n = v.size(); const vec S = sums( n, [&]( size_t i ) { return 2 * v[i]; } ); double a = 0;
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == S[b]; } );
	bool t = xov::thrown( [&] { a = average( v, 0.0, []( double s, double x ) { return s + 2 * x; } ); } ); XOV_CHECK( t == ( n == 0 ), "only an empty sequence has no average" ); if ( n == 0 ) return; XOV_COVER( "end" ); XOV_CHECK( eq( a * double( n ), S[n] ), "the folded sum divided by the count" );
}
template< bool STD > static void variances() {
	const vec v = xov::any_vector<double>(); const size_t n = v.size(); const vec S = sums( n, [&]( size_t i ) { return v[i]; } ); const double m = n ? S[n] / double( n ) : 0; const vec Q = sums( n, [&]( size_t i ) { return ( v[i] - m ) * ( v[i] - m ); } );
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == S[b]; } );
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == Q[b]; } );
	XOV_HINT( []( double r ) { return r >= 0; } );
	std::pair<double, double> r; bool t = xov::thrown( [&] { if constexpr ( STD ) r = mean_std( v ); else { r = mean_var( v ); } } ); XOV_CHECK( t == ( n == 0 ), "only an empty sequence has none" ); if ( n == 0 ) return;
	XOV_COVER( "end" ); XOV_CHECK( eq( r.first, m ), "the mean" );
	if ( STD ) { XOV_CHECK( eq( r.second * r.second * double( n ), Q[n] ) && r.second >= 0, "the root of the mean squared deviation" ); } else { XOV_CHECK( eq( r.second * double( n ), Q[n] ), "the mean squared deviation from the mean" ); }
}
XOV_PROOF( variance ) { variances<false>(); }
XOV_PROOF( deviation ) { variances<true>(); }
XOV_PROOF( weighted_average ) { // one further value in any state
	averaged a; XOV_CHECK( a.empty() && a.get() == 0, "empty at first" ); double tv = R(), tw = R(); xov::assume( tw >= 0 && ( tw > 0 || tv == 0 ) ); a.tot_v = tv; a.tot_w = tw; double m = a.get(), v = R(), w = R(); xov::assume( w > 0 ); a.add( v, w );
	XOV_COVER( "end" ); XOV_CHECK( eq( a.get() * ( tw + w ), m * tw + v * w ), "weighted mean of what was there and the new value" ); XOV_CHECK( !a.empty(), "no longer empty" ); a.add( v ); XOV_CHECK( eq( a.tot_w, tw + w + 1 ), "weight one by default" ); a.reset(); XOV_CHECK( a.empty() && a.get() == 0, "reset" );
}
// the averages enter by their contract (proved above): the number that times the count is the sum
static const double* means_of[2]; static double means[2];
static double mean_contract( it b, it e, double v ) { XOV_CHECK( b != e && v == 0, "average of something" ); return means[b.p == means_of[0] ? 0 : 1]; }
XOV_STUB( mean, "xo::average<it, double>(", mean_contract, "" );
XOV_PROOF( regression_xy ) {
	const vec x = xov::any_vector<double>(); vec y = x; if ( xov::sym() ) { y = xov::any_vector<double>(); xov::assume( y.size() == x.size() ); } else for ( auto& e : y ) e = R(); const size_t n = x.size(); double mx = 0, my = 0;
	if ( xov::sym() ) { mx = R(); my = R(); } else if ( n ) { for ( double e : x ) mx += e / double( n ); for ( double e : y ) my += e / double( n ); } means_of[0] = x.data(); means_of[1] = y.data(); means[0] = mx; means[1] = my;
	const vec N = sums( n, [&]( size_t i ) { return ( x[i] - mx ) * ( y[i] - my ); } ), D = sums( n, [&]( size_t i ) { return ( x[i] - mx ) * ( x[i] - mx ); } ); xov::assume( n == 0 || ( xov::sym() ? D[n] > 0 : D[n] > 0.01 ) );
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == N[b]; } );
	XOV_HINT( [&]( double r, size_t b ) { return b <= n && r == D[b]; } );
	linear_function<double> f; xov::assume( n > 0 ); bool t = xov::thrown( [&] { f = linear_regression( first( x ), last( x ), first( y ), last( y ) ); } ); XOV_CHECK( !t, "any data have a line" );
	XOV_COVER( "end" ); XOV_CHECK( eq( f.slope() * D[n], N[n] ), "the slope is the covariance over the variance" ); XOV_CHECK( eq( f( mx ), my ), "the line passes through the averages" );
}
XOV_PROOF( regression_sizes ) {
	const vec x = xov::any_vector<double>(), y = xov::any_vector<double>(); xov::assume( x.size() != y.size() ); XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { linear_regression( first( x ), last( x ), first( y ), last( y ) ); } ), "different sizes are refused" );
}
XOV_PROOF( polynomials ) {
	double a = R(), b = R(), c = R(), d = R(), x = R(); cubic_function<double> f( a, b, c, d ); quadratic_function<double> q( a, b, c ); linear_function<double> l( a, b ); XOV_COVER( "end" );
	XOV_CHECK( eq( f( x ), a + b * x + c * x * x + d * x * x * x ), "cubic" ); XOV_CHECK( eq( q( x ), a + b * x + c * x * x ), "quadratic" ); XOV_CHECK( eq( l( x ), a + b * x ), "linear" ); XOV_CHECK( l.offset() == a && l.slope() == b && f[3] == d && f[0] == a, "coefficients" );
	cubic_function<double> z; XOV_CHECK( z( x ) == 0, "zero at first" ); z = f; XOV_CHECK( z( x ) == f( x ), "copies are the same function" ); xov::assume( b != 0 && ( xov::sym() || std::abs( b ) > 1e-3 ) ); XOV_CHECK( eq( l( intersect_y( l, x ) ), x ), "intersection with a height" );
}
