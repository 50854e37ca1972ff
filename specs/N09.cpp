// N09: filters and delays. Real arithmetic is exact in the proofs.
#include "xov.h"
#include "xo/numerical/filter.h"
#include "xo/numerical/filter_1st_order.h"
#include "xo/numerical/delayer.h"
using namespace xo;
using xov::eq; using xov::le;
static double R() { return xov::any_real(); }
template< int N > static iir_filter<double, N> any_filter() { iir_filter<double, N> f; f.b0_ = R(); for ( int i = 0; i < N; ++i ) { f.x_[i] = R(); f.y_[i] = R(); f.b_[i] = R(); f.a_[i] = R(); } return f; }
template< int N > static void recurrence() {
	auto f = any_filter<N>(); const auto o = f; double x = R(), y = f( x ), w = o.b0_ * x; for ( int i = 0; i < N; ++i ) w += o.b_[i] * o.x_[i] + o.a_[i] * o.y_[i]; XOV_COVER( "end" ); XOV_CHECK( eq( y, w ) && y == f(), "the difference equation" );
	XOV_CHECK( f.x_[0] == x && f.y_[0] == y, "remembers the newest" ); for ( int i = 1; i < N; ++i ) XOV_CHECK( f.x_[i] == o.x_[i - 1] && f.y_[i] == o.y_[i - 1], "history moves on by one" ); for ( int i = 0; i < N; ++i ) XOV_CHECK( f.a_[i] == o.a_[i] && f.b_[i] == o.b_[i] && f.b0_ == o.b0_, "the coefficients stay" );
	if constexpr ( N > 1 ) XOV_CHECK( eq( f.velocity(), y - o.y_[0] ), "change since the last value" );
}
XOV_PROOF( recurrence_1 ) { recurrence<1>(); }
XOV_PROOF( recurrence_2 ) { recurrence<2>(); }
XOV_PROOF( recurrence_3 ) { recurrence<3>(); }
XOV_PROOF( linearity ) { // superposition, from zero and in any state
	auto f = any_filter<2>(), g = f, h = f; double a = R(), x = R(), y = R(); for ( int i = 0; i < 2; ++i ) { g.x_[i] = R(); g.y_[i] = R(); h.x_[i] = f.x_[i] + a * g.x_[i]; h.y_[i] = f.y_[i] + a * g.y_[i]; } double p = f( x ), q = g( y ), r = h( x + a * y ); XOV_COVER( "end" ); XOV_CHECK( eq( r, p + a * q ), "linear" ); XOV_CHECK( eq( h.y_[1], f.y_[1] + a * g.y_[1] ) && eq( h.x_[0], f.x_[0] + a * g.x_[0] ), "also in what it remembers" );
	iir_filter<double, 2> z; XOV_CHECK( z( x ) == 0 && z() == 0, "nothing set, nothing passes" );
}
XOV_PROOF( lowpass ) { // unit gain: a constant passes unchanged; the highest frequency is blocked
	double c = R(); if ( !xov::sym() ) { c = std::abs( c ); c = 0.01 + 0.48 * ( c - std::floor( c ) ); } auto f = make_lowpass_butterworth_2nd_order( c ); double v = R(); XOV_COVER( "end" ); XOV_CHECK( eq( f.b0_ + f.b_[0] + f.b_[1] + f.a_[0] + f.a_[1], 1 ), "unit gain for constants" );
	for ( int i = 0; i < 2; ++i ) f.x_[i] = f.y_[i] = v; XOV_CHECK( eq( f( v ), v ) && eq( f( v ), v ), "a constant passes unchanged" );
	f.x_[0] = v; f.x_[1] = -v; f.y_[0] = f.y_[1] = 0; XOV_CHECK( eq( f( -v ), 0 ), "an alternating signal does not pass" );
}
XOV_PROOF( first_order ) {
	double rate = R(), v0 = R(), v = R(), dt = R(); xov::assume( rate >= 0 && dt >= 0 ); filter_1st_order<double, double> f( rate, v0 ); XOV_CHECK( f.value() == v0 && f.rate() == rate, "starts at its initial value" ); auto g = f; double w = f( v, dt ); XOV_COVER( "end" );
	XOV_CHECK( w == f.value(), "remembers its value" ); XOV_CHECK( le( std::min( v0, v ), w ) && le( w, std::max( v0, v ) ), "moves towards the input, never beyond it" ); if ( v == v0 ) XOV_CHECK( eq( w, v ), "a constant stays" ); auto k = g; XOV_CHECK( eq( k( v, 0.0 ), v0 ), "nothing changes in no time" );
	xov::assume( rate * dt <= 1 ); double q = g.update_fast( v, dt ); XOV_CHECK( q == g.value() && eq( q, v0 + dt * rate * ( v - v0 ) ), "one explicit step" ); XOV_CHECK( le( std::min( v0, v ), q ) && le( q, std::max( v0, v ) ), "moves towards the input (small steps)" ); g.set_value( v ); g.set_rate( dt ); XOV_CHECK( g.value() == v && g.rate() == dt, "set" );
}
template< class D, int N > static void constant( bool whole ) { // in any state where all samples have one value, that value comes out; it stays so
	double c = R(); float delay = float( R() ); xov::assume( delay > ( xov::sym() ? 0 : 0.1f ) ); D d( delay, c ); XOV_CHECK( eq( d(), c ), "the initial value comes out at first" ); float t = float( R() ); xov::assume( t >= 0 && t < d.window_ ); d.time_ = t; if constexpr ( std::is_same_v<D, smooth_delayer<double, N>> ) d.inter_ = t * c; d.idx_ = size_t( xov::any_int( 0, N - 1 ) );
	float dt = float( R() ); xov::assume( dt >= 0 && dt <= d.window_ ); XOV_COVER( "end" ); double r = d( c, dt ); XOV_CHECK( eq( r, c ) && eq( d(), c ), "a constant stays" ); for ( int i = 0; i < N; ++i ) XOV_CHECK( eq( d.data_[i], c ), "in all samples" ); XOV_CHECK( d.idx_ < N, "index in range" ); 
}
XOV_PROOF( delay_constant_2 ) { constant<delayer<double, 2>, 2>( true ); }
XOV_PROOF( delay_constant_3 ) { constant<delayer<double, 3>, 3>( true ); }
XOV_PROOF( delay_constant_4 ) { constant<delayer<double, 4>, 4>( true ); }
XOV_PROOF( smooth_constant_2 ) { constant<smooth_delayer<double, 2>, 2>( false ); }
XOV_PROOF( smooth_constant_3 ) { constant<smooth_delayer<double, 3>, 3>( false ); }
// sampled once per window: exactly the value from N - 1 windows (the delay) ago, from any state
template< int N > static void exact() {
	float w = xov::sym() ? float( R() ) : 0.25f; xov::assume( w > 0 ); delayer<double, N> d( 1, 0 ); d.window_ = w; d.idx_ = size_t( xov::any_int( 0, N - 1 ) ); double in[2 * N]; for ( int i = 0; i < N; ++i ) d.data_[i] = R(); XOV_COVER( "end" ); for ( int i = 0; i < 2 * N; ++i ) { in[i] = R(); double r = d( in[i], w ); XOV_CHECK( d.time_ == 0, "at a sample" ); if ( i >= N - 1 ) XOV_CHECK( eq( r, in[i - N + 1] ), "the value of one delay ago" ); }
	delayer<double, N> e( float( N - 1 ) * w, 0 ); XOV_CHECK( eq( e.window_ * ( N - 1 ), ( N - 1 ) * w ), "the windows make up the delay" ); XOV_CHECK( xov::thrown( [&] { delayer<double, N> z( -w, 0 ); } ) && xov::thrown( [&] { smooth_delayer<double, N> z( 0, 0 ); } ), "only positive delays" );
}
XOV_PROOF( exact_2 ) { exact<2>(); }
XOV_PROOF( exact_3 ) { exact<3>(); }
XOV_PROOF( exact_4 ) { exact<4>(); }
template< int N, int M > static void ramp() { // M steps per window: a straight line comes out one delay later
	float w = xov::sym() ? float( R() ) : 0.5f; xov::assume( w > 0 ); delayer<double, N> d( 1, 0 ); d.window_ = w; double a = R(), b = R(); float dt = w / M; XOV_COVER( "end" ); for ( int i = 0; i <= ( N + 1 ) * M; ++i ) { double t = i * double( dt ), r = d( a + b * t, dt ); if ( i >= N * M ) XOV_CHECK( eq( r, a + b * ( t - ( N - 1 ) * double( w ) ) ), "the line as it was one delay ago" ); }
}
XOV_PROOF( ramp_2_2 ) { ramp<2, 2>(); }
XOV_PROOF( ramp_2_4 ) { ramp<2, 4>(); }
XOV_PROOF( ramp_3_2 ) { ramp<3, 2>(); }
// values between samples are blends of two samples; the smooth delayer stores the time-weighted mean of a window
XOV_PROOF( smooth_window ) {
	smooth_delayer<double, 2> d( 1, 0 ); float w = xov::sym() ? float( R() ) : 0.5f; xov::assume( w > 0 ); d.window_ = w; float h = w / 2; double a = R(), b = R(), o = d.data_[1]; d.idx_ = 0; d.add_sample( a, h ); XOV_CHECK( d.data_[1] == o && eq( d.inter_, a * h ), "collecting" ); d.add_sample( b, h ); XOV_COVER( "end" ); XOV_CHECK( d.idx_ == 1 && eq( d.data_[1], ( a + b ) / 2 ), "the mean over the window" ); XOV_CHECK( eq( d.time_, 0 ) && eq( d.inter_, 0 ), "a new window" );
	d.add_sample( a, float( 0.75 ) * w ); d.add_sample( b, h ); XOV_CHECK( d.idx_ == 0 && eq( d.data_[0], 0.75 * a + 0.25 * b ), "weighted with the time in the window" ); XOV_CHECK( eq( d.inter_, b * w / 4 ) && eq( d.time_, w / 4 ), "the rest belongs to the next one" );
}
