// C06: searching a storage for a value in a sorted channel returns the nearest frame, for any number of frames.
#include "xov.h"
#include "xo/container/storage_tools.h"
using namespace xo;
using sto = storage<double>;
template< size_t C, size_t ch > void nearest() {
	sto s; for ( size_t c = 0; c < C; ++c ) s.labels_.add( std::string( 1, char( 'a' + c ) ) );
	s.frame_size_ = xov::any_size( 6 ); xov::assume( s.frame_size_ < 1000000000 );
	s.data_ = xov::any_vector<double>( 6 ); if ( !xov::sym() ) s.data_.resize( C * s.frame_size_ ); xov::assume( s.data_.size() == C * s.frame_size_ );
	{
		const size_t n = s.frame_size_;
		// quantified over positions in the channel: k = C * frame + ch
		auto in = [&]( size_t k ) { return C == 1 || k % C == ch; };
		xov::assume( xov::forall( 0, long( C * n ), [&]( size_t i ) { return !in( i ) || xov::forall( 0, long( i ), [&]( size_t j ) { return !in( j ) || s.data_[j] <= s.data_[i]; } ); } ) );
		double v = xov::any_real();
		XOV_HINT( [&]( size_t first, size_t count ) { return first + count <= n && xov::forall( 0, long( C * first ), [&]( size_t i ) { return !in( i ) || s.data_[i] < v; } ) && xov::forall( long( C * ( first + count ) ), long( C * n ), [&]( size_t i ) { return !in( i ) || !( s.data_[i] < v ); } ); } );
		size_t f = find_frame_index( s, v, ch );
		if ( n == 0 ) { XOV_CHECK( f == no_index, "an empty storage has no nearest frame" ); return; }
		XOV_CHECK( f < n, "the result is a frame of the storage" ); if ( f >= n ) return;
		double d = s.data_[C * f + ch] - v; if ( d < 0 ) d = -d;
		XOV_CHECK( xov::forall( 0, long( C * n ), [&]( size_t i ) { double e = s.data_[i] - v; return !in( i ) || xov::le( d, e < 0 ? -e : e ); } ), "no frame is nearer" );
		if ( f > 0 && f + 1 < n ) XOV_COVER( "inside" );
	}
}
XOV_PROOF( nearest1_0 ) { nearest<1, 0>(); }
XOV_PROOF( nearest2_0 ) { nearest<2, 0>(); }
XOV_PROOF( nearest2_1 ) { nearest<2, 1>(); }
XOV_PROOF( nearest3_1 ) { nearest<3, 1>(); }
// vec3 / quaternion channels
XOV_PROOF( groups ) {
	sto s; double t = xov::any_real();
	vec3_<double> v( xov::any_real(), xov::any_real(), xov::any_real() ); quat_<double> q( xov::any_real(), xov::any_real(), xov::any_real(), xov::any_real() );
	for ( const char* n : { "t", "p.x", "p.y", "p.z", "o.w", "o.x", "o.y", "o.z" } ) s.add_channel( n );
	s.add_frame(); s.back()[0] = t;
	auto f = s.back(); write<double>( f, "p", v ); write<double>( f, "o", q );
	vec3_<double> w; quat_<double> r; const sto& k = s; auto cf = k[0]; read<double>( cf, "p", w ); read<double>( cf, "o", r );
	XOV_CHECK( w.x == v.x && w.y == v.y && w.z == v.z, "a vector written to a frame reads back" );
	XOV_CHECK( r.w == q.w && r.x == q.x && r.y == q.y && r.z == q.z, "a quaternion written to a frame reads back" );
	XOV_CHECK( s( 0, 0 ) == t, "other channels are left alone" );
	XOV_COVER( "end" );
}
