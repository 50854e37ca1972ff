// C03: circular_deque behaves as a double-ended queue; circular_buffer is a first-in first-out frame buffer.
#include "xov.h"
#include "xo/container/circular_deque.h"
#include "xo/container/circular_buffer.h"
using namespace xo;
using dq = circular_deque<int>;
// abstraction: element number i, written independently of the implementation's modular arithmetic
static int at( const dq& d, size_t i ) { size_t p = d.front_ + i; return d.buffer_[p < d.buffer_.size() ? p : p - d.buffer_.size()]; }
static dq any_dq() { dq d; d.buffer_ = xov::any_vector<int>(); d.size_ = xov::any_size(); d.front_ = xov::any_size(); xov::assume( d.size_ <= d.buffer_.size() && ( d.front_ < d.buffer_.size() || ( d.front_ == 0 && d.buffer_.empty() ) ) ); return d; }
static bool wf( const dq& d ) { return d.size_ <= d.buffer_.size() && ( d.front_ < d.buffer_.size() || ( d.front_ == 0 && d.buffer_.empty() ) ); }
XOV_PROOF( read ) {
	dq d = any_dq(); const dq& c = d; size_t i = xov::any_size(); xov::assume( i < d.size() );
	XOV_COVER( "nonempty" );
	XOV_CHECK( d[i] == at( d, i ) && c[i] == at( d, i ), "operator[] reads element i" );
	XOV_CHECK( d.front() == at( d, 0 ) && c.front() == at( d, 0 ), "front is element 0" );
	XOV_CHECK( d.back() == at( d, d.size() - 1 ) && c.back() == at( d, d.size() - 1 ), "back is the last element" );
	XOV_CHECK( !d.empty(), "not empty" );
}
XOV_PROOF( push_back ) {
	dq d = any_dq(); const dq o = d; int v = xov::any_i32(); d.push_back( v );
	XOV_CHECK( wf( d ) && d.size() == o.size() + 1, "push_back adds one element" );
	XOV_CHECK( at( d, o.size() ) == v, "push_back appends the value" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return at( d, i ) == at( o, i ); } ), "push_back keeps the other elements" );
	if ( o.full() && o.front_ > 0 ) XOV_COVER( "full and wrapped" );
}
XOV_PROOF( push_front ) {
	dq d = any_dq(); const dq o = d; int v = xov::any_i32(); d.push_front( v );
	XOV_CHECK( wf( d ) && d.size() == o.size() + 1, "push_front adds one element" );
	XOV_CHECK( at( d, 0 ) == v, "push_front prepends the value" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return at( d, i + 1 ) == at( o, i ); } ), "push_front keeps the other elements" );
	XOV_COVER( "end" );
}
XOV_PROOF( pop ) {
	dq d = any_dq(); const dq o = d; xov::assume( d.size() > 0 ); XOV_COVER( "nonempty" );
	if ( xov::any_bool() ) { d.pop_back(); XOV_CHECK( wf( d ) && d.size() + 1 == o.size() && xov::forall( 0, long( d.size() ), [&]( size_t i ) { return at( d, i ) == at( o, i ); } ), "pop_back removes the last element" ); }
	else { d.pop_front(); XOV_CHECK( wf( d ) && d.size() + 1 == o.size() && xov::forall( 0, long( d.size() ), [&]( size_t i ) { return at( d, i ) == at( o, i + 1 ); } ), "pop_front removes the first element" ); }
}
XOV_PROOF( reserve ) {
	dq d = any_dq(); const dq o = d; size_t n = xov::any_size(); d.reserve( n );
	XOV_CHECK( wf( d ) && d.size() == o.size() && d.capacity() >= n, "reserve provides capacity and keeps the size" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return at( d, i ) == at( o, i ); } ), "reserve keeps the elements" );
	XOV_COVER( "end" );
}
XOV_PROOF( iterate ) {
	dq d = any_dq(); const dq& c = d; size_t i = xov::any_size(); xov::assume( i < d.size() && i < 1000000 );
	auto it = d.begin() + int( i ); XOV_CHECK( *it == at( d, i ) && *( c.begin() + int( i ) ) == at( d, i ), "begin() + i is element i" );
	auto a = it; auto p = a++; XOV_CHECK( p == it && a == it + 1, "postfix increment returns the old position" );
	++it; XOV_CHECK( ( it == d.end() ) == ( i + 1 == d.size() ), "iteration ends after the last element" );
	XOV_CHECK( d.end() - d.begin() == d.size(), "distance is the size" );
	d.clear(); XOV_CHECK( d.empty() && d.begin() == d.end(), "clear empties" ); XOV_COVER( "end" );
}

// ---------------------------------------------------------------- circular_buffer: abstraction by frame numbers
using cb = circular_buffer<int>;
struct cbs { cb b; size_t in, out; };	// in / out as frame numbers
static cbs any_cb( size_t ch ) {
	cbs s; size_t f = xov::any_size(); s.in = xov::any_size(); s.out = xov::any_size(); xov::assume( f > 0 && f < 1000000 && s.in < f && s.out < f );
	s.b.data_ = xov::any_vector<int>( 12 ); xov::assume( s.b.data_.size() == f * ch );
	s.b.frames_ = f; s.b.channels_ = ch; s.b.in_ofs_ = index_t( s.in * ch ); s.b.out_ofs_ = index_t( s.out * ch ); return s;
}
static void buffer( size_t ch ) {
	cbs s = any_cb( ch ); cb& b = s.b; const cb o = b; size_t f = b.capacity(), k = xov::any_size( 2 ); int v = xov::any_i32(); xov::assume( k < ch );
	XOV_CHECK( b.get( k ) == o.data_[s.out * ch + k] && b.front( k ) == b.get( k ), "get reads the oldest frame" );
	XOV_CHECK( b.empty() == ( s.in == s.out ), "empty exactly when nothing was stored" );
	b.set( k, v ); const cb& c = b; XOV_CHECK( c.back( k ) == v && b.back( k ) == v, "back is the last value set" );
	XOV_CHECK( xov::forall( 0, long( f * ch ), [&]( size_t i ) { return i == s.in * ch + k || b.data_[i] == o.data_[i]; } ), "set changes one entry" );
	cb e = b; e.advance();
	size_t nin = s.in + 1 == f ? 0 : s.in + 1, nout = nin == s.out ? ( s.out + 1 == f ? 0 : s.out + 1 ) : s.out;
	XOV_CHECK( e.in_ofs_ == nin * ch && e.out_ofs_ == nout * ch && e.data_ == b.data_, "advance moves to the next frame and drops the oldest only when full" );
	XOV_COVER( "end" );
	e.reset(); XOV_CHECK( e.empty() && e.in_ofs_ == 0 && xov::forall( 0, long( f * ch ), [&]( size_t i ) { return e.data_[i] == 0; } ), "reset clears" );
}
XOV_PROOF( buffer1 ) { buffer( 1 ); }
XOV_PROOF( buffer2 ) { buffer( 2 ); }
XOV_PROOF( buffer3 ) { buffer( 3 ); }
XOV_PROOF( buffer_resize ) {
	cbs s = any_cb( 2 ); cb& b = s.b; size_t f = xov::any_size(); bool t = xov::thrown( [&] { b.resize( f, 2 ); } );
	XOV_CHECK( t == ( s.in != s.out ), "resizing is refused after data was stored" );
	if ( !t ) XOV_CHECK( b.capacity() == f && b.data_.size() == f * 2, "resize provides the frames" );
}
XOV_PROOF( full_and_back ) {
	dq d = any_dq(); const dq o = d; const dq& c = d; XOV_CHECK( c.full() == ( o.size_ == o.buffer_.size() ) && c.empty() == ( o.size_ == 0 ) && c.size() == o.size_ && c.capacity() == o.buffer_.size(), "size and capacity" );
	const bool none = o.size_ == 0; XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { d.back(); } ) == none && xov::thrown( [&] { c.back(); } ) == none && xov::thrown( [&] { d.front(); } ) == none && xov::thrown( [&] { c.front(); } ) == none, "an empty deque has no first and last element" );
	if ( none ) { XOV_CHECK( xov::thrown( [&] { d.pop_back(); } ) && xov::thrown( [&] { d.pop_front(); } ) && d.size() == 0, "and nothing to remove" ); }
}
XOV_PROOF( iterators ) {
	dq d = any_dq(); const dq& c = d; size_t i = xov::any_size(), j = xov::any_size(); xov::assume( i < d.size() && j <= i && i < 1000000 ); XOV_COVER( "end" );
	auto it = d.begin() + int( i ); XOV_CHECK( *( it - int( j ) ) == at( d, i - j ) && it.operator->() == &*it && ( it - int( j ) != it ) == ( j != 0 ) && c.end() - c.begin() == d.size(), "positions step back, compare and point" );
	*it = 7; XOV_CHECK( at( d, i ) == 7, "and write" );
}
XOV_PROOF( growing_buffer ) { size_t f = xov::any_size( 3 ), n = xov::any_size( 3 ); xov::assume( f < 1000000 && n < 1000000 ); circular_buffer<int> b( f, n ); XOV_COVER( "end" ); XOV_CHECK( b.empty() && b.capacity() == f, "empty at first" ); index_t k = b.add_channel(); XOV_CHECK( k == n && b.channels_ == n + 1 && b.data_.size() == f * ( n + 1 ), "a channel is added" ); k = b.add_frame(); XOV_CHECK( k == f && b.capacity() == f + 1 && b.data_.size() == ( f + 1 ) * ( n + 1 ), "a frame is added" ); }
