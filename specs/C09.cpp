// C09: container helpers (search, count, copy, append, filtered views, pairwise iteration, accumulation) agree with
// their sequence meaning, for every sequence.
#include "xov.h"
#include "xo/container/container_tools.h"
#include "xo/container/container_algorithms.h"
#include "xo/container/view_if.h"
#include "xo/container/zip.h"
using namespace xo;
using vec = std::vector<int>;
static vec any_vec() { return xov::any_vector<int>(); }
XOV_PROOF( searching ) {
	vec v = any_vec(); const vec& c = v; int k = xov::any_i32(); const size_t n = v.size();
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( p ), [&]( size_t i ) { return v[i] != k; } ); } );
	bool in = xov::exists( 0, long( n ), [&]( size_t i ) { return v[i] == k; } );
	size_t f = xo::find( v, k ) - v.begin(), g = xo::find( c, k ) - c.begin();
	XOV_CHECK( f <= n && ( f < n ) == in && g == f, "find succeeds exactly for present elements" );
	XOV_CHECK( ( f == n || v[f] == k ) && xov::forall( 0, long( f ), [&]( size_t i ) { return v[i] != k; } ), "find returns the first occurrence" );
	size_t fi = xo::find_index( v, k ); XOV_CHECK( in ? fi == f : fi == no_index, "find_index agrees with find" );
	XOV_CHECK( xo::contains( v, k ) == in, "contains agrees with find" );
	if ( in ) XOV_COVER( "present" );
}
static auto over( int k ) { return [k]( const int& x ) { return x > k; }; }
XOV_PROOF( searching_if ) {
	vec v = any_vec(); const vec& c = v; int k = xov::any_i32(); const size_t n = v.size(); auto pr = over( k );
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( p ), [&]( size_t i ) { return v[i] <= k; } ); } );
	bool in = xov::exists( 0, long( n ), [&]( size_t i ) { return v[i] > k; } );
	size_t f = xo::find_if( v, pr ) - v.begin(), g = xo::find_if( c, pr ) - c.begin();
	XOV_CHECK( f <= n && ( f < n ) == in && g == f, "find_if succeeds exactly when some element matches" );
	XOV_CHECK( ( f == n || v[f] > k ) && xov::forall( 0, long( f ), [&]( size_t i ) { return v[i] <= k; } ), "find_if returns the first match" );
	size_t fi = xo::find_index_if( v, pr ); XOV_CHECK( in ? fi == f : fi == no_index, "find_index_if agrees with find_if" );
	if ( in ) XOV_COVER( "present" );
}
XOV_PROOF( deciding_if ) {
	vec v = any_vec(); int k = xov::any_i32(); const size_t n = v.size(); auto pr = over( k );
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( p ), [&]( size_t i ) { return v[i] <= k; } ); } );
	bool in = xov::exists( 0, long( n ), [&]( size_t i ) { return v[i] > k; } );
	XOV_CHECK( xo::contains_if( v, pr ) == in, "contains_if is existence" );
	XOV_CHECK( xo::any_of( v, pr ) == in, "any_of is existence" );
	XOV_CHECK( xo::none_of( v, pr ) == !in, "none_of is its negation" );
	if ( in ) XOV_COVER( "present" );
}
XOV_PROOF( searching_ref ) {
	vec v = any_vec(); const vec& c = v; int k = xov::any_i32(); const size_t n = v.size(); auto pr = [&]( const int& x ) { return x > k; };
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( p ), [&]( size_t i ) { return v[i] <= k; } ); } );
	bool in = xov::exists( 0, long( n ), [&]( size_t i ) { return v[i] > k; } );
	const int* r = nullptr; bool t = xov::thrown( [&] { r = &xo::find_ref_if( v, pr ); } );
	XOV_CHECK( t == !in, "find_ref_if throws exactly when nothing matches" );
	if ( !t ) { size_t f = r - v.data(); XOV_CHECK( f < n && v[f] > k && xov::forall( 0, long( f ), [&]( size_t i ) { return v[i] <= k; } ), "find_ref_if refers to the first match" ); XOV_COVER( "found" ); }
}
// counting: the ghost cnt(i) is the number of matches among the first i elements
XOV_PROOF( counting ) {
	vec v = any_vec(); int k = xov::any_i32(); const size_t n = v.size(); auto pr = [&]( int x ) { return x == k; };
	if ( !xov::sym() ) { size_t m = 0; for ( int x : v ) m += x == k; XOV_CHECK( xo::count_if( v, pr ) == m && xo::count( v, k ) == m, "count is the number of occurrences" ); return; }
	xov::assume( xov::ufi( "cnt", 0 ) == 0 && xov::forall( 0, long( n ), [&]( size_t i ) { return xov::ufi( "cnt", i + 1 ) == xov::ufi( "cnt", i ) + ( v[i] == k ? 1 : 0 ); } ) );
	XOV_HINT( [&]( size_t p, size_t c ) { return p <= n && c == xov::ufi( "cnt", p ); } );
	XOV_CHECK( xo::count_if( v, pr ) == size_t( xov::ufi( "cnt", n ) ) && xo::count( v, k ) == size_t( xov::ufi( "cnt", n ) ), "count is the number of occurrences" );
	XOV_COVER( "end" );
}
XOV_PROOF( copying ) {
	vec v = any_vec(), w = any_vec(); const vec o = w; const size_t n = v.size();
	if ( n <= w.size() ) {
		XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( i < p ? v[i] : o[i] ); } ); } );
		auto e = xo::copy( v, w.begin() ); XOV_COVER( "fits" );
		XOV_CHECK( size_t( e - w.begin() ) == n && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( i < n ? v[i] : o[i] ); } ), "copy writes exactly the source elements" );
	}
}
XOV_PROOF( copying_checked ) {
	vec v = any_vec(), w = any_vec(); const vec o = w; const size_t n = v.size();
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( i < p ? v[i] : o[i] ); } ); } );
	bool t = xov::thrown( [&] { xo::copy_container( v, w ); } );
	XOV_CHECK( t == ( n > o.size() ), "copying into a smaller container is refused" );
	XOV_CHECK( w.size() == o.size() && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( !t && i < n ? v[i] : o[i] ); } ), "copy_container writes exactly the source elements" );
	if ( !t ) XOV_COVER( "fits" );
}
XOV_PROOF( copying_range ) {
	vec v = any_vec(), w = any_vec(); const vec o = w; const size_t m = w.size(); xov::assume( m <= v.size() );
	XOV_HINT( [&]( size_t p ) { return p <= m && xov::forall( 0, long( m ), [&]( size_t i ) { return w[i] == ( i < p ? v[i] : o[i] ); } ); } );
	auto e = xo::copy_to_range( v.begin(), w ); XOV_CHECK( size_t( e - v.begin() ) == m && xov::forall( 0, long( m ), [&]( size_t i ) { return w[i] == v[i]; } ), "copy_to_range fills the target" );
	XOV_COVER( "end" );
}
XOV_PROOF( copying_cast ) {
	vec v = any_vec(); std::vector<double> w = xov::any_vector<double>(); const std::vector<double> o = w; const size_t n = v.size();
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( i < p ? double( v[i] ) : o[i] ); } ); } );
	bool t = xov::thrown( [&] { xo::copy_cast( v, w ); } );
	XOV_CHECK( t == ( n > o.size() ), "casting into a smaller container is refused" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return w[i] == ( !t && i < n ? double( v[i] ) : o[i] ); } ), "copy_cast converts exactly the source elements" );
	if ( !t ) XOV_COVER( "fits" );
}
XOV_PROOF( appending ) {
	vec v = any_vec(), w = any_vec(); const vec o = v; vec& r = xo::append( v, w );
	XOV_CHECK( &r == &v && v.size() == o.size() + w.size() && xov::forall( 0, long( o.size() ), [&]( size_t i ) { return v[i] == o[i]; } ) && xov::forall( 0, long( w.size() ), [&]( size_t i ) { return v[o.size() + i] == w[i]; } ), "append concatenates" );
	int k = xov::any_i32(); index_t i = xo::emplace_back_get_index( w, k ); XOV_CHECK( w[i] == k && i + 1 == w.size() && xo::back_index( w ) == i && xo::index_of( w[i], w ) == i, "the returned index is the new element" );
	XOV_COVER( "end" );
}
// a filtered view visits exactly the matching elements in order
XOV_PROOF( filtered ) {
	vec v = any_vec(); int k = xov::any_i32(); const size_t n = v.size(); auto pr = [k]( int x ) { return x > k; };
	auto view = make_view_if( v, pr );
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( p ), [&]( size_t i ) { return v[i] <= k; } ); } );
	auto b = view.begin(), e = view.end(); size_t f = b.pos_ - v.begin();
	XOV_CHECK( e.pos_ == v.end() && f <= n && ( f == n || v[f] > k ) && xov::forall( 0, long( f ), [&]( size_t i ) { return v[i] <= k; } ), "the view starts at the first match" );
	XOV_CHECK( ( b != e ) == xov::exists( 0, long( n ), [&]( size_t i ) { return v[i] > k; } ), "the view is empty exactly when nothing matches" );
	XOV_COVER( "end" );
}
XOV_PROOF( filtered_step ) {
	vec v = any_vec(); int k = xov::any_i32(); const size_t n = v.size(); auto pr = [k]( int x ) { return x > k; };
	auto view = make_view_if( v, pr ); size_t f = xov::any_size(); xov::assume( f < n && v[f] > k );
	using it_t = decltype( view.begin() ); it_t b( view, v.begin() + f );
	XOV_CHECK( b.pos_ == v.begin() + f && *b == v[f], "an iterator at a match stays there" );
	XOV_HINT( [&]( size_t p ) { return p <= n && p >= f + 1 && xov::forall( long( f + 1 ), long( p ), [&]( size_t i ) { return v[i] <= k; } ); } );
	it_t c = b; it_t old = c++; ++b; size_t g = b.pos_ - v.begin(); XOV_COVER( "end" );
	XOV_CHECK( g > f && g <= n && ( g == n || v[g] > k ) && xov::forall( long( f + 1 ), long( g ), [&]( size_t i ) { return v[i] <= k; } ), "stepping moves to the next match" );
	XOV_CHECK( old.pos_ == v.begin() + f && c.pos_ == b.pos_, "post-increment steps and returns the old position" );
}
XOV_PROOF( zipped ) {
	vec v = any_vec(), w = any_vec(); xov::assume( w.size() >= v.size() ); const vec ov = v, ow = w; const size_t n = v.size();
	XOV_HINT( [&]( size_t p, size_t q ) { return p == q && p <= n && xov::forall( 0, long( ow.size() ), [&]( size_t i ) { return w[i] == ( i < p ? ov[i] : ow[i] ); } ); } );
	for ( auto&& p : xo::zip( v, w ) ) p.second = p.first;
	XOV_CHECK( xov::forall( 0, long( w.size() ), [&]( size_t i ) { return w[i] == ( i < n ? ov[i] : ow[i] ); } ), "zip pairs the elements at equal positions" );
	XOV_COVER( "end" );
}
// accumulate is the left fold: fold(i) is the ghost partial result
XOV_PROOF( folding ) {
	vec v = any_vec(); int a = int( xov::any_int( -1000, 1000 ) ); const size_t n = v.size();
	if ( !xov::sym() ) { long r = a, m = a; for ( int x : v ) { r = r + x; m = 3 * ( m & 1023 ) - ( x & 1023 ); } XOV_CHECK( xo::accumulate( v, long( a ) ) == r, "accumulate folds from the left" ); XOV_CHECK( xo::accumulate( v, long( a ), []( long p, int x ) { return 3 * ( p & 1023 ) - ( x & 1023 ); } ) == m, "accumulate applies the operation from the left" ); return; }
	xov::assume( xov::ufi( "sum", 0 ) == a && xov::forall( 0, long( n ), [&]( size_t i ) { return xov::ufi( "sum", i + 1 ) == xov::ufi( "sum", i ) + v[i]; } ) );
	xov::assume( xov::ufi( "fold", 0 ) == a && xov::forall( 0, long( n ), [&]( size_t i ) { return xov::ufi( "fold", i + 1 ) == 3 * xov::ufi( "fold", i ) - v[i]; } ) );
	XOV_HINT( [&]( size_t p, long c ) { return p <= n && c == xov::ufi( "sum", p ); } );
	XOV_HINT( [&]( size_t p, long c ) { return p <= n && c == xov::ufi( "fold", p ); } );
	XOV_CHECK( xo::accumulate( v, long( a ) ) == xov::ufi( "sum", n ), "accumulate folds from the left" );
	XOV_CHECK( xo::accumulate( v, long( a ), []( long p, int x ) { return 3 * p - x; } ) == xov::ufi( "fold", n ), "accumulate applies the operation from the left" );
	XOV_COVER( "end" );
}
XOV_PROOF( each ) {
	vec v = any_vec(); const vec o = v; const size_t n = v.size();
	XOV_HINT( [&]( size_t p ) { return p <= n && xov::forall( 0, long( n ), [&]( size_t i ) { return v[i] == o[i] + ( i < p ? 1 : 0 ); } ); } );
	xov::assume( xov::forall( 0, long( n ), [&]( size_t i ) { return o[i] < 1000; } ) );
	xo::for_each( v, []( int& x ) { x += 1; } ); XOV_CHECK( xov::forall( 0, long( n ), [&]( size_t i ) { return v[i] == o[i] + 1; } ), "for_each visits every element once" );
	XOV_COVER( "end" );
}
