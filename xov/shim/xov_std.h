// Contract models of the <algorithm> functions used by xo (trusted; force-included before everything else).  The
// libstdc++ bodies stay reachable as xov_hidden_*; everything not named here comes from libstdc++ itself.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstdio>
#include <cstring>
#include <cwchar>
#include <utility>
#include <type_traits>
#include <iterator>
#include <initializer_list>
#include <bits/char_traits.h>
#include <bits/predefined_ops.h>
#include <bits/stl_function.h>
#define lower_bound xov_hidden_lower_bound
#define upper_bound xov_hidden_upper_bound
#define find xov_hidden_find
#define find_if xov_hidden_find_if
#define find_if_not xov_hidden_find_if_not
#define sort xov_hidden_sort
#define stable_sort xov_hidden_stable_sort
#define remove_if xov_hidden_remove_if
#define remove xov_hidden_remove
#define copy xov_hidden_copy
#define copy_n xov_hidden_copy_n
#define copy_if xov_hidden_copy_if
#define copy_backward xov_hidden_copy_backward
#define fill xov_hidden_fill
#define fill_n xov_hidden_fill_n
#define move_backward xov_hidden_move_backward
#define count xov_hidden_count
#define count_if xov_hidden_count_if
#define all_of xov_hidden_all_of
#define any_of xov_hidden_any_of
#define none_of xov_hidden_none_of
#define unique xov_hidden_unique
#define equal xov_hidden_equal
#define max_element xov_hidden_max_element
#define min_element xov_hidden_min_element
#define binary_search xov_hidden_binary_search
#define rotate xov_hidden_rotate
#define equal_range xov_hidden_equal_range
#define nth_element xov_hidden_nth_element
#define partial_sort xov_hidden_partial_sort
#define partial_sort_copy xov_hidden_partial_sort_copy
#include <bits/stl_algobase.h>
#include <bits/stl_heap.h>
#include <bits/stl_tempbuf.h>
#include <bits/stl_algo.h>
#include <cmath>
#undef lower_bound
#undef upper_bound
#undef find
#undef find_if
#undef find_if_not
#undef sort
#undef stable_sort
#undef remove_if
#undef remove
#undef copy
#undef copy_n
#undef copy_if
#undef copy_backward
#undef fill
#undef fill_n
#undef move_backward
#undef count
#undef count_if
#undef all_of
#undef any_of
#undef none_of
#undef unique
#undef equal
#undef max_element
#undef min_element
#undef binary_search
#undef rotate
#undef equal_range
#undef nth_element
#undef partial_sort
#undef partial_sort_copy
#include <string>
extern "C" { bool __xov_concrete( long ); void __xov_permute( void* b, size_t n ); void __xov_fill( void* b, size_t lo, size_t hi, const void* v, size_t esz ); void __xov_copy( void* dst, const void* src, size_t n, size_t esz ); size_t __xov_compact( void* b, size_t n, const void*, bool ( * )( const void*, long ) ); }
namespace xovi {
	// unique split point r of [0,n): p holds below r and fails from r on; requires p to be partitioned
	template< class P > size_t split( long n, const P& p, const char* what ) {
#ifdef XOV_CONCRETE
		if ( __xov_concrete( n ) ) { long i = 0; while ( i < n && p( i ) ) ++i; for ( long j = i; j < n; ++j ) __xov_require( !p( j ), what ); return size_t( i ); }
#endif
		__xov_require( forall( 0, n - 1, [&]( size_t i ) { return !p( i + 1 ) || p( i ); } ), what );
		size_t r = any_size( 0, size_t( n ) );
		__xov_assume( forall( 0, long( r ), [&]( size_t i ) { return p( i ); } ) );
		__xov_assume( forall( long( r ), n, [&]( size_t i ) { return !p( i ); } ) );
		return r;
	}
	// first index in [0,n) with p, or n
	template< class P > size_t first( long n, const P& p ) {
		if ( __xov_concrete( n ) && n <= 16 ) { // evaluate what is concrete
			long i = 0; for ( ; i < n; ++i ) { bool b = p( i ); if ( !__xov_concrete( b ) ) break; if ( b ) return size_t( i ); }
			if ( i == n ) return size_t( n );
		}
		size_t r = any_size( 0, size_t( n ) );
		__xov_assume( forall( 0, long( r ), [&]( size_t i ) { return !p( i ); } ) );
		if ( long( r ) != n ) __xov_assume( p( r ) );
		return r;
	}
	struct less { template< class A, class B > bool operator()( const A& a, const B& b ) const { return a < b; } };
	template< class T > struct is_seq : std::false_type {};
	template< class T > struct is_seq<T*> : std::true_type {};
}
namespace std {
	template< class T, class V, class C > T* lower_bound( T* b, T* e, const V& v, C c ) { return b + xovi::split( e - b, [&]( size_t i ) { return bool( c( b[i], v ) ); }, "lower_bound: range is partitioned by the key" ); }
	template< class T, class V > T* lower_bound( T* b, T* e, const V& v ) { return b + xovi::split( e - b, [&]( size_t i ) { return b[i] < v; }, "lower_bound: range is partitioned by the key" ); }
	template< class T, class V, class C > T* upper_bound( T* b, T* e, const V& v, C c ) { return b + xovi::split( e - b, [&]( size_t i ) { return !c( v, b[i] ); }, "upper_bound: range is partitioned by the key" ); }
	template< class T, class V > T* upper_bound( T* b, T* e, const V& v ) { return b + xovi::split( e - b, [&]( size_t i ) { return !( v < b[i] ); }, "upper_bound: range is partitioned by the key" ); }
	template< class T, class V, class C > pair<T*, T*> equal_range( T* b, T* e, const V& v, C c ) { return { lower_bound( b, e, v, c ), upper_bound( b, e, v, c ) }; }
	template< class T, class V > bool binary_search( T* b, T* e, const V& v ) { T* r = lower_bound( b, e, v ); return r != e && !( v < *r ); }
	template< class T, class V, class C > bool binary_search( T* b, T* e, const V& v, C c ) { T* r = lower_bound( b, e, v, c ); return r != e && !c( v, *r ); }
	template< class I, class V > I find( I b, I e, const V& v ) { return b + xovi::first( e - b, [&]( size_t i ) { return *( b + i ) == v; } ); }
	template< class I, class P > I find_if( I b, I e, P p ) { return b + xovi::first( e - b, [&]( size_t i ) { return bool( p( *( b + i ) ) ); } ); }
	template< class I, class P > I find_if_not( I b, I e, P p ) { return b + xovi::first( e - b, [&]( size_t i ) { return !p( *( b + i ) ); } ); }
	template< class I, class P > bool all_of( I b, I e, P p ) { return xovi::forall( 0, e - b, [&]( size_t i ) { return bool( p( *( b + i ) ) ); } ); }
	template< class I, class P > bool any_of( I b, I e, P p ) { return xovi::exists( 0, e - b, [&]( size_t i ) { return bool( p( *( b + i ) ) ); } ); }
	template< class I, class P > bool none_of( I b, I e, P p ) { return !any_of( b, e, p ); }
	template< class I, class P > long count_if( I b, I e, P p ) {
		long n = e - b; long r = __xov_any_int( 0, long( 1 ) << 40 ); __xov_assume( r <= n ); __xov_assume( ( r == 0 ) == !any_of( b, e, p ) ); __xov_assume( ( r == n ) == all_of( b, e, p ) );
		__xov_note( "std::count_if: only its bounds and its 0/all cases are specified" ); return r;
	}
	template< class I, class V > long count( I b, I e, const V& v ) { return count_if( b, e, [&]( const auto& x ) { return x == v; } ); }
	template< class T, class U > bool equal( T* b, T* e, U* b2 ) { return xovi::forall( 0, e - b, [&]( size_t i ) { return b[i] == b2[i]; } ); }
	template< class T, class U > bool equal( T* b, T* e, U* b2, U* e2 ) { return e - b == e2 - b2 && xovi::forall( 0, e - b, [&]( size_t i ) { return b[i] == b2[i]; } ); }
#ifdef XOV_CONCRETE
	template< class I, class C > I max_element( I b, I e, C c ) { for ( I r = b; r != e; ++r ) { bool best = true; for ( I k = b; k != e; ++k ) best &= k - b < r - b ? bool( c( *k, *r ) ) : !c( *r, *k ); if ( best ) return r; } return e; }
	template< class I > I max_element( I b, I e ) { return max_element( b, e, xovi::less() ); }
	template< class I, class C > I min_element( I b, I e, C c ) { for ( I r = b; r != e; ++r ) { bool best = true; for ( I k = b; k != e; ++k ) best &= k - b < r - b ? bool( c( *r, *k ) ) : !c( *k, *r ); if ( best ) return r; } return e; }
#else
	template< class I, class C > I max_element( I b, I e, C c ) {
		long n = e - b; if ( n == 0 ) return e; long r = __xov_any_int( 0, long( 1 ) << 40 ); __xov_assume( r < n );
		__xov_assume( xovi::forall( 0, n, [&]( size_t i ) { return !c( *( b + r ), *( b + i ) ); } ) ); __xov_assume( xovi::forall( 0, r, [&]( size_t i ) { return bool( c( *( b + i ), *( b + r ) ) ); } ) ); return b + r;
	}
	template< class I > I max_element( I b, I e ) { return max_element( b, e, xovi::less() ); }
	template< class I, class C > I min_element( I b, I e, C c ) {
		long n = e - b; if ( n == 0 ) return e; long r = __xov_any_int( 0, long( 1 ) << 40 ); __xov_assume( r < n );
		__xov_assume( xovi::forall( 0, n, [&]( size_t i ) { return !c( *( b + i ), *( b + r ) ); } ) ); __xov_assume( xovi::forall( 0, r, [&]( size_t i ) { return bool( c( *( b + r ), *( b + i ) ) ); } ) ); return b + r;
	}
#endif
	template< class I > I min_element( I b, I e ) { return min_element( b, e, xovi::less() ); }
	template< class T > void xov_swap( T& a, T& b ) { T t( std::move( a ) ); a = std::move( b ); b = std::move( t ); }
#ifdef XOV_CONCRETE
	template< class T, class C > void sort( T* b, T* e, C c ) { for ( long n = e - b; n > 1; --n ) for ( long i = 0; i + 1 < n; ++i ) if ( c( b[i + 1], b[i] ) ) xov_swap( b[i], b[i + 1] ); }
#else
	template< class T, class C > void sort( T* b, T* e, C c ) { size_t n = size_t( e - b ); __xov_permute( b, n ); __xov_assume( xovi::forall( 0, long( n ), [&]( size_t i ) { return xovi::forall( 0, long( i ), [&]( size_t j ) { return !c( b[i], b[j] ); } ); } ) ); }
#endif
	template< class T > void sort( T* b, T* e ) { sort( b, e, xovi::less() ); }
	template< class T, class C > void stable_sort( T* b, T* e, C c ) { sort( b, e, c ); }
	template< class T > void stable_sort( T* b, T* e ) { sort( b, e ); }
#ifdef XOV_CONCRETE
	// the nth element in its place, smaller ones in front and larger ones behind, in any order
	template< class T, class C > void nth_element( T* b, T* m, T* e, C c ) { sort( b, e, c ); for ( T* i = b; i + 1 < m; ++i ) if ( __xov_any_bool() ) xov_swap( *i, *( m - 1 ) ); if ( m != e ) for ( T* i = m + 1; i + 1 < e; ++i ) if ( __xov_any_bool() ) xov_swap( *i, *( e - 1 ) ); }
#else
	template< class T, class C > void nth_element( T* b, T* m, T* e, C c ) { size_t n = size_t( e - b ), k = size_t( m - b ); __xov_permute( b, n ); if ( k < n ) { __xov_assume( xovi::forall( 0, long( k ), [&]( size_t i ) { return !c( b[k], b[i] ); } ) ); __xov_assume( xovi::forall( long( k ), long( n ), [&]( size_t i ) { return !c( b[i], b[k] ); } ) ); } }
#endif
	template< class T, class U > U* partial_sort_copy( T* b, T* e, U* o, U* f ) { size_t n = size_t( e - b ); U* t = new U[n + 1]; for ( size_t i = 0; i < n; ++i ) t[i] = b[i]; sort( t, t + n ); size_t k = 0; for ( ; k < n && o + k != f; ++k ) o[k] = t[k]; delete[] t; return o + k; }
	template< class T > void nth_element( T* b, T* m, T* e ) { nth_element( b, m, e, xovi::less() ); }
	// remove_if: the kept elements move to the front in order
	template< class T, class P > T* remove_if( T* b, T* e, P p ) { auto keep = [&]( size_t i ) { return !p( b[i] ); }; return b + __xov_compact( b, size_t( e - b ), &keep, []( const void* c, long i ) -> bool { return ( *(const decltype( keep )*)c )( size_t( i ) ); } ); }
	template< class T, class V > T* remove( T* b, T* e, const V& v ) { return remove_if( b, e, [&]( const T& x ) { return x == v; } ); }
	template< class T, class U > U* copy( T* b, T* e, U* o ) { size_t n = size_t( e - b ); if ( n ) __xov_copy( o, b, n, sizeof( T ) ); return o + n; }
	template< class T, class N, class U > U* copy_n( T* b, N n, U* o ) { if ( n ) __xov_copy( o, b, size_t( n ), sizeof( T ) ); return o + n; }
	template< class I, class O, class = typename enable_if< !( is_pointer<I>::value && is_pointer<O>::value ) >::type > O copy( I b, I e, O o ) { return xov_hidden_copy( b, e, o ); }
	template< class T, class V > void fill( T* b, T* e, const V& v ) { if ( b != e ) { T x( v ); __xov_fill( b, 0, size_t( e - b ), &x, sizeof( T ) ); } }
	template< class T, class N, class V > T* fill_n( T* b, N n, const V& v ) { if ( n > 0 ) { T x( v ); __xov_fill( b, 0, size_t( n ), &x, sizeof( T ) ); return b + n; } return b; }
	template< class I, class V > auto xov_fill_it( I b, I e, const V& v, int ) -> typename enable_if< is_pointer< decltype( b.value_ ) >::value >::type { fill( b.value_, e.value_, v ); } // iterator that only wraps a pointer
	template< class I, class V > void xov_fill_it( I b, I e, const V& v, long ) { xov_hidden_fill( b, e, v ); }
	template< class I, class V, class = typename enable_if< !is_pointer<I>::value >::type > void fill( I b, I e, const V& v ) { xov_fill_it( b, e, v, 0 ); }
}
// iterators are plain pointers here, so names that libstdc++ finds by argument-dependent lookup through its iterator
// classes have to be visible to xo explicitly
namespace xo { using std::make_pair; }
namespace std { template< class C, class T = char_traits<C> > class basic_ostream; template< class C, class T = char_traits<C> > class basic_istream; }
#include <iosfwd>
