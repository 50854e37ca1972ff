// C02: sorted_vector is a sorted multiset.
#include "xov.h"
#include <algorithm>
#include "xo/string/string_tools.h"
#include "xo/container/container_tools.h"
#include "xo/container/sorted_vector.h"
using namespace xo;
using sv = sorted_vector<int>;
static std::vector<int>& raw( sv& v ) { return ( (std::vector<int>&)v ); }
static const std::vector<int>& raw( const sv& v ) { return ( (const std::vector<int>&)v ); }
static bool sorted( const sv& v ) { auto& r = raw( v ); return xov::forall( 0, long( r.size() ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return r[j] <= r[i]; } ); } ); }
static sv any_sv() { sv v; raw( v ) = xov::any_vector<int>(); xov::assume( sorted( v ) ); return v; }
static bool has( const sv& v, int k ) { auto& r = raw( v ); return xov::exists( 0, long( r.size() ), [&]( size_t i ) { return r[i] == k; } ); }
XOV_PROOF( find ) {
	sv v = any_sv(); const sv& c = v; int k = xov::any_i32(); auto it = v.find( k ); size_t p = it - v.begin();
	XOV_CHECK( ( it != v.end() ) == has( v, k ), "find succeeds exactly for members" );
	if ( it != v.end() ) { XOV_COVER( "present" ); XOV_CHECK( *it == k && xov::forall( 0, long( p ), [&]( size_t i ) { return raw( v )[i] < k; } ), "find returns the first equal element" ); }
	XOV_CHECK( size_t( c.find( k ) - c.cbegin() ) == p, "const find agrees" );
}
XOV_PROOF( insert ) {
	sv v = any_sv(); const sv old = v; int k = xov::any_i32(); auto it = v.insert( k ); long p = it - v.begin();
	XOV_CHECK( sorted( v ), "insert keeps the order" );
	XOV_CHECK( v.size() == old.size() + 1 && *it == k, "insert adds one element and returns it" );
	XOV_CHECK( xov::forall( 0, p, [&]( size_t i ) { return raw( v )[i] == raw( old )[i]; } ) && xov::forall( p, long( old.size() ), [&]( size_t i ) { return raw( v )[i + 1] == raw( old )[i]; } ), "insert keeps every other element in order" );
	XOV_CHECK( xov::forall( p + 1, long( v.size() ), [&]( size_t i ) { return raw( v )[i] > k; } ), "equal elements keep insertion order" );
	XOV_COVER( "end" );
}
XOV_PROOF( remove ) {
	sv v = any_sv(); const sv old = v; int k = xov::any_i32(), q = xov::any_i32(); bool had = has( v, k );
	XOV_HINT( [&]( size_t p ) { return p == 0 || raw( old )[p - 1] == k; } );
	auto it = v.remove( k ); size_t p = it - v.begin(); size_t d = old.size() - v.size();
	XOV_CHECK( sorted( v ), "remove keeps the order" );
	XOV_CHECK( !has( v, k ), "no equal element remains" );
	XOV_CHECK( ( d > 0 ) == had && v.size() <= old.size() && p <= v.size(), "remove shrinks exactly when the value was present" );
	if ( had ) { XOV_COVER( "had" ); XOV_CHECK( xov::forall( 0, long( p ), [&]( size_t i ) { return raw( v )[i] == raw( old )[i]; } ) && xov::forall( long( p ), long( v.size() ), [&]( size_t i ) { return raw( v )[i] == raw( old )[i + d]; } ), "remove keeps every other element in order" ); }
	if ( q != k ) XOV_CHECK( has( v, q ) == has( old, q ), "remove leaves other values alone" );
}
XOV_PROOF( init ) {
	int a = xov::any_i32(), b = xov::any_i32(), c = xov::any_i32(); sv v{ a, b, c };
	XOV_CHECK( sorted( v ) && v.size() == 3 && has( v, a ) && has( v, b ) && has( v, c ), "list construction sorts" );
}
