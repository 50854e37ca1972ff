// C08: a flag set behaves as a set of flags.
#include "xov.h"
#include "xo/container/flag_set.h"
using namespace xo;
enum class fl { a, b, c = 31, d = 32, e = 40, z = 63 };
using fs = flag_set<fl>;
static fs any_fs() { return fs( uint64( xov::any_bits() ) ); }
static const fl all[] = { fl::a, fl::b, fl::c, fl::d, fl::e, fl::z };
template< fl F > void one() {
	fs s = any_fs(); const uint64 o = s.data(); const uint64 bit = uint64( 1 ) << int( F );
	XOV_CHECK( s.get( F ) == ( ( o & bit ) != 0 ) && s.get<F>() == s.get( F ) && s( F ) == s.get( F ), "get reads the flag" );
	bool v = xov::any_bool(); fs t = s; t.set( F, v ); XOV_CHECK( t.get( F ) == v && ( t.data() | bit ) == ( o | bit ), "set assigns exactly this flag" );
	t = s; t.set<F>( v ); XOV_CHECK( t.get( F ) == v && ( t.data() | bit ) == ( o | bit ), "static set assigns exactly this flag" );
	t = s; t.set( F ); XOV_CHECK( t.data() == ( o | bit ), "set raises the flag" );
	t = s; t.set<F>(); XOV_CHECK( t.data() == ( o | bit ), "static set raises the flag" );
	t = s; t.clear<F>(); { fs k = s; k.clear( F ); XOV_CHECK( k.data() == t.data(), "both clears agree" ); } XOV_CHECK( !t.get( F ) && ( t.data() | bit ) == ( o | bit ), "clear lowers exactly this flag" );
	t = s; t.toggle( F ); XOV_CHECK( t.get( F ) == !s.get( F ) && ( t.data() | bit ) == ( o | bit ), "toggle flips exactly this flag" );
	t = s; t.toggle<F>(); XOV_CHECK( t.get( F ) == !s.get( F ) && ( t.data() | bit ) == ( o | bit ), "static toggle flips exactly this flag" );
	fs u( F ); XOV_CHECK( u.data() == bit && u.any(), "a flag makes a singleton" );
	s.clear(); XOV_CHECK( s.data() == 0 && !s.any() && !s.get( F ), "clear empties the set" );
	XOV_COVER( "end" );
}
XOV_PROOF( flag_a ) { one<fl::a>(); }
XOV_PROOF( flag_b ) { one<fl::b>(); }
XOV_PROOF( flag_c ) { one<fl::c>(); }
XOV_PROOF( flag_d ) { one<fl::d>(); }
XOV_PROOF( flag_z ) { one<fl::z>(); }
XOV_PROOF( lists ) {
	fs s = any_fs(); const fs o = s; fl x = all[xov::any_int( 0, 5 )], y = all[xov::any_int( 0, 5 )]; bool v = xov::any_bool();
	fs l{ x, y };
	for ( fl f : all ) XOV_CHECK( l.get( f ) == ( f == x || f == y ), "list construction has exactly the listed flags" );
	XOV_CHECK( s.count( { x, y } ) == size_t( s.get( x ) ) + size_t( s.get( y ) ) && s.any( { x, y } ) == ( s.get( x ) || s.get( y ) ), "count and any agree with membership" );
	fs t = s; t.set( { x, y } ); fs u = s; u.set( { x, y }, v ); fs w = s; w.clear( { x, y } );
	for ( fl f : all ) { bool in = f == x || f == y;
		XOV_CHECK( t.get( f ) == ( in || o.get( f ) ), "setting a list raises exactly these flags" );
		XOV_CHECK( u.get( f ) == ( in ? v : o.get( f ) ), "assigning a list assigns exactly these flags" );
		XOV_CHECK( w.get( f ) == ( !in && o.get( f ) ), "clearing a list lowers exactly these flags" ); }
	XOV_COVER( "end" );
}
