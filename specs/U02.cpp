#define XOV_CONCRETE
// U02: factories: types registered under names are created by these names, while they are registered.
#include "xov.h"
#include "xo/system/assert.h"
#include "xo/string/string_tools.h"
#include "xo/container/prop_node.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/utility/factory.h"
using namespace xo;
using std::string;
static int alive;
struct thing { long a = 0; int kind; explicit thing( long x, int k ) : a( x ), kind( k ) { ++alive; } virtual ~thing() { --alive; } };
struct red : thing { explicit red( long x ) : thing( x, 1 ) {} };
struct blue : thing { explicit blue( long x ) : thing( x, 2 ) {} };
using things = factory<thing, long>;
static string K() { return xov::any_string( "ab", 2 ); }
// a model: which kind is registered under each name used
template< size_t N > struct model { string n[N]; int k[N] = {}; size_t size = 0; int at( const string& x ) const { for ( size_t i = 0; i < size; ++i ) if ( n[i] == x && k[i] ) return k[i]; return 0; } void set( const string& x, int v ) { for ( size_t i = 0; i < size; ++i ) if ( n[i] == x ) { k[i] = v; return; } n[size] = x; k[size++] = v; } bool none() const { for ( size_t i = 0; i < size; ++i ) if ( k[i] ) return false; return true; } };
static void same( things& f, int kind, const string& x ) {
	long a = xov::any_int( -9, 9 ); int before = alive; XOV_CHECK( f.has_type( x ) == ( kind != 0 ), "known exactly while registered" );
	{ u_ptr<thing> p = f.try_create( x, a ), q; bool t = xov::thrown( [&] { q = f.create( x, a ); } ); XOV_CHECK( bool( p ) == ( kind != 0 ) && t == ( kind == 0 ) && bool( q ) == bool( p ), "created exactly if registered, refused otherwise" ); if ( kind != 0 ) XOV_CHECK( p->kind == kind && q->kind == kind && p->a == a && q->a == a && p.get() != q.get(), "a new object of the registered type with the arguments" ); XOV_CHECK( alive == before + ( kind != 0 ? 2 : 0 ), "nothing else is created" ); }
	XOV_CHECK( alive == before, "the objects belong to the caller" );
}
template< size_t N > static void registry() {
	XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strrank", 1 ); XOV_OPT( "paths", 2000 ); alive = 0; things f; model<N> m; XOV_CHECK( f.empty(), "empty at first" );
	for ( size_t i = 0; i < N; ++i ) {
		string x = K(); int k = m.at( x ), o = int( xov::any_int( 0, 2 ) ); bool t = xov::thrown( [&] { if ( o == 0 ) f.unregister_type( x ); else if ( o == 1 ) f.register_type<red>( x ); else f.register_type<blue>( x ); } );
		XOV_CHECK( t == ( ( o == 0 ) == ( k == 0 ) ), "a name is registered once, and only what is registered is unregistered" ); if ( !t ) m.set( x, o ); XOV_CHECK( f.empty() == m.none(), "empty without types" ); XOV_CHECK( f.has_type( x ) == ( t ? k != 0 : o != 0 ), "an attempt that is refused changes nothing" );
	}
	const string y = K(); XOV_COVER( "end" ); same( f, m.at( y ), y );
}
XOV_PROOF( registry0 ) { registry<0 + 1>(); }
XOV_PROOF( registry2 ) { registry<2>(); }
XOV_BOUNDED( registry3 ) { registry<3>(); }
XOV_BOUNDED( registry5 ) { registry<5>(); }
XOV_PROOF( scoped ) { // a registrant keeps a name registered during its lifetime
	XOV_OPT( "strrank", 1 ); XOV_OPT( "force_unroll", 1 );
	things f; const string x = K(), y = K(); { auto r = make_factory_registrant<red>( f, x ); same( f, 1, x ); bool t = xov::thrown( [&] { factory_registrant<things, blue> q( f, y ); same( f, 2, y ); XOV_CHECK( f.has_type( x ), "both" ); } ); XOV_COVER( "end" ); XOV_CHECK( t == ( x == y ), "a name that is taken is refused" ); same( f, 1, x ); XOV_CHECK( f.has_type( y ) == ( x == y ), "only as long as it lives" ); } XOV_CHECK( f.empty(), "and no longer" );
}
template< size_t N > static void node() { XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strrank", 1 ); things f; const string x = K(), y = K(); f.register_type<red>( x ); if ( y != x ) f.register_type<blue>( y ); prop_node pn; string k[N + 1]; size_t j = N; for ( size_t i = 0; i < N; ++i ) { k[i] = K(); pn.add_child( k[i] ); if ( j == N && ( k[i] == x || k[i] == y ) ) j = i; } auto it = find_factory_prop_node( f, pn ); XOV_COVER( "end" ); XOV_CHECK( size_t( it - pn.begin() ) == j, "the first child with a registered name, or none" ); }
XOV_PROOF( node0 ) { node<0>(); }
XOV_PROOF( node1 ) { node<1>(); }
XOV_PROOF( node2 ) { node<2>(); }
XOV_BOUNDED( node4 ) { node<4>(); }
