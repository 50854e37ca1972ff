// U08: errors as values: messages, results, error codes and exceptions.
#include "xov.h"
#ifndef XOV_SYM
#include <sstream>
#endif
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/system/log.h"
#include "xo/system/error_code.cpp"
#include "xo/utility/result.h"
#include "xo/utility/pointer_types.h"
using namespace xo;
using std::string;
static string T() { return xov::any_string( "ab", 3 ); }
#ifdef XOV_SYM
static int logged; namespace xo::log { bool test_log_level( level ) { return true; } void log_string( level, const string& ) { ++logged; } void flush() {} } // one sink that counts
extern "C" { // the C++ runtime's cast, along single inheritance (its contract: the object if its class is or derives from dst)
	extern void* _ZTVN10__cxxabiv120__si_class_type_infoE[];
	__attribute__((used)) void* __dynamic_cast( const void* p, const void*, const void* dst, long ) { void** ti = static_cast<void**>( ( *static_cast<void** const*>( p ) )[-1] ); while ( ti != dst ) { if ( ti[0] != static_cast<void*>( _ZTVN10__cxxabiv120__si_class_type_infoE + 2 ) ) return nullptr; ti = static_cast<void**>( ti[2] ); } return const_cast<void*>( p ); }
}
#else
static int logged;
#include "xo/system/log_sink.h"
struct counting : log::sink { counting() : sink( log::level::error, {} ) {} void hande_log_message( log::level, const string& ) override { ++logged; } };
#endif
static bool is( const error_message& e, const string& m ) { return e.message() == m && e.good() == m.empty() && e.bad() == !m.empty(); }
XOV_PROOF( messages ) {
	const string a = T(), b = T(); error_message z, m( a ), c( a.c_str() ); XOV_COVER( "end" ); XOV_CHECK( is( z, "" ), "no message is no error" ); XOV_CHECK( is( m, a ), "an error with a message" ); error_message k( m ); XOV_CHECK( is( k, a ) && is( m, a ), "copied" ); k = b; XOV_CHECK( is( k, b ) && is( m, a ), "another message" ); z = m; XOV_CHECK( is( z, a ), "assigned" ); error_message v( std::move( m ) ); XOV_CHECK( is( v, a ), "moved" ); v = error_message( b ); XOV_CHECK( is( v, b ), "moved later" ); v = string( a ) + "x"; XOV_CHECK( is( v, a + "x" ), "a temporary" ); v = "y"; XOV_CHECK( is( v, "y" ), "plain text" );
}
XOV_PROOF( appended ) { const string a = T(), b = T(); error_message m( a ); m.append( b ); XOV_COVER( "end" ); XOV_CHECK( is( m, a.empty() ? b : a + "\n" + b ), "one message per line" ); }
XOV_PROOF( results ) {
	const long v = xov::any_int( -1000, 1000 ), w = xov::any_int( -1000, 1000 ); const string a = T(); xov::assume( !a.empty() ); using R = result<long>; R r( v ), e{ error_message( a ) }, z; XOV_COVER( "end" ); XOV_CHECK( r && r.has_value() && r.value() == v && r.error().good(), "a value and no error" ); XOV_CHECK( !e && !e.has_value() && is( e.error(), a ), "an error and no value" ); XOV_CHECK( z && z.value() == 0, "the default value" );
	R c( e ), d( r ); XOV_CHECK( !c && is( c.error(), a ) && d && d.value() == v, "copied" ); c = w; XOV_CHECK( c && c.value() == w && c.error().good(), "a value replaces the error" ); d = error_message( a ); XOV_CHECK( !d && is( d.error(), a ), "an error replaces the value" ); const long u = v; d = u; XOV_CHECK( d && d.value() == v, "and back" ); const error_message q( a ); d = q; XOV_CHECK( !d && is( d.error(), a ), "a kept error" ); d = r; XOV_CHECK( d && d.value() == v, "another result" ); d = e; XOV_CHECK( !d && is( d.error(), a ), "a failed one" ); R m( std::move( e ) ); XOV_CHECK( !m && is( m.error(), a ), "moved" ); m = R( w ); XOV_CHECK( m && m.value() == w, "moved into" );
}
XOV_PROOF( text_results ) { // values and errors of different text types stay apart
	const string a = T(), b = T(); xov::assume( !b.empty() ); result<string> r( a ), e{ error_message( b ) }; XOV_COVER( "end" ); XOV_CHECK( r && r.value() == a && !e && e.error().message() == b && e.value().empty(), "value or error" ); e = a; XOV_CHECK( e && e.value() == a && e.error().good(), "a value replaces the error" ); r = error_message( b ); XOV_CHECK( !r && r.error().message() == b, "an error replaces the value" );
}
XOV_PROOF( codes ) {
	const int c = xov::any_i32(), d = xov::any_i32(); const string a = T(); error_code e, f( c, a ); XOV_COVER( "end" ); XOV_CHECK( e.good() && !e.bad() && e.code() == 0 && e.message().empty(), "good at first" ); XOV_CHECK( f.good() == ( c == 0 ) && f.bad() == ( c != 0 ) && f.code() == c && f.message() == a, "code and message" ); error_code& g = e.set( d, a ); XOV_CHECK( &g == &e && e.code() == d && e.bad() == ( d != 0 ) && e.message() == a, "set" ); e.set( 0 ); XOV_CHECK( e.good() && e.message().empty(), "cleared" );
}
XOV_PROOF( set_or_throw ) {
#ifndef XOV_SYM
	static counting counter;
#endif
	const string a = T(); error_code e; bool with = xov::any_bool(); int n = logged; XOV_COVER( "end" ); XOV_CHECK( xov::thrown( [&] { set_error_or_throw( with ? &e : nullptr, a ); } ) == !with, "thrown exactly without error code" ); XOV_CHECK( with ? e.bad() && e.message() == a : e.good(), "set with one" ); XOV_CHECK( logged == n + 1, "and logged once" );
	error_code f; XOV_CHECK( try_set_error( with ? &f : nullptr, a ) == with && f.bad() == with && f.message() == ( with ? a : string() ), "or only set" ); XOV_CHECK( logged == n + 2, "logged once too" );
}
XOV_PROOF( macros ) {
	bool c = xov::any_bool(); const string a = T(); string what; bool t = false; try { xo_error_if( c, a ); } catch ( std::runtime_error& e ) { t = true; what = e.what(); } XOV_COVER( "end" ); XOV_CHECK( t == c && ( !t || what == a.c_str() ), "an error exactly when the condition holds, with its message" ); t = false; try { xo_error( a ); } catch ( std::exception& e ) { t = true; what = e.what(); } XOV_CHECK( t && what == a.c_str(), "always" );
	XOV_CHECK( xov::thrown( [&] { xo_assert( !c ); } ) == c && xov::thrown( [&] { xo_assert_msg( !c, a ); } ) == c, "an assertion that fails" ); int v = int( xov::any_int( -9, 9 ) ), lo = int( xov::any_int( -9, 9 ) ), hi = int( xov::any_int( -9, 9 ) ); XOV_CHECK( xov::thrown( [&] { xo_range_assert( v, lo, hi ); } ) == ( v < lo || v > hi ), "a value out of range" );
}
// ownership of objects by pointers to a base class
static int alive; struct base { base() { ++alive; } virtual ~base() { --alive; } }; struct derived : base { int v = 7; }; struct other : base {};
XOV_PROOF( casts ) {
	alive = 0; bool d = xov::any_bool(); u_ptr<base> p( d ? static_cast<base*>( new derived ) : new other ); base* was = p.get(); { auto q = try_dynamic_unique_cast<derived>( p ); XOV_COVER( "end" ); XOV_CHECK( alive == 1 && bool( q ) == d && bool( p ) == !d, "the ownership goes to exactly one" ); XOV_CHECK( d ? q.get() == was && q->v == 7 : p.get() == was, "of the same object" ); } XOV_CHECK( alive == ( d ? 0 : 1 ), "which then ends with it" );
	u_ptr<base> r( d ? static_cast<base*>( new derived ) : new other ); p.reset(); { auto q = dynamic_unique_cast<derived>( std::move( r ) ); XOV_CHECK( bool( q ) == d && !r && alive == ( d ? 1 : 0 ), "or is deleted if it is of another type" ); } XOV_CHECK( alive == 0, "nothing is left" ); u_ptr<base> nil; XOV_CHECK( !try_dynamic_unique_cast<derived>( nil ) && !dynamic_unique_cast<derived>( std::move( nil ) ), "nothing stays nothing" );
}
XOV_PROOF( moved_results ) {
	const string a = T(), b = T(); xov::assume( !b.empty() ); string t = a; result<string> r( std::move( t ) ); XOV_COVER( "end" ); XOV_CHECK( r && r.value() == a && r.error().good(), "a moved value" ); const error_message m( b ); result<string> e( m ); XOV_CHECK( !e && !e.has_value() && e.error().message() == b && e.value().empty() && m.message() == b, "an error" );
	string u = a; e = std::move( u ); XOV_CHECK( e && e.value() == a && e.error().good(), "a moved value replaces the error" ); error_message n( b ); e = std::move( n ); XOV_CHECK( !e && e.error().message() == b, "a moved error makes it an error" ); result<string> k( std::move( e ) ); XOV_CHECK( !k && k.error().message() == b, "moved as a whole" ); string w = b; error_message x( std::move( w ) ); XOV_CHECK( is( x, b ), "a message from moved text" );
}
