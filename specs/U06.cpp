#define XOV_CONCRETE
// U06: log messages reach exactly the sinks that want them.
#include "xov.h"
#ifndef XOV_SYM
#include <thread>
#include <sstream>
#include <iostream>
#include <fstream>
#include <filesystem>
#include <unistd.h>
#endif
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/system/log.cpp"
#include "xo/system/log_sink.cpp"
using namespace xo;
using std::string; using log::level;
static level any_level( int lo = 0, int hi = 7 ) { return level( int( xov::any_int( lo, hi ) ) ); }
struct record : log::sink { int n = 0, flushed = 0, seq = 0; level last = level::always; string text; static int& clock() { static int c = 0; return c; } record( level l, log::sink_mode m = log::sink_mode::all_threads ) : sink( l, {}, m ) {} void hande_log_message( level l, const string& s ) override { ++n; last = l; text = s; seq = ++clock(); } void flush() override { ++flushed; } };
// no mutex stays locked
static bool unlocked() {
#ifdef XOV_SYM
	return !log::global_sink_mutex.writer_ && log::global_sink_mutex.readers_ == 0;
#else
	return log::global_sink_mutex.try_lock() ? ( log::global_sink_mutex.unlock(), true ) : false;
#endif
}
static bool got( const record& r, level l, const string& s, int n = 1 ) { return r.n == n && ( n == 0 || ( r.last == l && r.text == s ) ); }
template< int N > static void delivered() { // each message, whatever its level and that of the sinks
	level ls[4] = { level::always, level::always, level::always, level::always }; for ( int i = 0; i < N; ++i ) ls[i] = any_level(); level l = any_level(); const string a = xov::any_string( "ab", 1 ), b = xov::any_string( "ab", 1 );
	{
		record r0( ls[0] ), r1( N > 1 ? ls[1] : level::never ), r2( N > 2 ? ls[2] : level::never ); record* r[] = { &r0, &r1, &r2 }; if ( N < 3 ) log::remove_sink( &r2 ); if ( N < 2 ) log::remove_sink( &r1 ); bool any = false; for ( int i = 0; i < N; ++i ) any |= l >= ls[i];
		XOV_CHECK( log::test_log_level( l ) == any, "a level is wanted if a sink wants it" ); log::message( l, a, "-", b ); XOV_COVER( "end" ); for ( int i = 0; i < N; ++i ) XOV_CHECK( got( *r[i], l, a + "-" + b, l >= ls[i] ), "the whole message once, to the sinks at or below its level" ); for ( int i = N; i < 3; ++i ) XOV_CHECK( r[i]->n == 0, "not to others" ); log::log_string( l, a ); for ( int i = 0; i < N; ++i ) XOV_CHECK( l < ls[i] ? r[i]->n == 0 : got( *r[i], l, a, 2 ), "also directly" ); XOV_CHECK( unlocked(), "no lock is left" );
	}
	XOV_CHECK( log::global_sinks.empty() && !log::test_log_level( level::critical ) && log::global_lowest_log_level == level::never, "sinks that are gone do not count" ); log::message( l, a );
}
XOV_PROOF( delivered_1 ) { delivered<1>(); }
XOV_PROOF( delivered_2 ) { delivered<2>(); }
XOV_PROOF( delivered_3 ) { delivered<3>(); }
XOV_PROOF( no_sinks ) { level l = any_level( 0, 6 ); XOV_COVER( "end" ); XOV_CHECK( !log::test_log_level( l ), "nobody listens" ); log::message( l, "a" ); log::error( "a" ); log::flush(); XOV_CHECK( unlocked(), "no lock is left" ); XOV_CHECK( xov::thrown( [] { log::add_sink( nullptr ); } ), "no sink is no sink" ); }
XOV_PROOF( named_levels ) { // each function has its level, and the severe ones flush
	level w = any_level(); record r( w ); int k = int( xov::any_int( 1, 6 ) ); const string t = xov::any_string( "ab", 1 ); switch ( k ) { case 1: log::trace( t ); break; case 2: log::debug( t ); break; case 3: log::info( t ); break; case 4: log::warning( t ); break; case 5: log::error( t ); break; default: log::critical( t ); } XOV_COVER( "end" ); XOV_CHECK( got( r, level( k ), t, level( k ) >= w ), "delivered at the level of its name" ); XOV_CHECK( r.flushed == ( k >= 5 ), "errors are flushed at once" );
}
XOV_PROOF( changed_level ) {
	level a = any_level(), b = any_level(), c = any_level(), l = any_level( 1, 6 ); record r( a ), s( b ); r.set_log_level( c ); XOV_COVER( "end" ); XOV_CHECK( r.get_log_level() == c && log::global_sinks.size() == 2, "a changed level, the same sinks" ); XOV_CHECK( log::test_log_level( l ) == ( l >= c || l >= b ), "counts at once" ); log::message( l, "x" ); XOV_CHECK( r.n == ( l >= c ) && s.n == ( l >= b ), "for what is delivered" );
}
XOV_PROOF( added_and_removed ) {
	level a = any_level(), b = any_level(), l = any_level(); record r( a ), s( b ); log::add_sink( &r ); log::add_sink( &s ); log::message( l, "x" ); XOV_COVER( "end" ); XOV_CHECK( r.n == ( l >= a ) && s.n == ( l >= b ), "added twice, delivered once" ); bool first = xov::any_bool(); record &gone = first ? r : s, &kept = first ? s : r; int n = kept.n, g = gone.n; level w = first ? b : a; log::remove_sink( &gone ); log::remove_sink( &gone ); XOV_CHECK( log::test_log_level( l ) == ( l >= w ), "levels without the removed one" ); log::message( l, "y" ); XOV_CHECK( gone.n == g && kept.n == n + ( l >= w ), "removed, no longer delivered" ); log::flush(); XOV_CHECK( kept.flushed == 1 && gone.flushed == 0, "nor flushed" ); log::add_sink( &gone ); log::message( l, "z" ); XOV_CHECK( gone.n == g + ( l >= ( first ? a : b ) ), "and back" ); XOV_CHECK( unlocked(), "no lock is left" );
}
#ifdef XOV_SYM
XOV_PROOF( threads ) { // a sink for one thread only
	long here = xov::any_int( 0, 3 ), there = xov::any_int( 0, 3 ); level a = any_level(), l = any_level(); std::this_thread::xov_current = here; record r( a, log::sink_mode::current_thread ), s( a ); std::this_thread::xov_current = there; bool want = l >= a && here == there; XOV_COVER( "end" ); XOV_CHECK( r.test_log_level( l ) == want && s.test_log_level( l ) == ( l >= a ), "wanted on its own thread" ); log::message( l, "x" ); XOV_CHECK( r.n == want && s.n == ( l >= a ), "delivered on its own thread" ); s.set_sink_mode( log::sink_mode::current_thread ); std::this_thread::xov_current = here; XOV_CHECK( s.test_log_level( l ) == want, "the thread that sets the mode" ); r.set_sink_mode( log::sink_mode::all_threads ); std::this_thread::xov_current = there; XOV_CHECK( r.test_log_level( l ) == ( l >= a ), "or all threads" );
}
#else
XOV_BOUNDED( threads_native ) { level a = any_level( 1, 6 ), l = any_level( 1, 6 ); bool own = xov::any_bool(); record r( a, own ? log::sink_mode::current_thread : log::sink_mode::all_threads ); std::thread( [&] { log::message( l, "x" ); } ).join(); XOV_CHECK( r.n == ( l >= a && !own ), "from another thread" ); log::message( l, "x" ); XOV_CHECK( r.n == ( l >= a ) * ( own ? 1 : 2 ), "from its own" ); }
XOV_BOUNDED( formatted ) { // printf style
	level w = any_level( 0, 7 ); int v = int( xov::any_int( -3, 300 ) ); string t = xov::any_string( "ab%", 3 ), e = std::to_string( v ) + "|" + t; record r( w ); int k = int( xov::any_int( 0, 6 ) ); switch ( k ) { case 0: log::messagef( level::always, "%d|%s", v, t.c_str() ); break; case 1: log::tracef( "%d|%s", v, t.c_str() ); break; case 2: log::debugf( "%d|%s", v, t.c_str() ); break; case 3: log::infof( "%d|%s", v, t.c_str() ); break; case 4: log::warningf( "%d|%s", v, t.c_str() ); break; case 5: log::errorf( "%d|%s", v, t.c_str() ); break; default: log::criticalf( "%d|%s", v, t.c_str() ); } XOV_CHECK( got( r, level( k ), e, level( k ) >= w ) && r.flushed == ( k >= 5 ), "the formatted text at its level" );
}
XOV_BOUNDED( mixed ) { record r( level::info ); int v = int( xov::any_int( -9, 9 ) ); bool b = xov::any_bool(); double d = xov::any_int( -9, 9 ) / 4.0; string s = xov::any_string( "ab\n", 2 ); log::info( "v=", v, ' ' == 32 ? "" : "", b, s, d, 7u, 8l ); char t[64]; snprintf( t, 64, "%g", d ); XOV_CHECK( r.n == 1 && r.text == "v=" + std::to_string( v ) + ( b ? "1" : "0" ) + s + t + "78", "all parts as text, in order" ); }
XOV_BOUNDED( streams ) { std::ostringstream o; level w = any_level( 0, 7 ), l = any_level( 0, 6 ); string s = xov::any_string( "ab ", 3 ); { log::stream_sink k( o, w ); log::message( l, s ); } string r = o.str(); XOV_CHECK( l >= w ? r.size() == 9 + s.size() + 1 && r[2] == ':' && r[5] == ':' && r.substr( 9 ) == s + "\n" : r.empty(), "time, message and line end in the stream" ); }
static bool is_time( const string& s ) { return s.size() == 9 && isdigit( s[0] ) && isdigit( s[1] ) && s[2] == ':' && isdigit( s[3] ) && isdigit( s[4] ) && s[5] == ':' && isdigit( s[6] ) && isdigit( s[7] ) && s[8] == ' '; }
static std::vector< string > lines_of( const string& s, const char* ends ) { std::vector< string > r; string l; for ( char c : s ) if ( strchr( ends, c ) ) { if ( !l.empty() ) r.push_back( l ); l.clear(); } else l += c; if ( !l.empty() ) r.push_back( l ); return r; }
XOV_BOUNDED( console ) { // each line of a message, with what is asked before it
	std::ostringstream o; auto* b = std::cout.rdbuf( o.rdbuf() ); level w = any_level( 0, 7 ), l = any_level( 0, 6 ); bool t = xov::any_bool(), v = xov::any_bool(), own = xov::any_bool(), there = xov::any_bool(); string s = xov::any_string( "ab \r\n", 5 ); { log::console_sink k( w, own ? log::sink_mode::current_thread : log::sink_mode::all_threads ); k.format().set( log::format::show_time, t ); if ( v ) k.format().set( log::format::show_level ); if ( there ) std::thread( [&] { log::message( l, s ); } ).join(); else log::message( l, s ); } std::cout.rdbuf( b );
	auto r = lines_of( o.str(), "\n" ), e = lines_of( s, "\r\n" ); if ( l < w || ( own && there ) ) { XOV_CHECK( o.str().empty(), "nothing below the level or from another thread" ); return; } XOV_CHECK( r.size() == e.size(), "each line once" );
	for ( size_t i = 0; i < e.size(); ++i ) { string m = r[i]; if ( t ) { XOV_CHECK( is_time( m.substr( 0, 9 ) ), "the time" ); m = m.substr( 9 ); } if ( v ) { string n = log::level_names_short[int( l )]; XOV_CHECK( m.substr( 0, n.size() + 1 ) == n + " ", "the level" ); m = m.substr( n.size() + 1 ); } XOV_CHECK( m == e[i], "the line itself" ); }
}
XOV_BOUNDED( file ) { // all wanted messages, in order, in a new file
	char tmp[] = "/tmp/xovlogXXXXXX"; const string dir = mkdtemp( tmp ); level w = any_level( 0, 7 ); string sub = xov::any_bool() ? "/a/b" : "", f = dir + sub + "/log.txt"; std::vector< string > e; string c; { log::file_sink k( f, w ); XOV_CHECK( k.file_stream().good(), "a file" ); int m = int( xov::any_int( 0, 4 ) ); for ( int i = 0; i < m; ++i ) { level l = any_level( 0, 6 ); string s = xov::any_string( "ab", 3 ); log::message( l, s ); if ( l >= w ) e.push_back( s ); } log::flush(); std::ifstream i( f ); c.assign( std::istreambuf_iterator< char >( i ), std::istreambuf_iterator< char >() ); } log::critical( "late" );
	std::filesystem::remove_all( dir ); auto r = lines_of( c, "\n" ); XOV_CHECK( r.size() == e.size(), "each message a line" ); for ( size_t i = 0; i < e.size(); ++i ) XOV_CHECK( is_time( r[i].substr( 0, 9 ) ) && r[i].substr( 9 ) == e[i], "with its time, in order" );
}
#endif
