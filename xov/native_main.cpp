// native driver: executes the contracts on the real code (bounded: small-scope enumeration + random), and replays
// recorded inputs.  usage: prog list | prog run <proof|*> <ms per proof> <seed> | prog replay <proof> v1 v2 ...
#include "xov.h"
#include <map>
#include <cstring>
#include <chrono>
#include <csignal>
#include <unistd.h>
#include <cstdlib>
#include <sys/time.h>
namespace xov {
	chooser ch; 
	static std::map<std::string, void ( * )()>& tab() { static std::map<std::string, void ( * )()> t; return t; }
	static std::map<std::string, int>& kinds() { static std::map<std::string, int> t; return t; }
	reg::reg( const char* n, void ( *f )(), int k ) { tab()[n] = f; kinds()[n] = k; }
	static std::map<std::string, long> covers; void cover( const char* l ) { covers[l]++; }
}
using namespace xov;
static const char* cur = "";
static void dump( const char* kind, const std::string& label ) {
	printf( "%s\t%s\t%s\t", kind, cur, label.c_str() ); for ( size_t i = 0; i < ch.log.size(); ++i ) printf( "%s%s", i ? " " : "", ch.log[i].c_str() ); printf( "\n" ); fflush( stdout );
}
static void on_sig( int s ) { dump( "FAIL", s == SIGALRM ? "does not terminate (time limit)" : s == SIGSEGV ? "memory error (SIGSEGV)" : s == SIGABRT ? "abort / sanitizer" : s == SIGFPE ? "arithmetic error (SIGFPE)" : "signal" ); _exit( 9 ); }
extern "C" void __asan_on_error() { dump( "FAIL", "memory error (sanitizer)" ); }
extern "C" const char* __asan_default_options() { return "abort_on_error=0:detect_leaks=0:exitcode=9:allocator_may_return_null=1"; }
extern "C" const char* __ubsan_default_options() { return "halt_on_error=1:exitcode=9:print_stacktrace=0"; }
static int one( void ( *f )() ) { // 0 ok 1 discard 2 violation
	ch.log.clear(); 
	try { f(); return 0; }
	catch ( discard& ) { return 1; }
	catch ( violation& v ) { dump( "FAIL", v.label ); return 2; }
	catch ( std::exception& e ) { dump( "FAIL", std::string( "unexpected exception: " ) + e.what() ); return 2; }
	catch ( ... ) { dump( "FAIL", "unexpected exception" ); return 2; }
}
static void alarm_ms( long ms ) { itimerval t{}; t.it_value.tv_sec = ms / 1000; t.it_value.tv_usec = ( ms % 1000 ) * 1000; setitimer( ITIMER_REAL, &t, nullptr ); }
int main( int argc, char** argv ) {
	for ( int s : { SIGSEGV, SIGABRT, SIGFPE, SIGALRM, SIGBUS, SIGILL } ) signal( s, on_sig );
	std::string cmd = argc > 1 ? argv[1] : "list";
	if ( cmd == "list" ) { for ( auto& t : tab() ) printf( "%s %d\n", t.first.c_str(), kinds()[t.first] ); return 0; }
	if ( cmd == "replay" ) {
		cur = argv[2]; ch.mode = 2; for ( int i = 3; i < argc; ++i ) ch.replay.push_back( argv[i] );
		auto it = tab().find( argv[2] ); if ( it == tab().end() ) { puts( "no such proof" ); return 3; }
		alarm_ms( 20000 ); int r = one( it->second ); printf( "%s\n", r == 2 ? "REPLAY-VIOLATED" : r == 1 ? "REPLAY-DISCARDED" : "REPLAY-HOLDS" ); return r == 2 ? 9 : 0;
	}
	long ms = atol( argv[3] ); unsigned long seed = strtoul( argv[4], 0, 10 ); int rc = 0;
	for ( auto& t : tab() ) {
		if ( strcmp( argv[2], "*" ) && t.first != argv[2] ) continue;
		cur = t.first.c_str(); long ok = 0, disc = 0, n = 0; bool bad = false, full = false; covers.clear();
		auto start = std::chrono::steady_clock::now(); auto el = [&] { return std::chrono::duration<double, std::milli>( std::chrono::steady_clock::now() - start ).count(); };
		ch.mode = 0; ch.odo.clear(); ch.pos = 0;
		while ( el() < ms * 0.5 ) {
			ch.pos = 0; alarm_ms( 10000 ); int r = one( t.second ); ++n; r == 0 ? ++ok : ++disc; if ( r == 2 ) { bad = true; break; }
			if ( !ch.next() ) { full = true; break; }
		}
		long nex = n;
		ch.mode = 1; ch.rng.seed( seed * 7919 + 13 );
		while ( !bad && el() < ms ) { alarm_ms( 10000 ); int r = one( t.second ); ++n; r == 0 ? ++ok : ++disc; if ( r == 2 ) bad = true; }
		alarm_ms( 0 );
		printf( "STAT\t%s\t%ld\t%ld\t%ld\t%d\t%d\t", cur, n, ok, nex, full ? 1 : 0, bad ? 1 : 0 ); for ( auto& c : covers ) printf( "%s;", c.first.c_str() ); printf( "\n" ); fflush( stdout ); if ( bad ) rc = 9;
	}
	return rc;
}
