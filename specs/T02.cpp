// T02: timers and stopwatches, for every history of the clock.
#include "xov.h"
#include "xo/system/assert.h"
#include <chrono>
#include "xo/time/timer.cpp"
#include "xo/time/stopwatch.h"
using namespace xo;
// the clock: it starts above zero and never goes back (its step is one nanosecond)
static long now_ticks;
#ifdef XOV_SYM
static long long ticks() { long d = xov::any_int( 0, 1L << 50 ); now_ticks += d; return now_ticks; }
XOV_STUB( ticks, "xo::get_tick_count(", ticks, "" );
#endif
static void start_clock() { now_ticks = xov::any_int( 1, 1L << 55 ); }
#ifdef XOV_SYM
namespace xov { template<> struct gen<xo::time> { static xo::time make() { return xo::time( any_int( 0, 1L << 50 ) ); } }; }
// a timer in any state: running since a time in the past, or stopped with some time on it
struct state { bool running; long base; };
static timer any_timer( state& s ) { timer t( false ); s.running = xov::any_bool(); s.base = xov::any_int( 0, 1L << 56 ); if ( s.running ) { xov::assume( s.base > 0 && s.base <= now_ticks ); t.epoch_ = s.base; } else t.epoch_ = -s.base; return t; }
static long elapsed( const state& s ) { return s.running ? now_ticks - s.base : s.base; } // as of the last look at the clock
XOV_PROOF( reading ) { start_clock(); state s; timer t = any_timer( s ); XOV_COVER( "end" ); XOV_CHECK( t.is_running() == s.running && t.is_paused() == !s.running, "running or paused" ); xo::time a = t(); XOV_CHECK( a.nanoseconds() == elapsed( s ), "the time that passed while running" ); XOV_CHECK( t.tick_count() == elapsed( s ), "in ticks" ); XOV_CHECK( t() >= a, "never goes back" ); if ( !s.running ) XOV_CHECK( t() == a, "stands still when paused" ); }
XOV_PROOF( new_timer ) { start_clock(); timer t; long b = now_ticks; XOV_COVER( "end" ); XOV_CHECK( t.is_running() && t().nanoseconds() == now_ticks - b, "starts at zero, running" ); timer u( false ); XOV_CHECK( u.is_paused() && u().is_zero(), "or stopped at zero" ); }
XOV_PROOF( pausing ) { start_clock(); state s; timer t = any_timer( s ); xo::time a = t.pause(); XOV_COVER( "end" ); XOV_CHECK( a.nanoseconds() == elapsed( s ), "pausing returns the time" ); long e = elapsed( s ); XOV_CHECK( t.is_paused() && t().nanoseconds() == e && t().nanoseconds() == e, "and keeps it" ); XOV_CHECK( t.pause().nanoseconds() == e && t().nanoseconds() == e, "also when paused again" ); }
XOV_PROOF( resuming ) { start_clock(); state s; timer t = any_timer( s ); xov::assume( s.running || s.base < now_ticks ); t.resume(); long from = now_ticks, e = s.running ? from - s.base : s.base; XOV_COVER( "end" ); XOV_CHECK( t.is_running() && t().nanoseconds() == e + ( now_ticks - from ), "goes on from where it was" ); }
XOV_PROOF( restarting ) { start_clock(); state s; timer t = any_timer( s ); xo::time a = t.restart(); long b = now_ticks; XOV_COVER( "end" ); XOV_CHECK( a.nanoseconds() == elapsed( s ), "restarting returns the time so far" ); XOV_CHECK( t.is_running() && t().nanoseconds() == now_ticks - b, "and starts from zero" ); }
XOV_PROOF( setting ) { start_clock(); state s; timer t = any_timer( s ); long v = xov::any_int( 0, 1L << 50 ); xov::assume( v < now_ticks ); t.set( xo::time( v ) ); long b = now_ticks; XOV_COVER( "end" ); XOV_CHECK( t.is_running() == s.running, "as it was, running or paused" ); XOV_CHECK( t().nanoseconds() == ( s.running ? v + now_ticks - b : v ), "continues from the given time" ); }
XOV_PROOF( scoped ) { // a timer that runs within a scope only, also when left by an error
	start_clock(); timer t( false ); t.epoch_ = -xov::any_int( 0, 1L << 50 ); xov::assume( -t.epoch_ < now_ticks ); long e = -t.epoch_, b = 0; bool bad = xov::any_bool(); bool thrown = xov::thrown( [&] { scoped_timer_starter s( t ); b = now_ticks; XOV_CHECK( t.is_running(), "runs within the scope" ); if ( bad ) xo_error( "x" ); } ); XOV_COVER( "end" ); XOV_CHECK( thrown == bad && t.is_paused() && t().nanoseconds() == e + ( now_ticks - b ), "pauses at its end, keeping the time" );
}
XOV_PROOF( splits ) { // a split in any state of a stopwatch
	start_clock(); stopwatch w; w.split_times_ = xov::any_vector<xo::time>(); w.split_names_ = std::vector<string>( w.split_times_.size(), string( "a" ) ); w.current_split_ = xov::any_size(); const size_t n = w.split_times_.size(), k = w.current_split_; xov::assume( k <= n ); w.timer_.epoch_ = xov::any_int( 1, 1L << 56 ); xov::assume( w.timer_.epoch_ <= now_ticks ); long from = w.timer_.epoch_; const auto o = w.split_times_;
	w.split( "b" ); long e = now_ticks - from; XOV_COVER( "end" ); XOV_CHECK( w.size() == ( k < n ? n : n + 1 ) && w.split_names().size() == w.size() && w.current_split_ == k + 1, "a new split, or the next one again" );
	XOV_CHECK( w.split_times()[k].nanoseconds() == ( k < n ? o[k].internal_ + e : e ), "the time since the last split is added to it" ); XOV_CHECK( xov::forall( 0, long( n ), [&]( size_t i ) { return i == k || w.split_times_[i].internal_ == o[i].internal_; } ), "all others stay" ); if ( k == n ) XOV_CHECK( w.split_names()[k] == "b", "with its name" ); XOV_CHECK( w.timer_.epoch_ == now_ticks, "the next one starts here" );
}
XOV_PROOF( stopwatch_restart ) {
	start_clock(); stopwatch w; w.split_times_ = xov::any_vector<xo::time>(); w.current_split_ = xov::any_size(); const auto o = w.split_times_; const size_t n = o.size(); w.restart(); XOV_COVER( "end" ); XOV_CHECK( w.current_split_ == 0 && w.size() == n && xov::forall( 0, long( n ), [&]( size_t i ) { return w.split_times_[i].internal_ == o[i].internal_; } ), "restarting keeps the splits and starts at the first" ); XOV_CHECK( w.timer_.epoch_ == now_ticks, "from now" );
	w.current_split_ = xov::any_size(); w.clear(); XOV_CHECK( w.size() == 0 && w.split_names().empty() && w.current_split_ == 0 && w.timer_.epoch_ == now_ticks, "clearing removes them" );
}
#endif
// histories of operations on the real clock, between bounds from reading the clock before and after each operation
XOV_BOUNDED( histories ) {
	auto clock = [] { return long( std::chrono::high_resolution_clock::now().time_since_epoch().count() ); };
	long lo = 0, hi = 0, s0 = clock(); bool start = xov::any_bool(); timer t( start ); long s1 = clock(); bool running = start; // time so far, and when it last started
	XOV_CHECK( t.is_running() == running, "running at first or not" );
	int n = int( xov::any_int( 0, 4 ) ); for ( int i = 0; i < n; ++i ) {
		long a = clock(), b = 0; auto within = [&]( long v ) { b = clock(); return v >= lo + ( running && a > s1 ? a - s1 : 0 ) && v <= hi + ( running ? b - s0 : 0 ); };
		auto stop = [&] { if ( running ) { lo += a > s1 ? a - s1 : 0; hi += b - s0; } running = false; };
		switch ( xov::any_int( 0, 4 ) ) {
		case 0: XOV_CHECK( within( t.pause().nanoseconds() ), "pausing returns the time" ); stop(); break;
		case 1: t.resume(); b = clock(); if ( !running ) { running = true; s0 = a; s1 = b; } break;
		case 2: XOV_CHECK( within( t.restart().nanoseconds() ), "restarting returns the time" ); lo = hi = 0; running = true; s0 = a; s1 = b; break;
		case 3: t.set( xo::time( 1000000000 ) ); b = clock(); lo = hi = 1000000000; s0 = a; s1 = b; break;
		case 4: { scoped_timer_starter s( t ); b = clock(); if ( !running ) { running = true; s0 = a; s1 = b; } a = clock(); } b = clock(); stop(); break; }
		XOV_CHECK( t.is_running() == running, "running or not" ); a = clock(); XOV_CHECK( within( t().nanoseconds() ), "the time that passed while running" ); a = clock(); XOV_CHECK( within( t.tick_count() ), "also in ticks" );
	}
}
