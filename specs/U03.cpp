#define XOV_CONCRETE
// U03: results that are kept: memoized functions, cached values and files kept in memory.
#include "xov.h"
#include <map>
#include <tuple>
#include <stdexcept>
#include "xo/system/assert.h"
#include "xo/utility/memoize.h"
#include "xo/utility/cached_var.h"
#include "xo/filesystem/path.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.h"
#include "xo/utility/file_resource_cache.h"
using namespace xo;
using std::string;
// a function known by its calls: any value per argument and call, or an exception
static int calls, threw; static long last_a, last_b, last_value; static bool fails;
static long called( long a, long b ) { ++calls; last_a = a; last_b = b; if ( fails ) throw std::runtime_error( "f" ); return last_value = xov::any_int( -1000, 1000 ); }
// remembers, per argument, what was returned first
template< typename M, size_t N > static void memo() {
	XOV_OPT( "force_unroll", 1 ); calls = 0; M m( []( long a ) { return called( a, 0 ); } ); long arg[N], val[N]; bool has[N]; size_t distinct = 0; XOV_CHECK( m.size() == 0, "empty at first" );
	for ( size_t i = 0; i < N; ++i ) {
		long a = arg[i] = xov::any_int( -2, 2 ); fails = xov::any_bool(); int before = calls; long known = -1; for ( size_t k = i; k-- > 0; ) if ( has[k] && arg[k] == a ) known = long( k ); long r = 0; const long* at = nullptr; bool t = xov::thrown( [&] { at = &m( a ); r = *at; } ); has[i] = !t;
		if ( known >= 0 ) XOV_CHECK( !t && r == val[known] && calls == before, "a known argument gives its value without a call" ); else { XOV_CHECK( calls == before + 1 && last_a == a, "a new argument is one call with it" ); XOV_CHECK( t == fails && ( t || r == last_value ), "which gives the value or the exception" ); if ( !t ) ++distinct; }
		val[i] = r; XOV_CHECK( m.size() == distinct, "one entry per argument that was answered" );
	}
	XOV_COVER( "end" );
}
XOV_PROOF( memoized1 ) { memo<memoize<long( long )>, 1>(); }
XOV_PROOF( memoized2 ) { memo<memoize<long( long )>, 2>(); }
XOV_PROOF( memoized3 ) { memo<memoize<long( long )>, 3>(); }
XOV_PROOF( memoized4 ) { memo<memoize<long( long )>, 4>(); }
XOV_PROOF( shared1 ) { memo<memoize_thread_safe<long( long )>, 1>(); }
XOV_PROOF( shared2 ) { memo<memoize_thread_safe<long( long )>, 2>(); }
XOV_PROOF( shared3 ) { memo<memoize_thread_safe<long( long )>, 3>(); }
template< typename M > static void memo2() { // two arguments: both count, in their order
	calls = 0; fails = false; M m( []( long a, long b ) { return called( a, b ); } ); long a = xov::any_int( -2, 2 ), b = xov::any_int( -2, 2 ), c = xov::any_int( -2, 2 ), d = xov::any_int( -2, 2 ); long r = m( a, b ); XOV_COVER( "end" ); XOV_CHECK( calls == 1 && r == last_value && last_a == a && last_b == b, "called with the arguments" ); long q = m( c, d ); bool same = a == c && b == d; XOV_CHECK( calls == ( same ? 1 : 2 ) && ( same ? q == r : q == last_value && last_a == c && last_b == d ), "once per pair of arguments" ); XOV_CHECK( m( a, b ) == r && m( c, d ) == q && calls == ( same ? 1 : 2 ), "and remembered" );
}
XOV_PROOF( pairs ) { memo2<memoize<long( long, long )>>(); }
XOV_PROOF( shared_pairs ) { memo2<memoize_thread_safe<long( long, long )>>(); }
XOV_PROOF( cached ) {
	XOV_OPT( "force_unroll", 1 ); XOV_OPT( "paths", 2000 ); long t = xov::any_i32(), v = xov::any_i32(); cached_var<long, long> c( t, v ); calls = 0; const size_t N = 3; for ( size_t i = 0; i < N; ++i ) { long u = xov::any_int( -2, 2 ), w = xov::any_i32(); bool fail = xov::any_bool(); int n = 0; long r = 0; bool th = xov::thrown( [&] { r = c( u, [&]() -> long { ++n; if ( fail ) throw std::runtime_error( "f" ); return w; } ); } ); XOV_CHECK( n == ( u != t ), "computed exactly when the time is another one" ); XOV_CHECK( th == ( fail && u != t ), "an exception only of the computation" ); if ( u != t && !th ) { t = u; v = w; } XOV_CHECK( th || r == v, "the value of that time" ); } XOV_COVER( "end" );
}
// files: the content and times are known only here
struct item { long v; long tag; explicit item( long x ) : v( x ), tag( 0 ) {} };
static long now_, mtime[2], content[2]; static bool exists_[2], broken[2]; static int loads[2], clones, alive;
static size_t which( const path& p ) { return p.str() == "b" ? 1 : 0; }
namespace xo { bool file_exists( const path& p ) { return exists_[which( p )]; } time_t last_write_time( const path& p ) { return mtime[which( p )]; }
#ifdef XOV_SYM
	string to_str( const path& p ) { return p.str(); }
#endif
}
#ifdef XOV_SYM
extern "C" time_t time( time_t* t ) noexcept { return now_; }
extern "C" double difftime( time_t a, time_t b ) noexcept { return double( a - b ); }
#else
extern "C" time_t time( time_t* t ) noexcept { return now_; }
#endif
static item* load_item( const path& p ) { size_t w = which( p ); ++loads[w]; if ( broken[w] ) throw std::runtime_error( "broken" ); return new item( content[w] ); }
static item* clone_item( const item& i ) { ++clones; return new item( i.v ); }
template< size_t P, size_t N > static void files() {
	XOV_OPT( "force_unroll", 1 ); XOV_OPT( "paths", 2000 ); now_ = xov::any_int( 100, 200 ); loads[0] = loads[1] = 0; clones = 0; file_resource_cache<item, path> c( load_item, clone_item ); struct kept { bool has = false; long v = 0, mt = 0, checked = 0; } k[2]; u_ptr<item> older; long older_v = 0;
	for ( size_t i = 0; i < N; ++i ) {
		size_t w = P > 1 && xov::any_bool() ? 1 : 0; now_ += xov::any_int( 0, 5 ); if ( i == 0 || xov::any_bool() ) { mtime[w] = xov::any_int( 0, 3 ); content[w] = xov::any_int( 0, 99 ); } broken[w] = xov::any_bool(); exists_[w] = k[w].has || xov::any_bool(); int l = loads[w], o = loads[1 - w], n = clones; kept& q = k[w];
		bool check = q.has && now_ - q.checked > 3, reload = q.has ? check && mtime[w] != q.mt : exists_[w]; bool fail = q.has ? reload && broken[w] : !exists_[w] || broken[w]; u_ptr<item> r; bool t = xov::thrown( [&] { r = c( path( w ? "b" : "a" ) ); } );
		XOV_CHECK( loads[w] == l + ( reload ? 1 : 0 ) && loads[1 - w] == o, "loaded exactly when new, or changed since and not checked in the last three seconds" ); XOV_CHECK( t == fail, "refused exactly when it is missing or cannot be read" ); if ( check ) q.checked = now_; if ( reload && !fail ) { if ( !q.has ) q.checked = now_; q.has = true; q.v = content[w]; q.mt = mtime[w]; }
		if ( !t ) { XOV_CHECK( r && r->v == q.v && r->tag == 0 && clones == n + 1, "a copy of the content last loaded" ); XOV_CHECK( !older || ( older.get() != r.get() && older->tag == 5 ), "of its own" ); r->v = -1; r->tag = 5; older = std::move( r ); } else XOV_CHECK( clones == n, "no copy if refused" );
	}
	XOV_COVER( "end" );
}
XOV_PROOF( file1 ) { files<1, 1>(); }
XOV_PROOF( file2 ) { files<1, 2>(); }
XOV_PROOF( file3 ) { files<1, 3>(); }
XOV_PROOF( file_two ) { files<2, 2>(); }
XOV_BOUNDED( file_many ) { files<2, 7>(); }
