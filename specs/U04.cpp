// U04: optional values and ranges of numbers.
#include "xov.h"
#include <limits>
#include "xo/system/assert.h"
#include "xo/utility/optional.h"
#include "xo/utility/irange.h"
#include "xo/utility/frange.h"
using namespace xo;
using xov::eq; using xov::le;
// a value of the optional type that is not the one that means nothing
template< class T > static T some() { if constexpr ( std::is_same_v<T, bool> ) return xov::any_bool(); else if constexpr ( std::is_floating_point_v<T> ) return T( xov::any_real() ); else if constexpr ( std::is_same_v<T, std::string> ) return xov::any_string( "a" ); else { long lo = sizeof( T ) == 8 ? long( std::numeric_limits<long>::min() / 2 ) : long( std::numeric_limits<T>::lowest() ), hi = sizeof( T ) == 8 ? std::numeric_limits<long>::max() / 2 : long( std::numeric_limits<T>::max() ); if ( std::is_unsigned_v<T> ) lo = 0; T v = T( xov::any_int( lo, hi ) ); xov::assume( v != constants<T>::sentinel() ); return v; } }
template< class T > static void optionals() {
	const T a = some<T>(), b = some<T>(); optional<T> n; XOV_COVER( "end" ); XOV_CHECK( !n && xov::thrown( [&] { (void)n.value(); } ) && n.value_or( a ) == a, "nothing at first" );
	optional<T> o( a ); XOV_CHECK( bool( o ) && *o == a && o.value() == a && o.value_or( b ) == a, "a value is there" ); n = b; XOV_CHECK( bool( n ) && n.value() == b && *n.operator->() == b, "set later" );
	XOV_CHECK( ( o == n ) == ( a == b ) && ( o != n ) == !( a == b ) && ( o == b ) == ( a == b ) && ( o != b ) == !( a == b ) && ( b == o ) == ( a == b ) && ( b != o ) == !( a == b ), "equal when the values are" );
	optional<T> z, y; XOV_CHECK( z == y && !( z != y ) && !( z == o ) && !( o == z ) && z != o && o != z && !( z == a ) && z != a, "nothing equals only nothing" );
	auto c = o; XOV_CHECK( bool( c ) && *c == a && c == o, "copied" ); c = z; XOV_CHECK( !c && bool( o ), "copied nothing" ); o.reset(); XOV_CHECK( !o && o == z && xov::thrown( [&] { (void)o.value(); } ) && o.value_or( b ) == b, "reset to nothing" ); *n = a; XOV_CHECK( n.value() == a, "written in place" );
}
XOV_PROOF( optional_int ) { optionals<int>(); }
XOV_PROOF( optional_unsigned ) { optionals<unsigned>(); }
XOV_PROOF( optional_long ) { optionals<long>(); }
XOV_PROOF( optional_char ) { optionals<signed char>(); }
XOV_PROOF( optional_bool ) { optionals<bool>(); }
XOV_PROOF( optional_string ) { optionals<std::string>(); }
XOV_BOUNDED( optional_real ) { optionals<double>(); optionals<float>(); }
// a position of a range of numbers, and one step
XOV_PROOF( whole_range ) {
	long b = xov::any_int( -( 1L << 40 ), 1L << 40 ), e = xov::any_int( -( 1L << 40 ), 1L << 40 ), v = xov::any_int( -( 1L << 40 ), 1L << 40 ); irange<long> r( b, e ); XOV_COVER( "end" ); XOV_CHECK( *r.begin() == b && *r.end() == e && r.end() - r.begin() == e - b, "from the first to (not including) the last" ); XOV_CHECK( *irange<long>( e ).begin() == 0 && *irange<long>( e ).end() == e && irange<long>().begin() == irange<long>().end(), "from zero" );
	irange<long>::iterator i( v ); XOV_CHECK( *i == v && ( i == r.begin() ) == ( v == b ) && ( i != r.begin() ) == ( v != b ), "position" ); XOV_CHECK( *( i + b ) == v + b && *i == v, "moved by an offset" ); XOV_CHECK( i++ == v && *i == v + 1 && ++i == v + 2 && *i == v + 2, "one by one" );
}
XOV_PROOF( visited ) { // any range: what a loop sees
	long b = xov::any_int( -( 1L << 40 ), 1L << 40 ), n = xov::any_int( 0, xov::sym() ? 1L << 40 : 5 ), k = 0; auto r = make_irange( b, b + n ); auto it = r.begin(), e = r.end(); XOV_HINT_OBJ( [&]( long& at ) { return at == k; } ); for ( ; it != e; ++it, ++k ) { XOV_CHECK( *it == b + k && k < n, "each number in order" ); } XOV_COVER( "end" ); XOV_CHECK( k == n, "all of them" );
}
XOV_PROOF( stepped ) {
	long b = xov::any_int( -( 1L << 30 ), 1L << 30 ), s = xov::any_int( 1, 1000 ), v = xov::any_int( -( 1L << 30 ), 1L << 30 ), n = xov::any_int( 0, 1L << 20 ); auto r = make_irange( b, b + n * s, s ); XOV_COVER( "end" ); XOV_CHECK( *r.begin() == b && *r.end() == b + n * s, "from the first to (not including) the last" ); irange_step<long>::iterator i( v, s ); XOV_CHECK( i++ == v && *i == v + s && ++i == v + 2 * s && *i == v + 2 * s, "step by step" ); auto q = make_irange( make_irange( b, v ), s ); XOV_CHECK( *q.begin() == b && *q.end() == v && ++q.begin() == b + s, "steps in a range" ); if ( n < 2 ) XOV_CHECK( r.end() - r.begin() == n, "number of steps" );
}
template< class T > static void real_range( T lo, T hi, T st, frange<T> r, bool exact ) {
	long n = long( r.max_step_ ); XOV_CHECK( r.size() == size_t( n + 1 ), "size" ); auto i = r.begin(); XOV_CHECK( eq( *i, lo ), "first" ); long k = xov::any_int( 0, xov::sym() ? 1L << 30 : 8 ); xov::assume( k <= n ); typename frange<T>::iterator at( T( k ), r.min_, r.max_, r.max_step_ ); XOV_CHECK( eq( *at, lo + ( hi - lo ) * T( k ) / T( n ) ), "evenly spaced, nothing accumulates" ); XOV_CHECK( ( at != r.end() ) && ( ( at == r.begin() ) == ( k == 0 ) ), "before the end" ); if ( k == n ) XOV_CHECK( eq( *at, hi ), "the last one too" );
	auto c = at; XOV_CHECK( c++ == T( k ) && c.step_ == T( k + 1 ) && ( ( c == r.end() ) == ( k == n ) ), "one by one" ); XOV_CHECK( ++at == T( k + 1 ) && at == c, "also before use" ); if ( exact && k < n ) { XOV_CHECK( eq( ( hi - lo ) * T( k + 1 ) / T( n ), st * T( k + 1 ) ), "lemma: the step" ); XOV_CHECK( eq( *at, lo + st * T( k + 1 ) ), "by the given step" ); };
}
XOV_PROOF( real_counted ) { double lo = xov::any_real(), hi = xov::any_real(); int n = int( xov::any_int( 2, xov::sym() ? 1000000 : 8 ) ); XOV_COVER( "end" ); frange<double> r( lo, hi, n ); XOV_CHECK( r.size() == size_t( n ), "as many as asked for" ); real_range<double>( lo, hi, 0, r, false ); }
XOV_PROOF( real_counted_bounds ) { double lo = xov::any_real(), hi = xov::any_real(); xov::assume( lo <= hi ); int n = int( xov::any_int( 2, xov::sym() ? 1000000 : 8 ) ); XOV_COVER( "end" ); frange<double> r( bounds<double>( lo, hi ), n ); XOV_CHECK( r.size() == size_t( n ), "as many as asked for" ); real_range<double>( lo, hi, 0, r, false ); }
XOV_PROOF( real_stepped ) { double lo = xov::any_real(), st = xov::any_real(); xov::assume( xov::sym() ? st != 0 : st > 0.01 || st < -0.01 ); long n = xov::any_int( 1, xov::sym() ? 1000000 : 8 ); double hi = xov::sym() ? xov::any_real() : lo + double( n ) * st; xov::assume( !xov::sym() || ( ( hi - lo ) / st == double( n ) && hi - lo == double( n ) * st ) ); /* the same thing twice */ XOV_COVER( "end" ); frange<double> r( lo, hi, st ); XOV_CHECK( r.size() == size_t( n + 1 ), "by the given step" ); real_range<double>( lo, hi, st, r, true ); }
XOV_PROOF( real_stepped_bounds ) { double lo = xov::any_real(), st = xov::any_real(); xov::assume( xov::sym() ? st > 0 : st > 0.01 ); long n = xov::any_int( 1, xov::sym() ? 1000000 : 8 ); double hi = xov::sym() ? xov::any_real() : lo + double( n ) * st; xov::assume( !xov::sym() || ( ( hi - lo ) / st == double( n ) && hi - lo == double( n ) * st ) ); /* the same thing twice */ XOV_COVER( "end" ); frange<double> r( bounds<double>( lo, hi ), st ); XOV_CHECK( r.size() == size_t( n + 1 ), "by the given step" ); real_range<double>( lo, hi, st, r, true ); }
XOV_BOUNDED( loops ) { // what the loops see
	int b = int( xov::any_int( -3, 3 ) ), n = int( xov::any_int( 0, 6 ) ), s = int( xov::any_int( 1, 4 ) ), k = 0; for ( int i : irange<int>( b, b + n ) ) XOV_CHECK( i == b + k++, "each number" ); XOV_CHECK( k == n, "all" ); k = 0; for ( int i : make_irange( b, b + n * s, s ) ) XOV_CHECK( i == b + s * k++, "each step" ); XOV_CHECK( k == n, "all steps" ); k = 0; std::vector<char> v( size_t( n ), 'a' ); for ( size_t i : size_range( v ) ) XOV_CHECK( i == size_t( k++ ), "each index" ); XOV_CHECK( k == n, "all indices" );
	double st = xov::any_int( 1, 9 ) / 10.0; k = 0; frange<double> f( b, b + n * st, st ); if ( n > 0 ) { for ( double x : f ) { XOV_CHECK( eq( x, b + k * st ), "each value" ); ++k; } XOV_CHECK( k == n + 1 && f.size() == size_t( k ), "all values" ); }
}
XOV_PROOF( optional_rest ) {
	const std::string a = some<std::string>(), b = some<std::string>(); std::string t = a; optional<std::string> o( b ); o = std::move( t ); const optional<std::string> c = o; XOV_COVER( "end" ); XOV_CHECK( bool( o ) && *o == a && c->size() == a.size() && *c == a && *c.operator->() == a, "a moved value is there" ); std::string u = b; optional<std::string> m( std::move( u ) ); XOV_CHECK( bool( m ) && m.value() == b, "constructed by move" );
	const int v = some<int>(); const optional<int> i( v ); XOV_CHECK( *i.operator->() == v && *i == v, "read through a pointer" ); const optional<bool> f( xov::any_bool() ); XOV_CHECK( f.operator->() == &*f && bool( f ), "no is a value" ); auto r = make_irange( 5 ); XOV_CHECK( *r.begin() == 0 && *r.end() == 5 && r.begin() == make_irange( 0, 5 ).begin(), "a range from zero" );
}
