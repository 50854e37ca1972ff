// xov.h: contract language shared by the deductive verifier (XOV_SYM: compiled to LLVM IR and proved for all
// inputs) and the native replay/bounded build (same contracts, executed on the real code with real libstdc++).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>
#include <utility>

#ifdef XOV_SYM
extern "C" {
	long __xov_in_int( long lo, long hi ); bool __xov_in_bool(); unsigned long __xov_in_bits(); double __xov_in_real(); unsigned _BitInt(96) __xov_in_str();
	unsigned _BitInt(97) __xov_any_any();
	void __xov_assume( bool ); void __xov_check( bool, const char* ); void __xov_require( bool, const char* ); void __xov_cover( const char* );
	bool __xov_forall( long lo, long hi, const void*, bool ( * )( const void*, long ) );
	bool __xov_exists( long lo, long hi, const void*, bool ( * )( const void*, long ) );
	void __xov_hint( const void*, const void* fn, int na ); void __xov_hint_obj( const void*, const void* fn, int na, const void* wit ); void __xov_unhint();
	void __xov_opt( const char*, long ); void __xov_note( const char* );
	long __xov_ufi( const char*, ... );
	double __xov_uf_f( double ); double __xov_uf_g( double );
	bool __xov_thrown_marker();
}
#define XOV_PROOF( name ) extern "C" __attribute__((used)) void xovproof_##name()
namespace xov {
	inline bool sym() { return true; }
	inline long any_int( long lo, long hi ) { return __xov_in_int( lo, hi ); }
	inline int any_i32() { return int( __xov_in_int( -2147483647L - 1, 2147483647L ) ); }
	inline unsigned any_u32() { return unsigned( __xov_in_int( 0, 4294967295L ) ); }
	inline unsigned long any_bits() { return __xov_in_bits(); }
	inline size_t any_size( size_t native_max = 4 ) { return size_t( __xov_in_int( 0, 1L << 40 ) ); }
	inline bool any_bool() { return __xov_in_bool(); }
	inline char any_char( const char* alphabet = nullptr ) { return char( __xov_in_int( -128, 127 ) ); }
	inline double any_real() { return __xov_in_real(); }
	inline void assume( bool b ) { __xov_assume( b ); }
	template< class F > bool forall( long lo, long hi, const F& f ) { return __xov_forall( lo, hi, &f, []( const void* c, long i ) -> bool { return ( *(const F*)c )( size_t( i ) ); } ); }
	template< class F > bool exists( long lo, long hi, const F& f ) { return __xov_exists( lo, hi, &f, []( const void* c, long i ) -> bool { return ( *(const F*)c )( size_t( i ) ); } ); }
	template< class T > struct gen;
	template< class F > bool thrown( const F& f ) { try { f(); return false; } catch ( ... ) { return true; } }
	template< class F, class R, class... A > void hint_( const F& f, R( F::* )( A... ) const ) {
		__xov_hint( &f, (const void*)+[]( const void* c, A... a ) -> bool { return ( *(const F*)c )( a... ); }, int( ( 0 + ... + ( std::is_floating_point<A>::value ? 10 : 1 ) ) ) );
	}
	template< class O > union wit_ { O o; wit_() {} ~wit_() {} };
	template< class F, class R, class O, class... A > void hint_obj_( const F& f, R( F::* )( O&, A... ) const ) {
		wit_<O> wit; __xov_hint_obj( &f, (const void*)+[]( const void* c, O* o, A... a ) -> bool { return ( *(const F*)c )( *o, a... ); }, int( sizeof...( A ) ), &wit );
	}
	inline bool eq( double a, double b ) { return a == b; }
	inline bool le( double a, double b ) { return a <= b; }
	inline long ufi( const char* n, long a ) { return __xov_ufi( n, a ); }
	inline double uff( double x ) { return __xov_uf_f( x ); }
}
#define XOV_BOUNDED( name ) template< int > static void xovbounded_##name()
#define XOV_FINDING( name ) template< int > static void xovfinding_##name()
#define XOV_CHECK( cond, label ) __xov_check( ( cond ), label )
#define XOV_COVER( label ) __xov_cover( label )
#define XOV_CAT2( a, b ) a##b
#define XOV_CAT( a, b ) XOV_CAT2( a, b )
#define XOV_HINT( ... ) auto XOV_CAT( xovh_, __LINE__ ) = __VA_ARGS__; xov::hint_( XOV_CAT( xovh_, __LINE__ ), &decltype( XOV_CAT( xovh_, __LINE__ ) )::operator() )
#define XOV_HINT_OBJ( ... ) auto XOV_CAT( xovh_, __LINE__ ) = __VA_ARGS__; xov::hint_obj_( XOV_CAT( xovh_, __LINE__ ), &decltype( XOV_CAT( xovh_, __LINE__ ) )::operator() )
struct xov_stub { const char* name; const void* fn; const char* except; };
// XOV_STUB( id, "qualified::name(", stub function, "proofs that verify the body" )
#define XOV_STUB( id, name, fn, except ) __attribute__((used)) static const xov_stub xovstub_##id = { name, (const void*)fn, except }
#define XOV_OPT( n, v ) __xov_opt( n, v )
#define XOV_NOTE( n ) __xov_note( n )
#else
#include <functional>
#include <type_traits>
#include <cstdio>
#include <cmath>
#include <random>
namespace xov {
	inline bool sym() { return false; }
	struct discard {};
	struct violation { std::string label; };
	// choice source: exhaustive odometer, then random, or replay of a recorded list
	struct chooser {
		int mode = 0; // 0 odometer, 1 random, 2 replay
		std::vector<std::pair<long, long>> odo; size_t pos = 0; std::mt19937_64 rng; std::vector<std::string> replay; std::vector<std::string> log; double scale = 1;
		long pick( long n ) { // index in [0,n)
			if ( mode == 0 ) {
				if ( pos == odo.size() ) odo.push_back( { 0, n } );
				odo[pos].second = n; long r = odo[pos].first; ++pos; return r < n ? r : n - 1;
			}
			return long( rng() % (unsigned long)n );
		}
		bool next() { odo.resize( pos ); pos = 0; while ( !odo.empty() ) { if ( ++odo.back().first < odo.back().second ) return true; odo.pop_back(); } return false; }
		std::string rep() { if ( pos < replay.size() ) return replay[pos++]; throw discard(); }
	};
	extern chooser ch;
	inline long any_int_n( long lo, long hi ) {
		if ( ch.mode == 2 ) { long v = std::stol( ch.rep() ); if ( v < lo || v > hi ) throw discard(); ch.log.push_back( std::to_string( v ) ); return v; }
		long v;
		if ( ch.mode == 0 ) {
			static const long base[] = { 0, 1, 2, -1, 3, 5, -3 };
			if ( lo >= -8 && hi <= 8 && hi - lo <= 6 ) v = lo + ch.pick( hi - lo + 1 );
			else { long cand[16]; int n = 0; for ( long b : base ) if ( b >= lo && b <= hi ) cand[n++] = b; if ( n < 3 ) { n = 0; for ( long k = 0; k < 4 && ( k <= hi - lo || hi - lo < 0 ); ++k ) cand[n++] = lo + k; } v = cand[ch.pick( n )]; }
		} else {
			int k = int( ch.rng() % 10 );
			auto clampi = [&]( long x ) { return x < lo ? lo + ( ( lo - x ) % ( hi - lo > 0 ? ( hi - lo < 64 ? hi - lo + 1 : 64 ) : 1 ) ) : x > hi ? hi - ( ( x - hi ) % ( hi - lo > 0 ? ( hi - lo < 64 ? hi - lo + 1 : 64 ) : 1 ) ) : x; };
			if ( hi - lo >= 0 && hi - lo < 64 ) v = lo + long( ch.rng() % ( hi - lo + 1 ) );
			else if ( k < 5 ) v = clampi( long( ch.rng() % 17 ) - 8 );
			else if ( k < 7 ) v = clampi( long( ch.rng() % 400 ) - 200 );
			else if ( k == 7 ) v = lo + long( ch.rng() % 3 );
			else if ( k == 8 ) v = hi - long( ch.rng() % 3 );
			else { unsigned long span = (unsigned long)hi - (unsigned long)lo + 1; v = span ? long( (unsigned long)lo + ch.rng() % span ) : long( ch.rng() ); }
		}
		ch.log.push_back( std::to_string( v ) ); return v;
	}
	inline long any_int( long lo, long hi ) { return any_int_n( lo, hi ); }
	inline int any_i32() { return int( any_int_n( -2147483647L - 1, 2147483647L ) ); }
	inline unsigned any_u32() { return unsigned( any_int_n( 0, 4294967295L ) ); }
	inline unsigned long any_bits() {
		if ( ch.mode == 2 ) { std::string r = ch.rep(); ch.log.push_back( r ); return r[0] == '-' ? (unsigned long)std::stol( r ) : std::stoul( r ); }
		unsigned long v; static const unsigned long base[] = { 0, 1, ~0ul, 1ul << 31, 1ul << 32, 1ul << 63 };
		if ( ch.mode == 0 ) v = base[ch.pick( 6 )]; else v = ch.rng() % 3 ? ch.rng() : base[ch.rng() % 6] ^ ( 1ul << ch.rng() % 64 );
		ch.log.push_back( std::to_string( v ) ); return v;
	}
	inline size_t any_size( size_t native_max = 4 ) { return size_t( any_int_n( 0, ch.mode == 2 ? 100000 : ch.mode == 1 ? native_max * 3 : native_max ) ); }
	inline bool any_bool() { return any_int_n( 0, 1 ) != 0; }
	inline char any_char( const char* alphabet = nullptr ) {
		if ( ch.mode == 2 ) return char( any_int_n( -128, 127 ) );
		std::string a = alphabet ? alphabet : "ab "; long k = ch.pick( long( a.size() ) ); char c = a[k]; if ( ch.mode == 1 && !alphabet && ch.rng() % 4 == 0 ) c = char( ch.rng() ); ch.log.push_back( std::to_string( int( c ) ) ); return c;
	}
	inline double any_real() {
		if ( ch.mode == 2 ) { std::string s = ch.rep(); double v; auto sl = s.find( '/' ); if ( sl != s.npos ) v = std::stod( s.substr( 0, sl ) ) / std::stod( s.substr( sl + 1 ) ); else v = std::stod( s ); ch.log.push_back( s ); return v; }
		double v; static const double base[] = { 0, 1, -1, 0.5, 2, -3 };
		if ( ch.mode == 0 ) v = base[ch.pick( 4 )];
		else { int k = int( ch.rng() % 6 ); if ( k < 2 ) v = base[ch.rng() % 6]; else if ( k < 4 ) v = ( long( ch.rng() % 65 ) - 32 ) / 8.0; else v = std::uniform_real_distribution<double>( -10, 10 )( ch.rng ); }
		char buf[40]; snprintf( buf, 40, "%.17g", v ); ch.log.push_back( buf ); return v;
	}
	inline void assume( bool b ) { if ( !b ) throw discard(); }
	template< class F > bool forall( long lo, long hi, const F& f ) { for ( long i = lo; i < hi; ++i ) if ( !f( size_t( i ) ) ) return false; return true; }
	template< class F > bool exists( long lo, long hi, const F& f ) { for ( long i = lo; i < hi; ++i ) if ( f( size_t( i ) ) ) return true; return false; }
	template< class F > bool thrown( const F& f ) { try { f(); return false; } catch ( discard& ) { throw; } catch ( violation& ) { throw; } catch ( ... ) { return true; } }
	template< class T > struct gen;
	inline bool eq( double a, double b ) { if ( a == b ) return true; return std::abs( a - b ) <= 1e-6 * ( 1 + std::abs( a ) + std::abs( b ) ); }
	inline bool le( double a, double b ) { return a <= b || eq( a, b ); }
	inline long ufi( const char* n, long a ) { unsigned long h = 1469598103934665603ul; for ( ; *n; ++n ) h = ( h ^ (unsigned char)*n ) * 1099511628211ul; return long( ( h ^ (unsigned long)( a * 2654435761ul ) ) % 97 ); }
	inline double uff( double x ) { return 3 * x * x - 2 * x + 1; }
	struct reg { reg( const char* n, void ( *f )(), int kind = 0 ); };
	inline void check( bool b, const char* l ) { if ( !b ) throw violation{ l }; }
	void cover( const char* );
}
#define XOV_PROOF( name ) static void xovproof_##name(); static xov::reg xovreg_##name( #name, &xovproof_##name ); static void xovproof_##name()
#define XOV_BOUNDED( name ) static void xovproof_##name(); static xov::reg xovreg_##name( #name, &xovproof_##name, 1 ); static void xovproof_##name()
#define XOV_FINDING( name ) static void xovproof_##name(); static xov::reg xovreg_##name( #name, &xovproof_##name, 2 ); static void xovproof_##name()
#define XOV_CHECK( cond, label ) xov::check( ( cond ), label )
#define XOV_COVER( label ) xov::cover( label )
#define XOV_HINT( ... ) (void)0
#define XOV_HINT_OBJ( ... ) (void)0
#define XOV_STUB( id, name, fn, except ) static_assert( true, "" )
#define XOV_OPT( n, v ) (void)0
#define XOV_NOTE( n ) (void)0
#endif

namespace xov {
	template<> struct gen<int> { static int make() { return any_i32(); } };
	template<> struct gen<long> { static long make() { return any_int( -( 1L << 61 ), 1L << 61 ); } };
	template<> struct gen<unsigned> { static unsigned make() { return any_u32(); } };
	template<> struct gen<unsigned char> { static unsigned char make() { return (unsigned char)any_int( 0, 255 ); } };
	template<> struct gen<size_t> { static size_t make() { return any_size( 6 ); } };
	template<> struct gen<double> { static double make() { return any_real(); } };
	template<> struct gen<float> { static float make() { return float( any_real() ); } };
	template<> struct gen<bool> { static bool make() { return any_bool(); } };
	template<> struct gen<char> { static char make() { return any_char(); } };
	template< class T > T any() { return gen<T>::make(); }
	template< class A, class B > struct gen< std::pair<A, B> > { static std::pair<A, B> make() { A a = any<A>(); B b = any<B>(); return std::pair<A, B>( a, b ); } };
#ifdef XOV_SYM
	inline std::string any_string( const char* alphabet = nullptr, size_t native_max = 4 ) { std::string s; s.v = __xov_in_str(); return s; }
	template< class T > std::vector<T> any_vector( size_t native_max = 4 ) { size_t n = any_size(); return std::vector<T>( typename std::vector<T>::arbitrary(), n ); }
#else
	inline std::string any_string( const char* alphabet = nullptr, size_t native_max = 4 ) {
		size_t n = any_size( native_max ); std::string s; for ( size_t i = 0; i < n; ++i ) s += any_char( alphabet ); return s;
	}
	template< class T > std::vector<T> any_vector( size_t native_max = 4 ) { size_t n = any_size( native_max ); std::vector<T> v; for ( size_t i = 0; i < n; ++i ) v.push_back( any<T>() ); return v; }
#endif
	template<> struct gen<std::string> { static std::string make() { return any_string(); } };
	inline bool implies( bool a, bool b ) { return !a || b; }
}
