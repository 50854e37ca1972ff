#define XOV_CONCRETE
// S05: the tokenizer: positions stay in the text, reading progresses, words, quotes, operators, lines and numbers are read exactly.
#include "xov.h"
#include <cstring>
#include "xo/serialization/char_stream.h"
#include "xo/system/system_tools.h"
#include "xo/filesystem/filesystem.h"
#include "xo/filesystem/path.h"
#include <algorithm>
#ifdef XOV_SYM
// contract of strstr for a single character
static const char* strstr_contract( const char* h, const char* w ) noexcept { bool f = xov::any_bool(); long n = xov::any_int( 0, 1L << 40 ); xov::assume( h[n] == ( f ? w[0] : 0 ) && w[0] != 0 && w[1] == 0 && xov::forall( 0, n, [&]( size_t i ) { return ( h[i] != 0 ) & ( h[i] != w[0] ); } ) ); return f ? h + n : nullptr; }
#define strstr strstr_contract
#endif
#include "xo/serialization/char_stream.cpp"
#include "xo/string/string_tools.cpp"
using namespace xo;
using std::string;
#ifdef XOV_SYM
// external C functions: what they do, written out; the rest is assumed
extern "C" int strncmp( const char* a, const char* b, size_t n ) noexcept { for ( size_t k = 0; k < n; ++k ) { if ( a[k] != b[k] ) return a[k] < b[k] ? -1 : 1; if ( a[k] == 0 ) return 0; } return 0; }
extern "C" size_t strcspn( const char* s, const char* r ) noexcept { long n = xov::any_int( 0, 1L << 40 ); xov::assume( s[n] == 0 || strchr( r, s[n] ) != nullptr ); xov::assume( xov::forall( 0, n, [&]( size_t i ) { return ( s[i] != 0 ) & ( s[i] != r[0] ) & ( s[i] != r[1] ); } ) ); return size_t( n ); }
static long used; static double real_value; static long int_value; // ghost: what the C function last did
static long number_length( const char* b ) { long n = xov::any_int( 0, 1L << 40 ); xov::assume( xov::forall( 0, n, [&]( size_t i ) { return b[i] != 0; } ) ); return used = n; }
extern "C" double strtod( const char* b, char** e ) noexcept { *e = const_cast<char*>( b ) + number_length( b ); return real_value = xov::any_real(); }
extern "C" long strtol( const char* b, char** e, int ) noexcept { *e = const_cast<char*>( b ) + number_length( b ); return int_value = xov::any_int( -( 1L << 31 ), ( 1L << 31 ) - 1 ); }
#else
static long used; static double real_value; static long int_value;
#endif
// contract of decode_char (proved in S04): consumes one to four characters, never more than there are
static char decode( const char* s, size_t n, int* len ) { XOV_CHECK( n > 0, "there is something to decode" ); *len = int( xov::any_int( 1, 4 ) ); xov::assume( size_t( *len ) <= n ); return char( xov::any_int( -128, 127 ) ); }
XOV_STUB( decode, "xo::decode_char(", decode, "" );
static bool delim( char c ) { return ( c == ' ' ) | ( c == '\t' ) | ( c == '\r' ) | ( c == '\n' ) | ( c == '\f' ) | ( c == '\v' ) | ( c == 0 ); }
static long pos( const char_stream& c ) { return c.cur_pos - c.buffer; }
static long end_pos( const char_stream& c ) { return c.cur_pos_end - c.buffer; }
static const char* alpha = "ab \"\\=\n";
XOV_PROOF( characters ) {
	const string t = xov::any_string( alpha ); long n = long( t.size() ); char_stream c{ string( t ) }; long k = long( xov::any_size() ); xov::assume( k <= n ); c.cur_pos += k; XOV_CHECK( c.good(), "good at first" ); char p = c.peekc(); XOV_CHECK( pos( c ) == k, "looking does not move" ); char g = c.getc(); XOV_COVER( "end" );
	XOV_CHECK( p == g && g == ( k < n ? t[k] : 0 ), "the next character, or none at the end" ); XOV_CHECK( pos( c ) == ( k < n ? k + 1 : n ), "one further, never beyond the end" ); XOV_CHECK( c.eof() == ( k == n ) && !c.fail() && c.good() == !c.eof(), "the end is noticed" );
}
XOV_PROOF( skipping ) {
	XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); const string t = xov::any_string( alpha ); long n = long( t.size() ); char_stream c{ string( t ) }; long k = long( xov::any_size() ); xov::assume( k <= n ); c.cur_pos += k;
	XOV_HINT_OBJ( [&]( const char_stream& o ) { long p = pos( o ); return k <= p && p <= n && xov::forall( long( k ), long( p ), [&]( size_t i ) { return delim( t[i] ); } ); } );
	c.skip_delimiters(); long p = pos( c ); XOV_COVER( "end" ); XOV_CHECK( k <= p && p <= n && xov::forall( long( k ), long( p ), [&]( size_t i ) { return delim( t[i] ); } ), "skips white space only" ); XOV_CHECK( p == n ? c.eof() : c.good() && !delim( t[p] ), "and all of it" );
}
// from any position in any text
#define ANY_POS const string t = xov::any_string( alpha ); long n = long( t.size() ); char_stream c{ string( t ) }; long k = long( xov::any_size() ); xov::assume( k <= n ); c.cur_pos += k
static bool special( char c ) { return delim( c ) | ( c == '"' ) | ( c == '=' ) | ( c == '{' ) | ( c == '<' ); }
XOV_PROOF( token_safety ) {
	XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); XOV_OPT( "unroll", 0 ); XOV_OPT( "candms", 250 ); XOV_OPT( "warm", 1 ); ANY_POS;
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return k <= pos( o ) && pos( o ) <= n; } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.cur_pos_end != nullptr && o.cur_pos <= o.cur_pos_end && o.cur_pos_end <= o.buffer_end; } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.data_ == 0 || ( o.buffer_flags.data_ == 2 && pos( o ) == n ); } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return k < pos( o ); } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.any() || k < pos( o ) || o.cur_pos < o.cur_pos_end || !delim( t[pos( o )] ); } );
	const string s = c.get_token(); long p = pos( c ); XOV_COVER( "end" ); XOV_CHECK( k <= p && p <= n, "the position stays in the text and never goes back" ); XOV_CHECK( !c.fail() && c.eof() == ( p == n ), "the end is noticed" ); XOV_CHECK( k < p || c.eof(), "every token makes progress, or is the last" );
}
// a word of any length between white space
static bool plain( char c ) { return !special( c ) & ( c != '\\' ); }
XOV_PROOF( word ) {
	XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); XOV_OPT( "unroll", 0 ); XOV_OPT( "candms", 400 ); XOV_OPT( "warm", 1 ); ANY_POS; long w = long( xov::any_size( 4 ) ); xov::assume( k + w <= n && w > 0 );
	xov::assume( xov::forall( k, k + w, [&]( size_t i ) { return plain( t[i] ); } ) && ( k + w == n || delim( t[k + w] ) ) );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.data_ == 0 && pos( o ) == k && end_pos( o ) >= k && end_pos( o ) <= k + w && !o.token_quoted_; } );
	XOV_HINT_OBJ( [&]( const string& r ) { return r.size() == 0; } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.data_ == 0 && pos( o ) == k; } );

	const string s = c.get_token(); XOV_COVER( "end" ); XOV_CHECK( pos( c ) == k + w, "read up to the white space or operator" ); XOV_CHECK( long( s.size() ) == w && xov::forall( 0, w, [&]( size_t i ) { return s[i] == t[k + i]; } ), "exactly the word" ); XOV_CHECK( !c.token_quoted(), "not quoted" );
}
XOV_PROOF( operators ) { // the longest operator is taken
	const string t = xov::any_string( "=<a" ); long n = long( t.size() ); char_stream c{ string( t ) }; c.set_operators( { "=", "<", "<=", "==" } ); long k = long( xov::any_size( 2 ) ); xov::assume( k < n && ( t[k] == '=' || t[k] == '<' ) ); c.cur_pos += k;
	const string s = c.get_token(); long len = k + 1 < n && t[k + 1] == '=' ? 2 : 1; XOV_COVER( "end" ); XOV_CHECK( s.size() == len && s[0] == t[k] && ( len < 2 || s[1] == '=' ), "the longest operator that matches" ); XOV_CHECK( pos( c ) == k + len, "and just that" ); XOV_CHECK( !c.token_quoted(), "not quoted" );
}
XOV_PROOF( quotes ) { // any text without escapes between quotes is one token
	XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); XOV_OPT( "unroll", 0 ); XOV_OPT( "candms", 400 ); XOV_OPT( "warm", 1 ); ANY_POS; long w = long( xov::any_size( 4 ) ), e = k + w + 2; xov::assume( e <= n && t[k] == '"' && t[k + w + 1] == '"' );
	xov::assume( xov::forall( k + 1, k + w + 1, [&]( size_t i ) { return ( t[i] != '"' ) & ( t[i] != '\\' ); } ) && ( e == n || delim( t[e] ) ) );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.data_ == 0 && k < pos( o ) && pos( o ) <= k + w + 1; } );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return o.buffer_flags.data_ == 0 && ( ( pos( o ) == k && end_pos( o ) == k && !o.token_quoted_ ) || ( pos( o ) == e && end_pos( o ) == e && o.token_quoted_ ) ); } );
	XOV_HINT_OBJ( [&]( const string& r ) { long l = pos( c ) == k ? 0 : pos( c ) == e ? w : pos( c ) - k - 1; return long( r.size() ) == l && xov::forall( 0, l, [&]( size_t j ) { return r[j] == t[k + 1 + j]; } ); } );
	const string s = c.get_token(); XOV_COVER( "end" ); XOV_CHECK( long( s.size() ) == w && xov::forall( 0, w, [&]( size_t i ) { return s[i] == t[k + 1 + i]; } ), "the text between the quotes" ); XOV_CHECK( c.token_quoted(), "known to be quoted" ); XOV_CHECK( pos( c ) == e, "up to and including the closing quote" );
}
XOV_PROOF( lines ) {
	ANY_POS; xov::assume( xov::forall( 0, long( n ), [&]( size_t i ) { return t[i] != 0; } ) ); const string s = c.get_line(); XOV_COVER( "end" ); long e = k + long( s.size() ); XOV_CHECK( e <= n && ( e == n || t[e] == '\n' || t[e] == '\r' ), "up to the end of the line" );
	XOV_CHECK( xov::forall( 0, long( s.size() ), [&]( size_t i ) { return ( s[i] == t[k + i] ) & ( s[i] != '\n' ) & ( s[i] != '\r' ); } ), "everything before it" ); XOV_CHECK( pos( c ) == e && !c.fail(), "and no further" );
}
XOV_PROOF( trying ) { // reading an expected text
	ANY_POS; char x = xov::any_char( alpha ); xov::assume( x != 0 ); bool b = c.try_get( x ); XOV_COVER( "end" ); XOV_CHECK( b == ( k < n && t[k] == x ) && pos( c ) == ( b ? k + 1 : k ), "the character is read if it is there" );
	char_stream d{ string( t ) }; d.cur_pos += k; bool e = d.try_get( string( "a=" ) ); XOV_CHECK( e == ( k + 1 < n && t[k] == 'a' && t[k + 1] == '=' ) && pos( d ) == ( e ? k + 2 : k ), "a text is read if it is there" );
}
// numbers: exactly what the C library takes for a number, failing (and staying) when there is none
template< typename T, bool REAL > static void number() {
	XOV_OPT( "generic", 0 ); XOV_OPT( "autoinv", 0 ); const string t = xov::any_string( "1-.e x" ); long n = long( t.size() ); char_stream c{ string( t ) }; long k = long( xov::any_size() ); xov::assume( k < n ); c.cur_pos += k; xov::assume( !delim( t[k] ) && xov::forall( 0, n, [&]( size_t i ) { return t[i] != 0; } ) );
	XOV_HINT_OBJ( [&]( const char_stream& o ) { return pos( o ) == k && o.buffer_flags.data_ == 0; } );
#ifndef XOV_SYM
	char* e; if ( REAL ) real_value = strtod( t.c_str() + k, &e ); else int_value = strtol( t.c_str() + k, &e, 10 ); used = e - t.c_str() - k;
#endif
	T v = 0; c >> v; XOV_COVER( "end" ); XOV_CHECK( REAL ? v == T( real_value ) : v == T( int_value ), "the value of the number" ); XOV_CHECK( pos( c ) == k + used && k + used <= n, "the number is consumed, nothing else" ); XOV_CHECK( c.fail() == ( used == 0 ), "fails when there is no number" );
}
XOV_PROOF( number_double ) { number<double, true>(); }
XOV_PROOF( number_int ) { number<int, false>(); }
XOV_PROOF( number_long ) { number<long, false>(); }
XOV_PROOF( number_short ) { number<short, false>(); }
template< int N > static void lines_counted() { // for each length
	string t; for ( int i = 0; i < N; ++i ) t += xov::any_char( "\na" ); char_stream c{ string( t ) }; for ( int i = 0; i <= N; ++i ) { size_t w = 1; for ( int j = 0; j < i; ++j ) w += t[j] == '\n'; XOV_CHECK( c.line_number() == w, "one more than the line ends before the position" ); c.getc(); } XOV_COVER( "end" );
}
XOV_PROOF( line_number ) { lines_counted<0>(); lines_counted<1>(); lines_counted<4>(); }
template< bool PAST > static void search() { // for a character, in any text
	ANY_POS; xov::assume( xov::forall( 0, n - k, [&]( size_t i ) { return t[k + i] != 0; } ) ); const char x = xov::any_char( "ab" ); xov::assume( x != 0 ); const string z( 1, x ); bool b = PAST ? c.seek_past( z ) : c.seek( z ); long p = pos( c ) - ( PAST && b ); XOV_COVER( "end" );
	if ( b ) { XOV_CHECK( k <= p && p < n && t[p] == x && xov::forall( 0, p - k, [&]( size_t i ) { return t[k + i] != x; } ) && !c.fail(), "at (or behind) the first occurrence" ); }
	else { XOV_CHECK( p == k && c.fail() && xov::forall( 0, n - k, [&]( size_t i ) { return t[k + i] != x; } ), "fails, unmoved, exactly if there is none" ); }
}
XOV_PROOF( seeking ) { search<false>(); }
XOV_PROOF( seeking_past ) { search<true>(); }
#ifndef XOV_SYM
// what the tokens of a text are, written down independently: tokens, whether they are quoted
static std::vector< std::pair< string, bool > > reference( const string& t, const std::vector<string>& ops ) {
	std::vector< std::pair< string, bool > > r; size_t i = 0, n = t.size();
	auto op = [&]( size_t k ) { string best; for ( auto& o : ops ) if ( t.compare( k, o.size(), o ) == 0 && o.size() > best.size() ) best = o; return best; };
	for ( ;; ) {
		while ( i < n && delim( t[i] ) ) ++i;
		if ( i >= n ) return r;
		string o = op( i ); if ( !o.empty() && t[i] != '"' ) { r.push_back( { o, false } ); i += o.size(); continue; }
		string s; bool q = false;
		while ( i < n && !delim( t[i] ) && ( t[i] == '"' || op( i ).empty() ) ) {
			if ( t[i] != '"' ) { s += t[i++]; continue; }
			q = true; ++i;
			while ( i < n && t[i] != '"' ) if ( t[i] == '\\' ) { int l; s += decode_char( t.c_str() + i, n - i, &l ); i += l; } else s += t[i++];
			if ( i < n ) ++i;
		}
		r.push_back( { s, q } );
	}
}
XOV_BOUNDED( tokens_of_texts ) { // all short texts
	string t; int n = int( xov::any_int( 0, 5 ) ); for ( int i = 0; i < n; ++i ) t += "a \"\\=<\n"[xov::any_int( 0, 6 )]; int kind = int( xov::any_int( 0, 2 ) ); std::vector<string> ops = kind == 0 ? std::vector<string>{} : kind == 1 ? std::vector<string>{ "=", "<" } : std::vector<string>{ "<", "<=", "a=" };
	char_stream c( t.c_str(), whitespace_characters, "\"", ops ); auto want = reference( t, ops ); std::vector< std::pair< string, bool > > got;
	for ( size_t g = 0; g < 2 * t.size() + 4; ++g ) { const char* b = c.cur_pos; string s = c.get_token(); XOV_CHECK( b <= c.cur_pos && c.cur_pos <= t.c_str() + t.size(), "in the text" ); if ( s.empty() && !c.token_quoted() && !c.good() ) break; got.push_back( { s, c.token_quoted() } ); if ( !c.good() ) break; }
	XOV_CHECK( got == want, "the tokens of the text" ); XOV_CHECK( c.eof() && !c.fail(), "all of it" );
}
XOV_BOUNDED( quoted_texts ) { // what quoted() writes is read back as one token
	std::vector<string> v; string t; int n = int( xov::any_int( 0, 3 ) ); for ( int i = 0; i < n; ++i ) { string s; int l = int( xov::any_int( 0, 2 ) ); for ( int j = 0; j < l; ++j ) s += "a \"\\\t=\x01\xff"[xov::any_int( 0, 7 )]; v.push_back( s ); t += ( i ? " " : "" ) + quoted( s ); }
	char_stream c( t.c_str(), whitespace_characters, "\"", { "=" } ); for ( auto& s : v ) { XOV_CHECK( c.get_token() == s && c.token_quoted(), "reads what was quoted" ); } c.get_token(); XOV_CHECK( !c.good(), "and nothing else" );
}
#endif
