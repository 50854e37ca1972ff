// S04: quoting and escaping text.
#include "xov.h"
#include "xo/string/string_tools.cpp"
using namespace xo;
using std::string;
// printf is external: assumed to write three octal digits
static string octal( const char*, int c ) { char b[5] = { '\\', char( '0' + ( c / 64 ) % 8 ), char( '0' + ( c / 8 ) % 8 ), char( '0' + c % 8 ), 0 }; return string( b, 4 ); }
XOV_STUB( octal, "xo::stringf(", octal, "" );
static bool special( char c ) { return ( c == '"' ) | ( c == '\\' ) | ( ( c >= 0 ) & ( c < 32 ) ); }
XOV_PROOF( characters ) { // every character except the terminator
	char c = xov::any_char( "ab\"\\\r\n\t\1\37 \x7f\x80\xff" ); xov::assume( c != 0 ); const string e = encode_char( c ); size_t n = e.size(); XOV_COVER( "end" ); XOV_CHECK( n >= 1 && n <= 4, "at most four characters" ); XOV_CHECK( special( c ) ? e[0] == '\\' && n >= 2 : n == 1 && e[0] == c, "only quotes, backslashes and control characters are escaped" );
	XOV_CHECK( e[n - 1] > 31 || e[n - 1] < 0, "printable" ); int len = 0; char d = decode_char( e.c_str(), e.size(), &len ); XOV_CHECK( d == c, "decoding gives the character back" ); XOV_CHECK( len == int( n ), "and consumes the escape exactly" );
}
template< size_t N > static void in_text() { // more text behind it does not matter
	char c = xov::any_char( "ab\"\\\r\n\t\1\37 \x7f\x80\xff" ); xov::assume( c != 0 ); string e = encode_char( c ), t = e; for ( size_t i = 0; i < N; ++i ) t += xov::any_char( "0a\\" ); int len = 0; char d = decode_char( t.c_str(), t.size(), &len ); XOV_COVER( "end" ); XOV_CHECK( d == c && len == int( e.size() ), "the escape is decoded, the rest is left" );
}
XOV_PROOF( character_in_text1 ) { in_text<1>(); }
XOV_PROOF( character_in_text2 ) { in_text<2>(); }
XOV_PROOF( character_in_text3 ) { in_text<3>(); }
XOV_PROOF( decoding ) { // any text
	XOV_OPT( "force_unroll", 1 );
	const string t = xov::any_string( "\\n078", 5 ); xov::assume( t.size() > 0 ); int len = -1; decode_char( t.c_str(), t.size(), &len ); XOV_COVER( "end" ); XOV_CHECK( len >= 1 && len <= 4 && size_t( len ) <= t.size(), "consumes at least one character and never more than there are" );
}
XOV_PROOF( decoding_nothing ) { int len; bool t = xov::thrown( [&] { decode_char( "", 0, &len ); } ); XOV_COVER( "end" ); XOV_CHECK( t, "nothing to decode is refused" ); }
XOV_PROOF( plain ) { // text without special characters
	const string s = xov::any_string( "ab \x80", 4 ); xov::assume( xov::forall( 0, long( s.size() ), [&]( size_t i ) { return !special( s[i] ); } ) ); size_t n = s.size();
	XOV_HINT_OBJ( [&]( const string& r, size_t i ) { return r.size() == i + 1 && r[0] == '"' && xov::forall( 0, long( i ), [&]( size_t j ) { return r[j + 1] == s[j]; } ); } );
	const string q = quoted( s ); XOV_COVER( "end" ); XOV_CHECK( q.size() == n + 2 && q[0] == '"' && q[n + 1] == '"' && xov::forall( 0, long( n ), [&]( size_t j ) { return q[j + 1] == s[j]; } ), "quotes around the text" );
}
XOV_PROOF( plain_back ) {
	const string s = xov::any_string( "ab \x80", 4 ); xov::assume( xov::forall( 0, long( s.size() ), [&]( size_t i ) { return !special( s[i] ); } ) ); size_t n = s.size(); const string q = "\"" + s + "\"";
	XOV_OPT( "autoinv", 0 ); XOV_OPT( "generic", 0 );
	XOV_HINT_OBJ( [&]( const string& r, size_t i ) { return r.size() + 1 == i && r.size() <= n && xov::forall( 0, long( r.size() ), [&]( size_t j ) { return r[j] == s[j]; } ); } );
	const string u = try_unquoted( q ); XOV_COVER( "end" ); XOV_CHECK( u == s, "the text without the quotes" );
}
XOV_PROOF( unquote_plain ) { const string s = xov::any_string( "a\"", 3 ); xov::assume( s.empty() || s[0] != '"' || s[s.size() - 1] != '"' ); XOV_COVER( "end" ); XOV_CHECK( try_unquoted( s ) == s, "text that is not in quotes is unchanged" ); }
XOV_PROOF( needs ) {
	const string s = xov::any_string( "ab \"{\x80\n", 4 ); bool b = needs_quotes( s, "{}" ); XOV_COVER( "end" ); XOV_CHECK( b == ( s.empty() || xov::exists( 0, long( s.size() ), [&]( size_t i ) { return ( s[i] < 33 ) | ( s[i] == '"' ) | ( s[i] == '{' ) | ( s[i] == '}' ); } ) ), "empty text and text with white space, quotes or special characters" );
}
XOV_BOUNDED( only_if_needed ) { const string s = xov::any_string( "a\"{ \n", 4 ); const string q = try_quoted( s, "{" ); XOV_COVER( "end" ); XOV_CHECK( q == ( needs_quotes( s, "{" ) ? quoted( s ) : s ), "quoted only if there is a need" ); }
XOV_BOUNDED( round_trip ) {
	const string s = xov::any_string( "a0\"\\\n\1\x1f\xc3 ", 4 ); const string q = quoted( s ), u = try_unquoted( q ); XOV_COVER( "end" ); XOV_CHECK( u == s, "unquoting quoted text gives it back" ); XOV_CHECK( try_unquoted( try_quoted( s ) ) == s, "also where quotes are added only if needed" );
	for ( char c : q ) XOV_CHECK( (unsigned char)c >= 32, "quoted text has no control characters" ); XOV_CHECK( q.front() == '"' && q.back() == '"', "between quotes" );
}
XOV_BOUNDED( any_char_round_trip ) { string s; size_t n = xov::any_size( 2 ); for ( size_t i = 0; i < n; ++i ) s += char( xov::any_int( 1, 255 ) ); XOV_COVER( "end" ); XOV_CHECK( try_unquoted( quoted( s ) ) == s, "for every character" ); }
XOV_BOUNDED( unquote_total ) { const string s = xov::any_string( "a\"\\0n", 6 ); const string u = try_unquoted( s ); XOV_COVER( "end" ); XOV_CHECK( u.size() <= s.size(), "any text can be unquoted" ); }
