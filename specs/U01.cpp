// U01: colors: components, arithmetic, hexadecimal and hue forms.
#include "xov.h"
#include "xo/utility/color.h"
#include "xo/utility/color_gradient.h"
#include "xo/utility/color.cpp"
using namespace xo;
using xov::eq; using xov::le;
static float R() { return float( xov::any_real() ); }
static color C() { return color( R(), R(), R(), R() ); }
static bool is( const color& c, double r, double g, double b, double a ) { return eq( c.r, r ) && eq( c.g, g ) && eq( c.b, b ) && eq( c.a, a ); }
XOV_PROOF( components ) {
	double r = R(), g = R(), b = R(), a = R(); XOV_COVER( "end" ); XOV_CHECK( is( color( r, g, b, a ), r, g, b, a ) && is( color( float( r ), float( g ), float( b ), float( a ) ), r, g, b, a ), "each in its place" ); XOV_CHECK( is( color( r, g, b ), r, g, b, 1 ) && is( color( float( r ), float( g ), float( b ) ), r, g, b, 1 ) && is( color(), 0, 0, 0, 1 ), "opaque by default" ); XOV_CHECK( color::null().is_null() && !color().is_null(), "null" );
	color c = C(); XOV_CHECK( c.is_null() == ( c == color::null() ), "only the null color is null" );
}
XOV_PROOF( algebra ) {
	color c = C(), d = C(); float s = R(); XOV_COVER( "end" ); XOV_CHECK( is( c + d, c.r + d.r, c.g + d.g, c.b + d.b, c.a + d.a ) && is( c - d, c.r - d.r, c.g - d.g, c.b - d.b, c.a - d.a ) && is( s * c, s * c.r, s * c.g, s * c.b, s * c.a ) && is( c * s, s * c.r, s * c.g, s * c.b, s * c.a ), "component by component" );
	XOV_CHECK( ( c == d ) == ( c.r == d.r && c.g == d.g && c.b == d.b && c.a == d.a ) && ( c != d ) == !( c == d ), "equal components" );
}
static bool lex( const color& c, const color& d ) { return ( c.r < d.r ) | ( ( c.r == d.r ) & ( ( c.g < d.g ) | ( ( c.g == d.g ) & ( ( c.b < d.b ) | ( ( c.b == d.b ) & ( c.a < d.a ) ) ) ) ) ); }
XOV_PROOF( ordering ) { color c = C(), d = C(); bool l = c < d; XOV_COVER( "end" ); XOV_CHECK( l == lex( c, d ), "ordered by red, green, blue, alpha: a strict total order" ); }
XOV_PROOF( clamping ) {
	color c = C(), k = c; XOV_COVER( "end" ); float l = R(), u = R(); xov::assume( l <= u ); color& z = clamp( k, l, u ); auto cl = [&]( float x ) { return x < l ? l : x > u ? u : x; }; XOV_CHECK( &z == &k && is( k, cl( c.r ), cl( c.g ), cl( c.b ), cl( c.a ) ), "clamped component by component" );
}
XOV_PROOF( named ) {
	float b = R(), s = R(); double d = double( b ) * ( 1 - double( s ) ); XOV_COVER( "end" ); XOV_CHECK( is( color::red( b, s ), b, d, d, 1 ) && is( color::green( b, s ), d, b, d, 1 ) && is( color::blue( b, s ), d, d, b, 1 ) && is( color::yellow( b, s ), b, b, d, 1 ) && is( color::cyan( b, s ), d, b, b, 1 ) && is( color::magenta( b, s ), b, d, b, 1 ) && is( color::white( b ), b, b, b, 1 ) && is( color::orange( b, s ), b, b / 2. + d / 2, d, 1 ), "named colors of any brightness and saturation" );
}
// hexadecimal numbers and back, each component by itself (the others any byte)
template< int K > static void hexed() {
	long r = xov::any_int( 0, 255 ), g = xov::any_int( 0, 255 ), b = xov::any_int( 0, 255 ), a = xov::any_int( 0, 255 ); uint32 x = K == 1 || K == 4 ? uint32( r * 0x1000000 + g * 0x10000 + xov::any_int( 0, 0xffff ) ) : uint32( r * 0x1000000 + g * 0x10000 + b * 0x100 + a ); auto near = [&]( double p, long q ) { return std::fabs( p - double( q ) / 255 ) < 1e-5; }; color c, d; if ( K == 1 || K == 4 ) { XOV_CHECK( long( x >> 16 ) == r * 0x100 + g, "lemma: shifted" ); XOV_CHECK( long( ( x >> 16 ) & 0xff ) == g, "lemma: masked" ); } if ( K < 4 ) c = color_from_hex_rgba( x ); else d = color_from_hex_rgb( x ); XOV_COVER( "end" );
	if ( K == 0 ) XOV_CHECK( near( c.r, r ), "red" ); if ( K == 1 ) XOV_CHECK( near( c.g, g ), "green" ); if ( K == 2 ) XOV_CHECK( near( c.b, b ), "blue" ); if ( K == 3 ) XOV_CHECK( near( c.a, a ), "alpha" ); if ( K == 4 ) XOV_CHECK( near( d.r, g ), "red" ); if ( K == 5 ) XOV_CHECK( near( d.g, b ), "green" ); if ( K == 6 ) XOV_CHECK( near( d.b, a ) && d.a == 1, "blue, opaque" );
}
XOV_PROOF( hex_0 ) { hexed<0>(); }
XOV_PROOF( hex_1 ) { hexed<1>(); }
XOV_PROOF( hex_2 ) { hexed<2>(); }
XOV_PROOF( hex_3 ) { hexed<3>(); }
XOV_PROOF( hex_4 ) { hexed<4>(); }
XOV_PROOF( hex_5 ) { hexed<5>(); }
XOV_PROOF( hex_6 ) { hexed<6>(); }
XOV_PROOF( to_hex ) { // components that are bytes
	long r = xov::any_int( 0, 255 ), g = xov::any_int( 0, 255 ), b = xov::any_int( 0, 255 ), a = xov::any_int( 0, 255 ); auto f = []( long v ) { return float( v ) / 255.0f; }; color c( f( r ), f( g ), f( b ), f( a ) ); XOV_COVER( "end" ); XOV_CHECK( long( float_to_byte( c.r ) ) == r && long( float_to_byte( c.g ) ) == g && long( float_to_byte( c.b ) ) == b && long( float_to_byte( c.a ) ) == a, "lemma: bytes" ); XOV_CHECK( long( hex_rgb_from_color( c ) ) == r * 0x10000 + g * 0x100 + b, "without alpha" ); uint32 x = hex_rgba_from_color( c ); if ( r < 128 ) XOV_CHECK( long( x ) == r * 0x1000000 + g * 0x10000 + b * 0x100 + a, "with alpha" ); else XOV_CHECK( long( x ) == r * 0x1000000 + g * 0x10000 + b * 0x100 + a, "with alpha, large" );
}
XOV_BOUNDED( there_and_back ) { uint32 x = uint32( xov::any_int( 0, 0xffffff ) ) * 256u + uint32( xov::any_int( 0, 255 ) ); XOV_CHECK( hex_rgba_from_color( color_from_hex_rgba( x ) ) == x && hex_rgb_from_color( color_from_hex_rgb( x ) ) == ( x & 0xffffff ), "the same number" ); }
XOV_PROOF( hue ) { // the largest component is the value, the smallest the value less the saturation, and the hue says which and in between
	float H = R(), S = R(), V = R(); if ( !xov::sym() ) { H = std::fmod( std::fabs( H ) * 36, 360.f ); S = std::fmod( std::fabs( S ), 1.f ); V = std::fmod( std::fabs( V ), 1.f ); } xov::assume( H >= 0 && H < 360 && S >= 0 && S <= 1 && V >= 0 && V <= 1 ); color c = color_from_hsv( H, S, V ); double mx = std::max( std::max( c.r, c.g ), c.b ), mn = std::min( std::min( c.r, c.g ), c.b ); XOV_COVER( "end" ); XOV_CHECK( eq( mx, V ) && eq( mn, V * ( 1 - S ) ) && c.a == 1, "value and saturation" );
	double h = H / 60, f = mx - mn; double k; // the hue, from the components
	if ( h <= 1 ) { k = c.g - mn; XOV_CHECK( eq( c.r, mx ) && eq( c.b, mn ) && std::fabs( k - f * h ) < 1e-4, "red to yellow" ); } else if ( h <= 2 ) XOV_CHECK( eq( c.g, mx ) && eq( c.b, mn ) && std::fabs( c.r - mn - f * ( 2 - h ) ) < 1e-4, "yellow to green" ); else if ( h <= 3 ) XOV_CHECK( eq( c.g, mx ) && eq( c.r, mn ) && std::fabs( c.b - mn - f * ( h - 2 ) ) < 1e-4, "green to cyan" );
	else if ( h <= 4 ) XOV_CHECK( eq( c.b, mx ) && eq( c.r, mn ) && std::fabs( c.g - mn - f * ( 4 - h ) ) < 1e-4, "cyan to blue" ); else if ( h <= 5 ) XOV_CHECK( eq( c.b, mx ) && eq( c.g, mn ) && std::fabs( c.r - mn - f * ( h - 4 ) ) < 1e-4, "blue to magenta" ); else XOV_CHECK( eq( c.r, mx ) && eq( c.g, mn ) && std::fabs( c.b - mn - f * ( 6 - h ) ) < 1e-4, "magenta to red" );
}
XOV_PROOF( brightness ) { color c = C(); double p = perceived_brightness( c ); XOV_COVER( "end" ); XOV_CHECK( p >= 0 && std::fabs( p * p - ( 0.299 * c.r * c.r + 0.587 * c.g * c.g + 0.114 * c.b * c.b ) ) <= 1e-5 * ( 0.1 + double( c.r ) * c.r + double( c.g ) * c.g + double( c.b ) * c.b ), "the weighted mean square" ); }
XOV_BOUNDED( unique_colors ) { index_t i = index_t( xov::any_int( 0, 40 ) ); float b = float( xov::any_int( 1, 10 ) ) / 10; color c = make_unique_color( i, b ); XOV_CHECK( c.r >= 0 && c.r <= 1 && c.g >= 0 && c.g <= 1 && c.b >= 0 && c.b <= 1 && c.a == 1, "a valid color" ); index_t j = index_t( xov::any_int( 0, 40 ) ); if ( i != j ) XOV_CHECK( c != make_unique_color( j, b ), "distinct" ); }
XOV_BOUNDED( gradients ) { color a = C(), b = C(); float v = R(); color_gradient g{ { 0.0f, a }, { 2.0f, b } }; color c = g( v ); double w = v < 0 ? 0 : v > 2 ? 1 : v / 2; XOV_CHECK( is( c, a.r + w * ( b.r - a.r ), a.g + w * ( b.g - a.g ), a.b + w * ( b.b - a.b ), a.a + w * ( b.a - a.a ) ), "the blend of its neighbours" ); }
XOV_BOUNDED( written ) { // the written forms of a color
	int r = int( xov::any_int( 0, 255 ) ), g = int( xov::any_int( 0, 255 ) ), b = int( xov::any_int( 0, 255 ) ); color w = color_from_hex_rgb( uint32( r << 16 | g << 8 | b ) ), c; char t[64]; prop_node pn; auto near = [&] { return std::fabs( c.r - w.r ) < 1e-5 && std::fabs( c.g - w.g ) < 1e-5 && std::fabs( c.b - w.b ) < 1e-5; };
	snprintf( t, 64, "rgb(%d,%d,%d)", r, g, b ); pn.set_value( string( t ) ); XOV_CHECK( from_prop_node( pn, c ) && near(), "as decimal components" ); snprintf( t, 64, "0x%02x%02x%02x", r, g, b ); pn.set_value( string( t ) ); XOV_CHECK( from_prop_node( pn, c ) && near() && c.a == 1, "as hexadecimal number" ); snprintf( t, 64, "%02X%02x%02x80", r, g, b ); pn.set_value( string( t ) ); XOV_CHECK( from_prop_node( pn, c ) && near() && std::fabs( c.a - 128 / 255. ) < 1e-5, "with alpha" );
	prop_node q; q["r"] = w.r; q["g"] = w.g; q["b"] = w.b; c = color::null(); XOV_CHECK( from_prop_node( q, c ) && std::fabs( c.r - w.r ) < 1e-4 && std::fabs( c.g - w.g ) < 1e-4 && std::fabs( c.b - w.b ) < 1e-4, "by name" ); for ( const char* bad : { "", "zz", "rgb(1,2)", "rgb(x,1,2)", "hsv 1" } ) { pn.set_value( string( bad ) ); XOV_CHECK( !from_prop_node( pn, c ), "anything else is refused" ); }
	snprintf( t, 64, "hsv(%d, %d, %d)", r, g % 101, b % 101 ); pn.set_value( string( t ) ); XOV_CHECK( from_prop_node( pn, c ), "as hue" ); w = color_from_hsv( float( r ), ( g % 101 ) / 100.f, ( b % 101 ) / 100.f ); XOV_CHECK( near(), "as hue, saturation and value" );
}
