#define XOV_CONCRETE
// U05: settings: the value set, if the schema allows it, else the default; kept in a file.
#include "xov.h"
#include "xo/system/assert.h"
#include "xo/container/prop_node.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
#include "xo/filesystem/path.cpp"
#include "xo/system/settings.cpp"
using namespace xo;
using std::string;
#ifdef XOV_SYM
// the file system and the log by their contracts: a file is there or not, has a content, is written; nobody listens to the log
static bool there; static prop_node* content; static prop_node* written; static int saves;
namespace xo { bool file_exists( const path& ) { return there; } bool create_directories( const path& ) { return true; } prop_node load_file( const path&, error_code* ) { return *content; } bool save_file( const prop_node& pn, const path&, error_code* ) { ++saves; *written = pn; return true; } namespace log { bool test_log_level( level ) { return false; } void flush() {} void log_string( level, const string& ) {} } }
// the C functions, for whole decimal numbers, by their definition
static string decimal( long v ) { if ( v < 0 ) return "-" + decimal( -v ); string t; do { t = string( 1, char( '0' + v % 10 ) ) + t; v /= 10; } while ( v != 0 ); return t; }
namespace std { string to_string( int v ) { return decimal( v ); } string to_string( unsigned long v ) { return decimal( long( v ) ); } }
static long number( const char* b, char** e ) { const char* p = b; while ( *p == ' ' || ( *p >= '\t' && *p <= '\r' ) ) ++p; bool neg = *p == '-'; if ( *p == '-' || *p == '+' ) ++p; const char* from = p; long v = 0; while ( *p >= '0' && *p <= '9' ) v = v * 10 + ( *p++ - '0' ); *e = const_cast<char*>( p == from ? b : p ); return p == from ? 0 : neg ? -v : v; }
extern "C" long strtol( const char* b, char** e, int base ) noexcept { return number( b, e ); }
static bool whole( const string& s, double& v ) { char* p; const char* b = s.c_str(); v = double( number( b, &p ) ); return p != b; }
static string shown( double v ) { return decimal( long( v ) ); }
XOV_STUB( todouble, "xo::from_str(std::basic_string<char, std::char_traits<char>, void> const&, double&)", whole, "" );
XOV_STUB( fromdouble, "xo::to_str(double)", shown, "" );
// stringf of %d and %0Nd
static std::string format( const char* f, int a, int b, int c ) { std::string r; int k = 0; for ( ; *f; ++f ) { if ( *f != '%' ) { r += *f; continue; } ++f; size_t w = 0; if ( *f == '0' ) ++f; while ( *f >= '0' && *f <= '9' ) w = w * 10 + ( *f++ - '0' ); XOV_CHECK( *f == 'd', "a format known here" ); std::string t = decimal( k == 0 ? a : k == 1 ? b : c ); ++k; while ( t.size() < w ) t = "0" + t; r += t; } return r; }
XOV_STUB( stringf, "xo::stringf(", format, "" );
struct file { prop_node c, w; file( bool t ) { there = t; content = &c; written = &w; saves = 0; } };
#define OPTS XOV_OPT( "force_unroll", 1 ); XOV_OPT( "strknown", 12 ); XOV_OPT( "paths", 3000 )
static string V() { return xov::any_string( "ab", 2 ); }
// two settings in a group, one outside; sets the first twice
template< bool B > static void history() {
	OPTS; file f( false ); const string d = V(), e = V(), v = V(), w = V(); prop_node sc; auto& g = sc.add_child( "g" ); g.add_child( "s" ).set( "default", d ); g.add_child( "t" ).set( "default", e ); settings s( sc, path( "x.zml" ) );
	XOV_CHECK( s.get<string>( "g.s" ) == d && s.get<string>( "g.t" ) == e && s.data().empty(), "the defaults at first" );
	bool ok = s.set( "g.s", v ); XOV_CHECK( ok && s.get<string>( "g.s" ) == ( v.empty() ? d : v ), "the value set, or the default if it is empty" ); XOV_CHECK( s.get<string>( "g.t" ) == e, "no other" );
	if ( B ) { ok = s.set( "g.s", w ); XOV_CHECK( ok && s.get<string>( "g.s" ) == ( w.empty() ? d : w ), "the last value set" ); ok = s.set( "g.t", v ); XOV_CHECK( ok && s.get<string>( "g.s" ) == ( w.empty() ? d : w ) && s.get<string>( "g.t" ) == ( v.empty() ? e : v ), "each its own" ); s.reset(); XOV_CHECK( s.get<string>( "g.s" ) == d && s.get<string>( "g.t" ) == e, "the defaults after a reset" ); }
	XOV_COVER( "end" );
}
XOV_PROOF( history1 ) { history<false>(); }
XOV_PROOF( history2 ) { history<true>(); }
XOV_PROOF( stored ) { OPTS; file f( false ); const string d = V(), v = V(), w = V(); prop_node sc; sc.add_child( "s" ).set( "default", d ); settings s( sc, path( "x.zml" ) ); s.set( "s", v ); s.set( "s", w ); XOV_COVER( "end" ); XOV_CHECK( s.data().has_key( "s" ) == ( !w.empty() && w != d ), "only what differs from the default is stored" ); }
XOV_PROOF( unknown ) { OPTS; file f( false ); const string d = V(), v = V(); prop_node sc; sc.add_child( "g" ).add_child( "s" ).set( "default", d ); settings s( sc, path( "x.zml" ) ); bool a = s.set( "x", v ), b = s.set( "g", v ), c = s.set( "g.x", v ), e = s.set( "g.s.x", v ); XOV_COVER( "end" ); XOV_CHECK( !a && !b && !c && !e && s.data().empty(), "what the schema does not have is refused" ); XOV_CHECK( xov::thrown( [&] { s.get<string>( "x" ); } ) && xov::thrown( [&] { s.get<string>( "g.x" ); } ), "and is an error to get" ); XOV_CHECK( s.try_find_setting( "g.s" ) && !s.try_find_setting( "g" ) && !s.try_find_setting( "x" ), "found only in the schema" ); }
XOV_PROOF( allowed ) { OPTS; file f( false ); const string d = V(), a = V(), b = V(), v = V(), w = V(); prop_node sc; auto& n = sc.add_child( "s" ); n.set( "default", d ); auto& l = n.add_child( "allowed" ); l.add_value( a ); l.add_value( b ); settings s( sc, path( "x.zml" ) ); const auto good = [&]( const string& x ) { return x == a || x == b || x == d || x.empty(); }; bool o = s.set( "s", v ), p = s.set( "s", w ); XOV_COVER( "end" ); XOV_CHECK( o == good( v ) && p == good( w ), "only what is allowed" ); XOV_CHECK( s.get<string>( "s" ) == ( p ? ( w.empty() ? d : w ) : o && !v.empty() ? v : d ), "what is refused changes nothing" ); }
XOV_PROOF( type_bool ) { OPTS; file f( false ); const string v = xov::any_string( "yesno01", 3 ); prop_node sc; auto& n = sc.add_child( "b" ); n.set( "type", string( "bool" ) ); n.set( "default", string( "0" ) ); settings s( sc, path( "x.zml" ) ); bool t = v == "1" || v == "true" || v == "yes", g = v == "0" || v == "false" || v == "no", ok = s.set( "b", v ); XOV_COVER( "end" ); XOV_CHECK( ok == ( t || g || v.empty() ) && s.get<bool>( "b" ) == t, "only booleans" ); }
static char digit() { char c = xov::any_char( "0123456789a-" ); xov::assume( c != 0 ); return c; }
static bool is_digit( char c ) { return c >= '0' && c <= '9'; }
XOV_PROOF( type_int ) { OPTS; file f( false ); const char c = digit(), e = digit(); string v; v += c; v += e; prop_node sc; auto& n = sc.add_child( "i" ); n.set( "type", string( "int" ) ); n.set( "default", string( "5" ) ); settings s( sc, path( "x.zml" ) ); int x = 5; bool is = from_str( v, x ), ok = s.set( "i", v ); XOV_COVER( "end" ); XOV_CHECK( ok == is && s.get<int>( "i" ) == ( is ? x : 5 ), "only numbers" ); }
XOV_PROOF( range ) { OPTS; file f( false ); const char c = digit(), l = digit(), h = digit(); xov::assume( is_digit( c ) && is_digit( l ) && is_digit( h ) && l <= h ); prop_node sc; auto& n = sc.add_child( "r" ); n.set( "default", string( "5.0" ) ); auto& r = n.add_child( "range" ); r.add_value( string( 1, l ) ); r.add_value( string( 1, h ) ); settings s( sc, path( "x.zml" ) ); bool ok = s.set( "r", string( 1, c ) ); XOV_COVER( "end" ); const double lo = l - '0', hi = h - '0', x = c - '0'; XOV_CHECK( s.get<double>( "r" ) == ( x < lo ? lo : x > hi ? hi : x ), "restricted to the range" ); XOV_CHECK( ok, "and taken" ); }
XOV_PROOF( loads ) { OPTS; file f( xov::any_bool() ); const string d = V(), e = V(), v = V(), w = V(), x = V(); prop_node sc; sc.add_child( "s" ).set( "default", d ); auto& t = sc.add_child( "g" ).add_child( "t" ); t.set( "default", e ); t.add_child( "allowed" ).add_value( x ); f.c.set( "s", v ); f.c.add_child( "g" ).set( "t", w ); f.c.set( "u", x ); settings s( sc, path( "x.zml" ) ); XOV_COVER( "end" );
	XOV_CHECK( s.get<string>( "s" ) == ( there && !v.empty() ? v : d ) && s.get<string>( "g.t" ) == ( there && w == x && !w.empty() ? w : e ), "the settings in the file, if they are allowed" ); XOV_CHECK( !s.data().has_key( "u" ), "only settings" ); XOV_CHECK( saves == ( there ? 0 : 1 ) && f.w.empty(), "a missing file is created with the defaults" ); XOV_CHECK( s.data_file() == path( "x.zml" ), "the file is kept" ); XOV_CHECK( xov::thrown( [&] { settings n{ sc, path() }; } ), "a file is needed" );
}
XOV_PROOF( saved ) { OPTS; file f( false ); const string d = V(), v = V(); prop_node sc; sc.add_child( "g" ).add_child( "s" ).set( "default", d ); settings s( sc, path( "x.zml" ), version( 1, 2, 3 ) ); s.set( "g.s", v ); s.save( path( "y.zml" ) ); XOV_CHECK( s.data_file() == path( "y.zml" ) && saves == 2, "written to the file given" ); there = true; content = &f.w; settings r( sc, path( "y.zml" ) ); XOV_COVER( "end" ); XOV_CHECK( r.get<string>( "g.s" ) == ( v.empty() ? d : v ), "what is saved is loaded" ); XOV_CHECK( r.data_version() == version( 1, 2, 3 ), "with its version" ); }
#else
#include <cstdlib>
#include <filesystem>
#include <map>
#include <cmath>
namespace sf = std::filesystem;
// a scratch folder of its own, removed at the end
struct scratch { string dir; scratch() { char t[] = "/tmp/xov_u05_XXXXXX"; dir = mkdtemp( t ); } ~scratch() { std::error_code e; if ( dir.compare( 0, 13, "/tmp/xov_u05_" ) == 0 ) sf::remove_all( dir, e ); } path file( const char* n ) const { return path( dir + "/" + n ); } };
// everything at once, with a real file
static const char* NAMES[] = { "n", "g.r", "g.h.s", "g.h.a", "b", "v" };
XOV_BOUNDED( real_files ) {
	scratch dir; const bool given = xov::any_bool(); const version ver = given ? version( 1, 2, int( xov::any_int( 0, 3 ) ) ) : version();
	prop_node sc; auto& n = sc["n"]; n.set( "type", "int" ); n.set( "default", 3 ); auto& g = sc["g"]; auto& r = g["r"]; r.set( "type", "float" ); r.set( "default", 1.5 ); if ( xov::any_bool() ) r.set( "range", "0..2" ); else { auto& q = r["range"]; q.add_value( 0 ); q.add_value( 2 ); } auto& s = g["h"]["s"]; s.set( "type", "string" ); s.set( "default", "a b" ); auto& a = g["h"]["a"]; a.set( "default", "x" ); for ( auto x : { "x", "y", "z z" } ) a["allowed"].add_value( string( x ) ); auto& b = sc["b"]; b.set( "type", "bool" ); b.set( "default", true ); auto& v = sc["v"]; v.set( "type", "vec3" ); v.set( "default", vec3d( 1, 2, 3 ) );
	std::map<string, string> m; const auto reset = [&] { m = { { "n", "3" }, { "g.r", "1.5" }, { "g.h.s", "a b" }, { "g.h.a", "x" }, { "b", "1" } }; }; reset(); vec3d w( 1, 2, 3 ); path f = dir.file( "f.zml" ); settings* t = new settings( sc, f, ver ); XOV_CHECK( sf::exists( f.str() ), "a missing file is created" );
	const auto same = [&]( const settings& t ) { return t.get<int>( "n" ) == std::stoi( m["n"] ) && std::fabs( t.get<double>( "g.r" ) - std::stod( m["g.r"] ) ) < 1e-6 && t.get<string>( "g.h.s" ) == m["g.h.s"] && t.get<string>( "g.h.a" ) == m["g.h.a"] && t.get<bool>( "b" ) == ( m["b"] == "1" ) && t.get<vec3d>( "v" ) == w; };
	for ( size_t k = xov::any_size( 4 ); k > 0; --k ) {
		bool ok = true, expect = true; switch ( xov::any_int( 0, 7 ) ) {
		case 0: { int x = int( xov::any_int( -5, 5 ) ); ok = t->set( "n", x ); m["n"] = std::to_string( x ); break; }
		case 1: { double x = xov::any_int( -8, 16 ) / 4.0; ok = t->set( "g.r", x ); m["g.r"] = std::to_string( x < 0 ? 0.0 : x > 2 ? 2.0 : x ); break; }
		case 2: { string x = xov::any_string( "a =\"{}#\n", 3 ); ok = t->set( "g.h.s", x ); m["g.h.s"] = x.empty() ? "a b" : x; break; }
		case 3: { string x = xov::any_bool() ? string( "z z" ) : xov::any_string( "xyz", 1 ); expect = x.empty() || x == "x" || x == "y" || x == "z z"; ok = t->set( "g.h.a", x ); if ( expect ) m["g.h.a"] = x.empty() ? "x" : x; break; }
		case 4: { bool x = xov::any_bool(); ok = t->set( "b", x ); m["b"] = x ? "1" : "0"; break; }
		case 5: { const char* x = xov::any_bool() ? "x" : "-"; expect = false; switch ( xov::any_int( 0, 3 ) ) { case 0: ok = t->set( "n", string( x ) ); break; case 1: ok = t->set( "g.r", string( x ) ); break; case 2: ok = t->set( "b", string( x ) ); break; default: ok = t->set( "v", string( x ) ); } break; }
		case 6: w = vec3d( double( xov::any_int( -2, 2 ) ), 0.5, 1 ); ok = t->set( "v", w ); break;
		default: switch ( xov::any_int( 0, 2 ) ) { case 0: t->reset(); reset(); w = vec3d( 1, 2, 3 ); break; case 1: { t->save(); settings* u = new settings( sc, f, ver ); delete t; t = u; XOV_CHECK( !given || t->data_version() == ver, "the version is saved" ); break; } default: expect = false; ok = t->set( "g.h", string( "x" ) ) || t->set( "q", 1 ); } }
		XOV_CHECK( ok == expect, "what is valid is taken, the rest is refused" ); XOV_CHECK( same( *t ), "every setting is as set last, restricted to its range, or the default" );
	}
	t->save( dir.file( "g.zml" ) ); settings u( sc, dir.file( "g.zml" ) ); XOV_CHECK( same( u ), "what is saved is loaded" ); delete t;
}
#endif
