#define XOV_CONCRETE
// S11: property nodes as text for display: every item once, in order, indented by depth, values aligned; unread items; inline form.
#include "xov.h"
#ifndef XOV_SYM
#include <sstream>
#include "xo/system/log_sink.h"
#endif
#include "xo/container/prop_node.cpp"
#include "xo/container/prop_node_tools.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
using namespace xo;
using std::string;
static string number_str( unsigned long ) { return xov::any_string(); }
XOV_STUB( to, "xo::to_str(unsigned long)", number_str, "" );
static string K() { return xov::any_string( "ab", 2 ); }
static string V() { return xov::any_string( "xy", 2 ); }
// texts of a fixed length, any characters
static string fixed( size_t n ) { string s = xov::any_string( "abxy", 2 ); xov::assume( s.size() == n ); return s; }
static size_t top( size_t a, size_t b ) { return a > b ? a : b; }
XOV_PROOF( width ) {
	const string a = K(), b = K(), c = K(); prop_node p; p.add_child( a ).add_child( b ); p.add_child( c ); size_t d = xov::any_size( 3 ), i = xov::any_size( 3 ); xov::assume( d < 1000 && i < 1000 ); XOV_COVER( "end" );
	XOV_CHECK( prop_node_align_width( p, 2, 0 ) == top( top( a.size(), c.size() ), 2 + b.size() ), "the width of the longest key with its indent" ); XOV_CHECK( prop_node_align_width( prop_node(), i, d ) == 0, "nothing is as wide as nothing" );
	prop_node q; q.add_child( a ); XOV_CHECK( prop_node_align_width( q, i, d ) == d * i + a.size(), "the indent counts for each layer" );
}
static string shown( const string& k, const string& v, size_t w ) { return k + string( w - k.size(), ' ' ) + " = " + v + "\n"; }
XOV_PROOF( listed_one ) { const string k = K(), v = V(); xov::assume( !k.empty() ); prop_node p; p.add_child( k ).set_value( string( v ) ); string s = to_str( p ); XOV_COVER( "end" ); XOV_CHECK( s == k + " = " + v + "\n", "key and value" ); }
XOV_PROOF( listed_two ) { const string a = fixed( 2 ), b = fixed( 1 ), v = V(), w = fixed( 1 );  prop_node p; p.add_child( a ).set_value( string( v ) ); p.add_child( b ).set_value( string( w ) ); size_t n = top( a.size(), b.size() ); string s = to_str( p ); XOV_COVER( "end" ); XOV_CHECK( s == shown( a, v, n ) + shown( b, w, n ), "in order, aligned" ); }
XOV_PROOF( inline_value ) { const string v = V(); prop_node p; p.set_value( string( v ) ); XOV_COVER( "end" ); XOV_CHECK( make_str_from_prop_node( p ) == v, "a value is its text" ); }
XOV_PROOF( inline_group ) { const string k = fixed( 1 ), v = V(), o = xov::any_bool() ? fixed( 1 ) : string(), w = fixed( 1 ), l = fixed( 1 ); prop_node p; p.set_value( string( o ) ); p.add_child( k ).set_value( string( v ) ); p.add_child( l ).set_value( string( w ) ); string s = make_str_from_prop_node( p ); XOV_COVER( "end" ); XOV_CHECK( s == ( o.empty() ? "" : o + " " ) + "{ " + k + " = " + v + " " + l + " = " + w + " }", "a group in braces, behind its own value" ); }
XOV_PROOF( inline_array ) { const string v = V(), w = V(); prop_node p; p.add_child( "" ).set_value( string( v ) ); p.add_child( "" ).set_value( string( w ) ); string s = make_str_from_prop_node( p ); XOV_COVER( "end" ); XOV_CHECK( s == "[ " + v + " " + w + " ]", "an array in brackets" ); }
XOV_PROOF( inline_nested ) { const string k = K(), v = V(); xov::assume( !k.empty() ); prop_node p; p.add_child( k ).add_child( "" ).set_value( string( v ) ); string s = make_str_from_prop_node( p ); XOV_COVER( "end" ); XOV_CHECK( s == "{ " + k + " = [ " + v + " ] }", "nested" ); }
XOV_PROOF( unread ) {
	const string a = fixed( 1 ), b = fixed( 2 ), v = fixed( 1 ), w = fixed( 1 ); prop_node p; p.add_child( a ).set_value( string( v ) ); p.add_child( b ).set_value( string( w ) ); bool ra = xov::any_bool(), rb = xov::any_bool(); if ( ra ) p.at( 0 ).second.access(); if ( rb ) p.at( 1 ).second.access();
	string s = to_str_unaccessed( p ); XOV_COVER( "end" ); auto line = []( bool r, const string& k, const string& v ) { return r ? string() : k + ( v.empty() ? "" : " = " + v ) + " *\n"; }; XOV_CHECK( s == line( ra, a, v ) + line( rb, b, w ), "exactly the values that were not read" );
}
#ifndef XOV_SYM
// ---------------------------------------------------------------- whole trees
static void grow( prop_node& p, int depth, bool levels = false ) { int n = int( xov::any_int( 0, 3 ) ); for ( int i = 0; i < n; ++i ) { string k = xov::any_string( "abc", 3 ); if ( levels && k.size() > 1 && xov::any_bool() ) k = "@" + std::to_string( xov::any_int( 1, 6 ) ) + k; auto& c = p.add_child( k ); if ( xov::any_bool() ) c.set_value( xov::any_string( "xy", 2 ) ); if ( depth > 1 ) grow( c, depth - 1, levels ); } }
static prop_node any_tree( bool levels = false ) { prop_node p; grow( p, 3, levels ); return p; }
struct item { int depth; string key, value; bool has_value, leaf, read; const prop_node* node; size_t index; };
static void flat( const prop_node& p, int depth, std::vector< item >& r ) { for ( size_t i = 0; i < p.size(); ++i ) { auto& c = p.get_child( i ); r.push_back( { depth, p.get_key( i ), c.peek_str(), c.has_value(), c.size() == 0, c.is_accessed(), &c, i } ); flat( c, depth + 1, r ); } }
static std::vector< item > items( const prop_node& p ) { std::vector< item > r; flat( p, 0, r ); return r; }
static size_t widest( const std::vector< item >& v, size_t indent = 2, size_t depth = 0 ) { size_t w = 0; for ( auto& i : v ) w = std::max( w, ( depth + i.depth ) * indent + i.key.size() ); return w; }
XOV_BOUNDED( width_tree ) { prop_node p = any_tree(); size_t i = xov::any_size( 4 ), d = xov::any_size( 3 ); XOV_CHECK( prop_node_align_width( p, i, d ) == widest( items( p ), i, d ), "the widest key at any depth" ); }
XOV_BOUNDED( listed_tree ) { prop_node p = any_tree(); auto v = items( p ); size_t w = widest( v ); string e; for ( auto& i : v ) { string k = string( i.depth * 2, ' ' ) + i.key; e += k; if ( i.has_value || i.leaf ) e += string( w - k.size(), ' ' ) + " = " + i.value; e += "\n"; } XOV_CHECK( to_str( p ) == e, "each item once, in order, indented and aligned" ); std::ostringstream o; to_stream( o, p, 0, w + 2 ); XOV_CHECK( v.empty() == o.str().empty(), "also with a given width" ); }
static bool some_unread( const prop_node& p ) { if ( !p.is_accessed() ) return true; for ( auto& c : p ) if ( some_unread( c.second ) ) return true; return false; }
static void read_some( const prop_node& p ) { for ( auto& c : p ) { if ( xov::any_bool() ) c.second.access(); read_some( c.second ); } }
static std::vector< string > unread_lines( const prop_node& p ) { std::vector< string > r; for ( auto& i : items( p ) ) if ( i.node->count_unaccessed() > 0 ) { r.push_back( string( i.depth * 2, ' ' ) + i.key + ( i.read ? "" : ( i.has_value ? " = " + i.value : "" ) + " *" ) ); } return r; }
XOV_BOUNDED( unread_tree ) { prop_node p = any_tree(); read_some( p ); for ( auto& i : items( p ) ) XOV_CHECK( ( i.node->count_unaccessed() > 0 ) == some_unread( *i.node ), "counted below" ); string e; for ( auto& l : unread_lines( p ) ) e += l + "\n"; XOV_CHECK( to_str_unaccessed( p ) == e, "the items not read, and what they are in" ); }
struct record : log::sink { std::vector< std::pair< log::level, string > > got; record() : sink( log::level::trace, {} ) {} void hande_log_message( log::level l, const string& s ) override { got.push_back( { l, s } ); } };
XOV_BOUNDED( unread_logged ) { prop_node p = any_tree(); read_some( p ); record r; auto l = log::level( int( xov::any_int( 1, 6 ) ) ); log_unaccessed( p, l, 0 ); auto v = unread_lines( p ); XOV_CHECK( r.got.size() == v.size(), "as many messages" ); for ( size_t i = 0; i < v.size(); ++i ) XOV_CHECK( r.got[i].first == l && r.got[i].second == v[i], "the same to the log" ); }
XOV_BOUNDED( logged ) { prop_node p = any_tree( true ); auto v = items( p ); size_t w = widest( v ); record r; log_prop_node( p, 2, 0, 0 ); XOV_CHECK( r.got.size() == v.size(), "a message for each item" ); for ( size_t i = 0; i < v.size(); ++i ) { bool at = v[i].key[0] == '@'; string s = string( v[i].depth * 2, ' ' ) + ( at ? v[i].key.substr( 2 ) : v[i].key ); if ( v[i].has_value || v[i].leaf ) s += string( w - s.size(), ' ' ) + " = " + v[i].value; XOV_CHECK( r.got[i].second == s && r.got[i].first == ( at ? log::level( v[i].key[1] - '0' ) : log::level::info ), "in order, at its level" ); } }
static string in_line( const prop_node& p ) { string s = p.peek_str(); if ( p.size() == 0 ) return s; bool a = true; for ( auto& c : p ) a &= c.first.empty(); if ( !s.empty() ) s += ' '; s += a ? "[" : "{"; for ( auto& c : p ) { s += ' '; if ( !a ) s += c.first + " = "; s += in_line( c.second ); } return s + ( a ? " ]" : " }" ); }
XOV_BOUNDED( inline_tree ) { prop_node p; if ( xov::any_bool() ) p.set_value( xov::any_string( "xy", 2 ) ); grow( p, 3 ); XOV_CHECK( make_str_from_prop_node( p ) == in_line( p ), "groups and arrays to any depth" ); }
XOV_BOUNDED( queried ) { // the path to an item
	prop_node p = any_tree(); auto v = items( p ); std::vector< string > at; for ( auto& i : v ) { at.resize( i.depth ); string q; for ( auto& a : at ) q += a + "."; q += i.key; at.push_back( i.key ); bool named = true; for ( auto& a : at ) named &= !a.empty(); if ( !named ) continue; XOV_CHECK( make_prop_node_query( p, *i.node ) == q, "keys from the root, with dots" ); auto f = find_query_to_node( &p, i.node, '/' ); for ( auto& c : q ) if ( c == '.' ) c = '/'; XOV_CHECK( f.first && f.second == q, "or another separator" ); } prop_node other; XOV_CHECK( !find_query_to_node( &p, &other, '/' ).first && make_prop_node_query( p, other ).empty(), "not for other nodes" );
}
#endif
