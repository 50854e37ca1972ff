#define XOV_CONCRETE
// S06: setting and getting values of property nodes (any keys and values, trees of fixed shape).
#include "xov.h"
#include "xo/container/prop_node.cpp"
#include "xo/container/prop_node_tools.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
using namespace xo;
using std::string;
// numbers in messages and "#number" queries (which the proofs leave out)
static string number_str( unsigned long ) { return xov::any_string(); }
static bool number_from( const string&, unsigned long& v ) { return false; }
XOV_STUB( to, "xo::to_str(unsigned long)", number_str, "" );
XOV_STUB( from, "xo::from_str(std::basic_string<char, std::char_traits<char>, void> const&, unsigned long&)", number_from, "" );
static string K() { return xov::any_string( "ab", 2 ); }
static string V() { return xov::any_string( "xy", 2 ); }
// N children, each with a value and a child of its own
template< size_t N > struct tree {
	string k[N + 1], v[N + 1], gk[N + 1], gv[N + 1], own; prop_node pn;
	tree( bool grand = false ) { own = V(); pn.set_value( string( own ) ); for ( size_t i = 0; i < N; ++i ) { k[i] = K(); v[i] = V(); prop_node& c = pn.add_child( k[i] ); c.set_value( string( v[i] ) ); if ( grand ) { gk[i] = K(); gv[i] = V(); c.add_child( gk[i] ).set_value( string( gv[i] ) ); } } }
	int find( const string& x ) const { for ( size_t i = 0; i < N; ++i ) if ( k[i] == x ) return int( i ); return -1; }
	void same( const prop_node& p, int except = -1 ) const { XOV_CHECK( p.peek_str() == own, "the own value is kept" ); for ( size_t i = 0; i < N; ++i ) if ( int( i ) != except ) XOV_CHECK( p.at( i ).first == k[i] && p.at( i ).second.peek_str() == v[i], "the other children are kept" ); else XOV_CHECK( p.at( i ).first == k[i], "its key is kept" ); }
};
template< size_t N > static void lookup() {
	tree<N> t; const string x = K(); const int j = t.find( x ); const prop_node& c = t.pn; XOV_COVER( "end" ); XOV_CHECK( c.size() == N, "one child for each added" ); XOV_CHECK( c.empty() == ( N == 0 && t.own.empty() ) && c.has_value() == !t.own.empty(), "empty without value and children" );
	auto* p = c.try_get_child( x ); XOV_CHECK( p == ( j < 0 ? nullptr : &c.at( size_t( j ) ).second ), "the first child with the key" ); XOV_CHECK( t.pn.try_get_child( x ) == p && c.has_key( x ) == ( j >= 0 ), "lookup and membership agree" );
	XOV_CHECK( c.has_value( x ) == ( j >= 0 && !t.v[j < 0 ? 0 : j].empty() ), "a child has a value unless it is empty" ); size_t n = 0; for ( size_t i = 0; i < N; ++i ) n += t.k[i] == x ? 1 : 0; XOV_CHECK( c.count_key( x ) == n, "count of a key" );
	const prop_node* g = nullptr; bool th = xov::thrown( [&] { g = &c.get_child( x ); } ); XOV_CHECK( th == ( j < 0 ) && ( th || g == p ), "a missing child is refused" ); t.same( c );
}
XOV_PROOF( lookup0 ) { lookup<0>(); }
XOV_PROOF( lookup1 ) { lookup<1>(); }
XOV_PROOF( lookup2 ) { lookup<2>(); }
XOV_PROOF( lookup3 ) { lookup<3>(); }
template< size_t N > static void by_index() {
	tree<N> t; size_t i = N + xov::any_size( 4 ); const prop_node& c = t.pn; const prop_node* g = nullptr; bool th = xov::thrown( [&] { g = &c.get_child( i ); } ); XOV_COVER( "end" ); XOV_CHECK( th, "an index out of range is refused" ); XOV_CHECK( xov::thrown( [&] { t.pn.get_child( i ); } ) && xov::thrown( [&] { c[i]; } ), "also for writing" );
	for ( size_t j = 0; j < N; ++j ) { g = &c.get_child( j ); XOV_CHECK( g == &c.at( j ).second && &c[j] == g && &t.pn[j] == g, "child by index" ); XOV_CHECK( c.get_key( j ) == t.k[j], "key by index" ); XOV_CHECK( g->get_str() == t.v[j] && c[j].template get<string>() == t.v[j], "value by index" ); }
}
XOV_PROOF( by_index0 ) { by_index<0>(); }
XOV_PROOF( by_index3 ) { by_index<3>(); }
template< size_t N > static void setting() {
	tree<N> t; const string x = K(), w = V(); const int j = t.find( x ); prop_node& r = t.pn.set( x, w ); XOV_COVER( "end" ); XOV_CHECK( t.pn.size() == N + ( j < 0 ? 1 : 0 ), "a child is added only if there is none" ); t.same( t.pn, j );
	XOV_CHECK( &r == &t.pn.at( j < 0 ? N : size_t( j ) ).second && t.pn.at( j < 0 ? N : size_t( j ) ).first == x && r.peek_str() == w, "the first child with the key gets the value" ); XOV_CHECK( t.pn.template get<string>( x ) == w, "getting returns what was set" );
}
XOV_PROOF( setting0 ) { setting<0>(); }
XOV_PROOF( setting1 ) { setting<1>(); }
XOV_PROOF( setting3 ) { setting<3>(); }
template< size_t N > static void typed() {
	tree<N> t; const string x = K(), d = V(); const int j = t.find( x ); const prop_node& c = t.pn; const string e = j < 0 ? string() : t.v[j]; XOV_COVER( "end" ); XOV_CHECK( c.template get<string>( x, d ) == ( j < 0 ? d : e ), "value or default" );
	auto o = c.template try_get<string>( x ); XOV_CHECK( bool( o ) == ( j >= 0 ) && ( !o || *o == e ), "optional value" ); string s = d; bool b = c.try_get( s, x ); XOV_CHECK( b == ( j >= 0 ) && s == ( b ? e : d ), "stored only if it exists" ); 
	string g; bool th = xov::thrown( [&] { g = c.template get<string>( x ); } ); XOV_CHECK( th == ( j < 0 ) && ( th || g == e ), "a missing value is refused" );
}
XOV_PROOF( typed0 ) { typed<0>(); }
XOV_PROOF( typed1 ) { typed<1>(); }
XOV_PROOF( typed2 ) { typed<2>(); }
XOV_PROOF( any_of ) { // the first key that exists
	tree<2> t; const string x = K(), y = K(), d = V(); const int i = t.find( x ), j = t.find( y ), f = i >= 0 ? i : j; const prop_node& c = t.pn; XOV_COVER( "end" ); XOV_CHECK( c.has_any_key( { x, y } ) == ( f >= 0 ), "any key" ); XOV_CHECK( c.try_get_any_child( { x, y } ) == ( f < 0 ? nullptr : &c.at( size_t( f ) ).second ), "child of the first key that exists" );
	XOV_CHECK( c.template get_any<string>( { x, y }, d ) == ( f < 0 ? d : t.v[f] ), "its value or the default" ); auto o = c.try_get_any<string>( { x, y } ); XOV_CHECK( bool( o ) == ( f >= 0 ) && ( !o || *o == t.v[f] ), "optional value" ); 
}
XOV_PROOF( any_of_missing ) { tree<1> t; const string x = K(), y = K(); const prop_node& c = t.pn; bool th = xov::thrown( [&] { c.get_any_child( { x, y } ); } ); XOV_COVER( "end" ); XOV_CHECK( th == ( t.k[0] != x && t.k[0] != y ), "refused if none exists" ); }
XOV_PROOF( all_values ) { tree<3> t; const string x = K(); auto v = t.pn.get_all<string>( x ); size_t n = 0; XOV_COVER( "end" ); for ( size_t i = 0; i < 3; ++i ) if ( t.k[i] == x ) { XOV_CHECK( n < v.size() && v[n] == t.v[i], "every value of the key, in order" ); ++n; } XOV_CHECK( v.size() == n, "nothing else" ); }
XOV_PROOF( get_or_add ) {
	tree<2> t; const string x = K(); const int j = t.find( x ); prop_node& r = t.pn[x]; XOV_COVER( "end" ); XOV_CHECK( t.pn.size() == ( j < 0 ? 3 : 2 ) && &r == &t.pn.at( j < 0 ? 2 : size_t( j ) ).second, "the child, added if there is none" ); XOV_CHECK( j >= 0 || ( t.pn.at( 2 ).first == x && r.empty() ), "a new child is empty" ); t.same( t.pn );
}
XOV_PROOF( adding ) {
	tree<1> t; const string x = K(), w = V(); prop_node& r = t.pn.add_key_value( x, w ); XOV_CHECK( &r == &t.pn.at( 1 ).second && t.pn.size() == 2 && t.pn.at( 1 ).first == x && r.peek_str() == w, "a pair is added at the end" ); t.same( t.pn );
	t.pn.add_value( w ); XOV_CHECK( t.pn.size() == 3 && t.pn.at( 2 ).first.empty() && t.pn.at( 2 ).second.peek_str() == w, "a value without key" ); prop_node& e = t.pn.add_child(); XOV_COVER( "end" ); XOV_CHECK( t.pn.size() == 4 && &e == &t.pn.at( 3 ).second && e.empty() && t.pn.at( 3 ).first.empty(), "an empty child" ); t.same( t.pn );
}
XOV_PROOF( adding_many ) { tree<1> t; const string x = K(), w = V(); t.pn.add_children( 2, x, w ); XOV_COVER( "end" ); XOV_CHECK( t.pn.size() == 3, "two more" ); for ( size_t i = 1; i < 3; ++i ) XOV_CHECK( t.pn.at( i ).first == x && t.pn.at( i ).second.peek_str() == w && t.pn.at( i ).second.size() == 0, "with key and value" ); t.same( t.pn ); }
XOV_PROOF( arrays ) { // values without key
	std::vector<string> v; for ( size_t i = 0; i < 3; ++i ) v.push_back( V() ); prop_node p; p.set( v ); XOV_COVER( "end" ); XOV_CHECK( p.size() == 3 && p.is_array(), "one child for each element" ); auto w = p.get< std::vector<string> >(); XOV_CHECK( w == v, "a list is given back" ); auto a = p.get< std::array<string, 2> >(); XOV_CHECK( a[0] == v[0] && a[1] == v[1], "as far as the target has room" );
}
XOV_PROOF( is_array ) { tree<2> t; XOV_COVER( "end" ); XOV_CHECK( t.pn.is_array() == ( t.k[0].empty() && t.k[1].empty() ), "an array has no keys" ); }
XOV_PROOF( clearing ) { tree<2> t( true ); t.pn.clear(); XOV_COVER( "end" ); XOV_CHECK( t.pn.empty() && t.pn.size() == 0 && !t.pn.has_value(), "nothing is left" ); }
XOV_PROOF( own_value ) { tree<2> t; const string w = V(); t.pn.set_value( w ); XOV_COVER( "end" ); XOV_CHECK( t.pn.get<string>() == w && t.pn.get_str() == w, "the value is set" ); t.own = w; t.same( t.pn ); t.pn = w; XOV_CHECK( t.pn.size() == 0 && t.pn.peek_str() == w, "assigning a value replaces everything" ); }
XOV_PROOF( counting ) { tree<2> t( true ); XOV_COVER( "end" ); XOV_CHECK( t.pn.count_children() == 4 && t.pn.count_layers() == 2, "children and layers" ); prop_node e; XOV_CHECK( e.count_children() == 0 && e.count_layers() == 0, "of an empty node" ); t.pn.at( 1 ).second.at( 0 ).second.add_child( "c" ); XOV_CHECK( t.pn.count_children() == 5 && t.pn.count_layers() == 3, "one deeper" ); }
XOV_PROOF( access_flags ) { // values that were not read
	tree<2> t( true ); const prop_node& c = t.pn; c.set_accessed_recursively( false ); size_t n = 0; n += t.own.empty() ? 0 : 1; for ( size_t i = 0; i < 2; ++i ) n += ( t.v[i].empty() ? 0 : 1 ) + ( t.gv[i].empty() ? 0 : 1 ); XOV_CHECK( c.count_unaccessed() == n, "all values are unread" );
	c.at( 0 ).second.get_str(); size_t m = n - ( t.v[0].empty() ? 0 : 1 ); XOV_CHECK( c.count_unaccessed() == m && c.at( 0 ).second.is_accessed(), "reading a value marks it" ); c.at( 1 ).second.peek_str(); XOV_CHECK( c.count_unaccessed() == m, "peeking does not" ); c.set_accessed_recursively( true ); XOV_COVER( "end" ); XOV_CHECK( c.count_unaccessed() == 0, "everything is marked" );
}
static string key() { char c = xov::any_char( "ab" ); xov::assume( c != '#' && c != '.' && c != 0 ); return string( { c } ); }
XOV_PROOF( query_set ) { // a path of keys
	const string a = key(), b = key(), w = V(); prop_node p; p.set_query( a + "." + b, w ); XOV_COVER( "end" ); XOV_CHECK( p.size() == 1 && p.at( 0 ).first == a && p.at( 0 ).second.size() == 1 && p.at( 0 ).second.at( 0 ).first == b && p.at( 0 ).second.at( 0 ).second.peek_str() == w, "the path is added" );
	XOV_CHECK( p.try_get_query( a + "." + b ) == &p.at( 0 ).second.at( 0 ).second, "and found" );
}
XOV_PROOF( query_get ) {
	tree<2> t( true ); const string a = key(), b = key(); const prop_node& c = t.pn; const int i = t.find( a ); const prop_node* e = i < 0 || t.gk[i] != b ? nullptr : &c.at( size_t( i ) ).second.at( 0 ).second; auto* r = c.try_get_query( a + "." + b ); XOV_COVER( "end" ); XOV_CHECK( r == e, "the child of the first child" ); XOV_CHECK( c.try_get_query( a ) == ( i < 0 ? nullptr : &c.at( size_t( i ) ).second ), "a single key" );
}
XOV_BOUNDED( queries ) { // longer paths, indices, erasing
	prop_node p; std::vector<string> q; for ( int i = 0; i < 3; ++i ) { string s = xov::any_string( "ab", 1 ); for ( size_t n = xov::any_size( 2 ); n > 0; --n ) s += "." + xov::any_string( "ab", 1 ); string v = std::to_string( i ); p.set_query( s, v ); XOV_CHECK( p.try_get_query( s ) && p.try_get_query( s )->peek_str() == v, "found what was set" ); q.push_back( s ); }
	string x = q[2]; /* assigning a node replaces what is below it */ auto* n = p.try_get_query( x ); XOV_COVER( "end" ); auto par = p.try_find_parent( *n ); XOV_CHECK( par.first && &par.first->at( par.second ).second == n, "parent and index" ); 
	for ( size_t i = 0; i < p.size(); ++i ) XOV_CHECK( p.try_get_query( "#" + std::to_string( i + 1 ) ) == &p.at( i ).second, "by number" ); XOV_CHECK( !p.try_get_query( "#0" ) && !p.try_get_query( "#" + std::to_string( p.size() + 1 ) ) && !p.try_get_query( "#" ) && !p.try_get_query( "#-1" ), "no such number" );
	size_t before = p.count_children(), sub = n->count_children() + 1; XOV_CHECK( p.erase_query( x ), "erased" ); XOV_CHECK( p.count_children() == before - sub, "with everything below it" );
}
XOV_BOUNDED( path_of_node ) { prop_node p; string s = "a"; p.set( "a", 1 ); p.set_query( "b.a", 2 ); p.set_query( "b.b.c", 3 ); const char* q[] = { "a", "b", "b.a", "b.b", "b.b.c" }; size_t i = size_t( xov::any_int( 0, 4 ) ); auto* n = p.try_get_query( q[i] ); XOV_COVER( "end" ); XOV_CHECK( n && make_prop_node_query( p, *n ) == q[i], "query of a node" ); auto r = find_query_to_node( &p, n ); XOV_CHECK( r.first && r.second == q[i], "path to a node" ); prop_node o; XOV_CHECK( !find_query_to_node( &p, &o ).first && make_prop_node_query( p, o ).empty(), "a node that is not below" ); }
