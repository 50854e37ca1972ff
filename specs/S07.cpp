#define XOV_CONCRETE
// S07: copying, comparing, merging, appending and removing property nodes (any keys and values, trees of fixed shape).
#include "xov.h"
#include "xo/container/prop_node.cpp"
#include "xo/container/prop_node_tools.cpp"
#include "xo/string/string_tools.cpp"
#include "xo/string/string_cast.cpp"
using namespace xo;
using std::string;
static string K() { return xov::any_string( "ab", 1 ); }
static string V() { return xov::any_string( "xy", 1 ); }
// N children, each with a value and G children of its own
template< size_t N, size_t G > static prop_node tree() { prop_node p( V() ); for ( size_t i = 0; i < N; ++i ) { prop_node& c = p.add_child( K() ); c.set_value( V() ); for ( size_t j = 0; j < G; ++j ) c.add_child( K() ).set_value( V() ); } return p; }
// independent definition of equality (and of the shape)
static bool equal( const prop_node& a, const prop_node& b ) { if ( a.size() != b.size() || a.peek_str() != b.peek_str() ) return false; for ( size_t i = 0; i < a.size(); ++i ) if ( a.at( i ).first != b.at( i ).first || !equal( a.at( i ).second, b.at( i ).second ) ) return false; return true; }
static int find( const prop_node& p, const string& k ) { for ( size_t i = 0; i < p.size(); ++i ) if ( p.at( i ).first == k ) return int( i ); return -1; }
template< size_t N, size_t G > static void copying() {
	prop_node p = tree<N, G>(); prop_node q( p ); XOV_CHECK( equal( p, q ), "a copy has the same content" ); prop_node r; r = p; XOV_CHECK( equal( p, r ), "also by assignment" ); prop_node o( p ); q.set_value( V() + "!" ); q.add_child( "x" ); XOV_CHECK( equal( p, o ), "changing the copy leaves the original alone" );
	if ( N > 0 ) { r.at( 0 ).second.set_value( V() ); r.at( 0 ).second.add_child( "y" ); XOV_CHECK( equal( p, o ), "also below" ); } prop_node m( std::move( p ) ); XOV_COVER( "end" ); XOV_CHECK( equal( m, o ), "moving keeps the content" ); p = std::move( m ); XOV_CHECK( equal( p, o ), "also by assignment" ); p = *&p; XOV_CHECK( equal( p, o ), "self-assignment" );
}
XOV_PROOF( copying0 ) { copying<0, 0>(); }
XOV_PROOF( copying1 ) { copying<1, 1>(); }
XOV_PROOF( copying2 ) { copying<2, 1>(); }
XOV_PROOF( child_to_parent ) { prop_node p = tree<2, 1>(); const prop_node c( p.at( 1 ).second ); p = p.at( 1 ).second; XOV_COVER( "end" ); XOV_CHECK( equal( p, c ), "a node can be replaced by one of its children" ); }
XOV_PROOF( child_to_parent_first ) { prop_node p = tree<2, 2>(); const prop_node c( p.at( 0 ).second ); p = p.at( 0 ).second; XOV_COVER( "end" ); XOV_CHECK( equal( p, c ), "a node can be replaced by its first child" ); }
XOV_PROOF( child_moved_to_parent ) { prop_node p = tree<2, 1>(); const prop_node c( p.at( 0 ).second ); p = std::move( p.at( 0 ).second ); XOV_COVER( "end" ); XOV_CHECK( equal( p, c ), "also when moving the child" ); }
XOV_PROOF( parent_to_child ) { prop_node p = tree<2, 1>(); const prop_node o( p ); p.at( 0 ).second = p; XOV_COVER( "end" ); XOV_CHECK( equal( p.at( 0 ).second, o ), "a node can be copied into its child" ); }
template< size_t N, size_t M > static void equality() { prop_node p = tree<N, 1>(), q = tree<M, 1>(); bool e = p == q; XOV_COVER( "end" ); XOV_CHECK( e == equal( p, q ), "equal exactly if values, keys, order and children are" ); XOV_CHECK( ( q == p ) == e && ( p != q ) == !e && p == p, "symmetric, reflexive, and opposite to different" ); }
XOV_PROOF( equality0 ) { equality<0, 0>(); }
XOV_PROOF( equality1 ) { equality<1, 1>(); }
XOV_PROOF( equality2 ) { equality<2, 2>(); }
XOV_PROOF( equality12 ) { equality<1, 2>(); }
XOV_PROOF( appending ) {
	prop_node p = tree<1, 1>(), q = tree<2, 1>(); const prop_node o( p ), s( q ); p.append( q ); XOV_COVER( "end" ); XOV_CHECK( p.size() == 3 && p.peek_str() == o.peek_str() && equal( q, s ), "the children are copied behind the existing ones" ); XOV_CHECK( p.at( 0 ).first == o.at( 0 ).first && equal( p.at( 0 ).second, o.at( 0 ).second ), "which are kept" );
	for ( size_t i = 0; i < 2; ++i ) XOV_CHECK( p.at( i + 1 ).first == s.at( i ).first && equal( p.at( i + 1 ).second, s.at( i ).second ), "in order" ); prop_node m( o ); m.append( std::move( q ) ); XOV_CHECK( equal( m, p ), "moving them gives the same" );
}
XOV_PROOF( inserting ) { prop_node p = tree<2, 0>(), q = tree<2, 0>(); const prop_node o( p ); const prop_node& s = q; p.insert( p.begin() + 1, s.begin(), s.begin() + 2 ); XOV_COVER( "end" ); XOV_CHECK( p.size() == 4, "two more" ); const size_t from[] = { 0, 2, 3, 1 }; for ( size_t i = 0; i < 4; ++i ) { const auto& e = from[i] < 2 ? o.at( from[i] ) : s.at( from[i] - 2 ); XOV_CHECK( p.at( i ).first == e.first && equal( p.at( i ).second, e.second ), "at the position" ); } }
template< size_t N > static void erasing() {
	prop_node p = tree<N, 1>(); const prop_node o( p ); const string k = K(); const int j = find( o, k ); bool b = p.erase( k ); XOV_COVER( "end" ); XOV_CHECK( b == ( j >= 0 ) && p.size() == N - ( b ? 1 : 0 ), "one child is removed if there is one" ); XOV_CHECK( p.peek_str() == o.peek_str(), "the value is kept" );
	for ( size_t i = 0; i < p.size(); ++i ) { const auto& e = o.at( j >= 0 && int( i ) >= j ? i + 1 : i ); XOV_CHECK( p.at( i ).first == e.first && equal( p.at( i ).second, e.second ), "all others are kept in order" ); }
}
XOV_PROOF( erasing0 ) { erasing<0>(); }
XOV_PROOF( erasing1 ) { erasing<1>(); }
XOV_PROOF( erasing3 ) { erasing<3>(); }
XOV_PROOF( popping ) { prop_node p = tree<2, 1>(); const prop_node o( p ); XOV_CHECK( &p.back() == &p.at( 1 ) && &p.front() == &p.at( 0 ), "front and back" ); p.pop_back(); XOV_COVER( "end" ); XOV_CHECK( p.size() == 1 && p.at( 0 ).first == o.at( 0 ).first && equal( p.at( 0 ).second, o.at( 0 ).second ), "the last child is removed" ); }
// merging, one level: children of the other node are added unless there are children with their key
template< size_t N > static void merging() {
	prop_node p = tree<N, 0>(), q; const string k = K(), v = V(), w = V(); q.set_value( string( w ) ); q.add_child( k ).set_value( string( v ) ); const prop_node o( p ); const bool over = xov::any_bool(); const int j = find( o, k ); p.merge( q, over ); XOV_COVER( "end" );
	XOV_CHECK( p.size() == N + ( j < 0 ? 1 : 0 ), "a missing child is added" ); XOV_CHECK( p.peek_str() == ( over ? w : o.peek_str() ), "the value is replaced on request" ); for ( size_t i = 0; i < N; ++i ) { XOV_CHECK( p.at( i ).first == o.at( i ).first, "keys and order are kept" ); XOV_CHECK( p.at( i ).second.peek_str() == ( over && int( i ) == j ? v : o.at( i ).second.peek_str() ), "values are replaced only on request, and only those of the key" ); }
	if ( j < 0 ) XOV_CHECK( p.at( N ).first == k && p.at( N ).second.peek_str() == v, "the added child" );
}
XOV_PROOF( merging0 ) { merging<0>(); }
XOV_PROOF( merging1 ) { merging<1>(); }
XOV_PROOF( merging2 ) { merging<2>(); }
XOV_PROOF( merging_deep ) { // recursively
	prop_node p, q; const string k = K(), a = K(), b = K(), x = V(), y = V(); p[k][a].set_value( string( x ) ); q[k][b].set_value( string( y ) ); const bool over = xov::any_bool(); p.merge( q, over ); XOV_COVER( "end" ); XOV_CHECK( p.size() == 1 && p.at( 0 ).first == k, "the common child is merged" ); const prop_node& c = p.at( 0 ).second; XOV_CHECK( c.size() == ( a == b ? 1 : 2 ) && c.at( 0 ).first == a, "its children too" );
	XOV_CHECK( c.at( 0 ).second.peek_str() == ( a == b && over ? y : x ), "kept or replaced" ); if ( a != b ) XOV_CHECK( c.at( 1 ).first == b && c.at( 1 ).second.peek_str() == y, "added" );
}
XOV_PROOF( merging_twice ) { prop_node p = tree<1, 1>(), q = tree<2, 1>(); const bool over = xov::any_bool(); p.merge( q, over ); prop_node r( p ); r.merge( q, over ); XOV_COVER( "end" ); XOV_CHECK( equal( p, r ) || equal( q.at( 0 ).second, q.at( 1 ).second ) || q.at( 0 ).first == q.at( 1 ).first, "merging again changes nothing (keys being unique)" ); }
XOV_PROOF( deep_search ) { // depth first
	prop_node p; const string k1 = K(), k2 = K(), g1 = K(), x = K(); p.add_child( k1 ).add_child( g1 ); p.add_child( k2 ); const prop_node& c = p; auto* r = c.try_find_child_recursively( x ); XOV_COVER( "end" ); XOV_CHECK( r == ( k1 == x ? &c.at( 0 ).second : g1 == x ? &c.at( 0 ).second.at( 0 ).second : k2 == x ? &c.at( 1 ).second : nullptr ), "the first child with the key, children before siblings" );
}
XOV_PROOF( parent_search ) { prop_node p = tree<2, 1>(); const prop_node& c = p; XOV_COVER( "end" ); for ( size_t i = 0; i < 2; ++i ) { auto r = c.try_find_parent( c.at( i ).second ); XOV_CHECK( r.first == &c && r.second == i, "parent and index of a child" ); auto g = c.try_find_parent( c.at( i ).second.at( 0 ).second ); XOV_CHECK( g.first == &c.at( i ).second && g.second == 0, "of a grandchild" ); } XOV_CHECK( c.try_find_parent( c ).first == nullptr, "a node is not its own child" ); }
template< int M > static void selecting() { // every pattern of matching and other keys
	prop_node p; for ( int i = 0; i < 3; ++i ) p.add_child( ( M >> i ) & 1 ? "a" : "b" ).set_value( V() ); const prop_node& c = p; size_t at = 0, n = 0; bool ok = true; auto v = c.select( "a" );
	for ( auto it = v.begin(); it != v.end(); ++it ) { while ( at < 3 && !( ( M >> at ) & 1 ) ) ++at; ok &= at < 3 && &*it == &c.at( at ); ++at; ++n; } size_t all = 0; for ( int i = 0; i < 3; ++i ) all += ( M >> i ) & 1; XOV_COVER( "end" ); XOV_CHECK( ok && n == all && n == c.count_key( "a" ), "exactly the children with the key, in order" );
}
XOV_PROOF( selecting ) { selecting<0>(); selecting<1>(); selecting<2>(); selecting<3>(); selecting<4>(); selecting<5>(); selecting<6>(); selecting<7>(); }
static prop_node any_tree( int depth ) { prop_node p( V() ); if ( depth > 0 ) for ( size_t n = size_t( xov::any_int( 0, 2 ) ); n > 0; --n ) p.add_child( K(), any_tree( depth - 1 ) ); return p; }
XOV_BOUNDED( any_trees ) {
	prop_node p = any_tree( 3 ), q = any_tree( 2 ); XOV_COVER( "end" ); XOV_CHECK( ( p == q ) == equal( p, q ), "equality" ); prop_node c( p ); XOV_CHECK( c == p && equal( c, p ), "copy" ); c.merge( q ); for ( auto& e : q ) XOV_CHECK( c.has_key( e.first ), "merged keys" ); for ( size_t i = 0; i < p.size(); ++i ) XOV_CHECK( c.at( i ).first == p.at( i ).first, "keys kept" ); size_t n = p.size(); p.append( q ); XOV_CHECK( p.size() == n + q.size(), "appended" );
	if ( q.size() ) { prop_node f( q.at( 0 ).second ); q = q.at( 0 ).second; XOV_CHECK( equal( q, f ), "child to parent" ); }
}
XOV_BOUNDED( arguments ) { // command line arguments to a node
	std::vector<string> a = { "prog" }; for ( size_t n = xov::any_size( 4 ); n > 0; --n ) a.push_back( xov::any_string( "-a", 2 ) ); std::vector<const char*> v; for ( auto& s : a ) v.push_back( s.c_str() ); prop_node p = prop_node_from_arg( int( v.size() ), v.data() ); XOV_COVER( "end" ); XOV_CHECK( p.peek_str() == "prog", "the program name" );
	size_t k = 0; for ( size_t i = 1; i < a.size(); ++i ) if ( a[i][0] == '-' ) ++k; size_t named = 0, anon = 0; for ( auto& c : p ) ( c.first.empty() ? anon : named )++; size_t dash = 0; for ( size_t i = 1; i < a.size(); ++i ) if ( a[i] == "-" ) ++dash; XOV_CHECK( named == k - dash, "one child for every option" );
}
