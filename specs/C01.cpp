// C01: flat_map / flat_set keep their keys sorted and unique and behave as a mathematical map / set.
#include "xov.h"
#include "xo/container/flat_map.h"
#include "xo/container/flat_set.h"
using namespace xo;
using map_t = flat_map<int, int>;
using set_t = flat_set<int>;

static bool sorted( const map_t& m ) { return xov::forall( 0, long( m.data_.size() ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return m.data_[j].first < m.data_[i].first; } ); } ); }
static map_t any_map() { map_t m; m.data_ = xov::any_vector<pair<int, int>>(); xov::assume( sorted( m ) ); return m; }
// abstraction: m maps key to value
static bool has( const map_t& m, int k, int v ) { return xov::exists( 0, long( m.data_.size() ), [&]( size_t i ) { return m.data_[i].first == k && m.data_[i].second == v; } ); }
static bool dom( const map_t& m, int k ) { return xov::exists( 0, long( m.data_.size() ), [&]( size_t i ) { return m.data_[i].first == k; } ); }

XOV_PROOF( map_find ) {
	map_t m = any_map(); int k = xov::any_i32();
	auto it = m.find( k );
	if ( it == m.end() ) { XOV_COVER( "absent" ); XOV_CHECK( !dom( m, k ), "find reports end only for an absent key" ); }
	else { XOV_COVER( "present" ); XOV_CHECK( it->first == k, "find returns the element with that key" ); }
	const map_t& c = m; XOV_CHECK( c.contains( k ) == dom( m, k ), "contains agrees with the contents" );
	XOV_CHECK( ( c.find( k ) == c.end() ) == !dom( m, k ), "const find agrees" );
	XOV_CHECK( ( c.count( k ) != 0 ) == dom( m, k ), "count is non-zero exactly for present keys" );
}
XOV_PROOF( map_bounds ) {
	map_t m = any_map(); int k = xov::any_i32();
	size_t lo = m.lower_bound( k ) - m.begin(), up = m.upper_bound( k ) - m.begin(); const map_t& c = m;
	XOV_CHECK( xov::forall( 0, long( lo ), [&]( size_t i ) { return m.data_[i].first < k; } ) && xov::forall( long( lo ), long( m.size() ), [&]( size_t i ) { return !( m.data_[i].first < k ); } ), "lower_bound splits the keys" );
	XOV_CHECK( xov::forall( 0, long( up ), [&]( size_t i ) { return m.data_[i].first <= k; } ) && xov::forall( long( up ), long( m.size() ), [&]( size_t i ) { return m.data_[i].first > k; } ), "upper_bound splits the keys" );
	XOV_CHECK( size_t( c.lower_bound( k ) - c.begin() ) == lo && size_t( c.upper_bound( k ) - c.begin() ) == up, "const bounds agree" );
}
XOV_PROOF( map_insert ) {
	map_t m = any_map(); int k = xov::any_i32(), v = xov::any_i32(); const map_t old = m; int q = xov::any_i32(), w = xov::any_i32();
	bool had = dom( old, k );
	auto r = m.insert( pair<int, int>( k, v ) );
	XOV_CHECK( sorted( m ), "keys stay sorted and unique after insert" );
	XOV_CHECK( r.second == !had, "insert reports whether the key was new" );
	XOV_CHECK( m.size() == old.size() + ( had ? 0 : 1 ), "insert adds at most one element" );
	XOV_CHECK( r.first->first == k, "insert returns the element of that key" );
	if ( !had ) { XOV_COVER( "new" ); XOV_CHECK( r.first->second == v, "a new key gets the inserted value" ); }
	if ( !( q == k && !had ) ) XOV_CHECK( has( m, q, w ) == has( old, q, w ), "insert leaves every other binding alone" );
	const pair<int, int> kv( k, v ); map_t m2 = old; auto r2 = m2.insert( kv );
	XOV_CHECK( r2.second == r.second && r2.first - m2.begin() == r.first - m.begin() && m2.data_ == m.data_, "inserting a copy and inserting a temporary agree" );
}
XOV_PROOF( map_subscript ) {
	map_t m = any_map(); int k = xov::any_i32(), v = xov::any_i32(); const map_t old = m; int q = xov::any_i32(), w = xov::any_i32();
	bool had = dom( old, k );
	int before = m[k]; XOV_CHECK( had ? has( old, k, before ) : before == 0, "operator[] yields the bound value or a default one" );
	XOV_CHECK( sorted( m ) && m.size() == old.size() + ( had ? 0 : 1 ), "operator[] keeps the keys sorted and unique" );
	m[k] = v;
	XOV_CHECK( sorted( m ) && has( m, k, v ), "assignment through operator[] binds the key" );
	if ( q != k ) XOV_CHECK( has( m, q, w ) == has( old, q, w ), "operator[] leaves every other binding alone" );
	XOV_COVER( "end" );
}
XOV_PROOF( map_erase ) {
	map_t m = any_map(); int k = xov::any_i32(); const map_t old = m; int q = xov::any_i32(), w = xov::any_i32();
	bool had = dom( old, k ); size_t n = m.erase( k );
	XOV_CHECK( n == ( had ? 1u : 0u ) && m.size() + n == old.size(), "erase removes one element exactly when present" );
	XOV_CHECK( sorted( m ) && !dom( m, k ), "erase removes the key and keeps the order" );
	if ( q != k ) XOV_CHECK( has( m, q, w ) == has( old, q, w ), "erase leaves every other binding alone" );
	XOV_COVER( "end" );
}
XOV_PROOF( map_at ) {
	map_t m = any_map(); int k = xov::any_i32(); int v = 0; const map_t& c = m;
	bool t = xov::thrown( [&] { v = m.at( k ); } ), t2 = xov::thrown( [&] { v = c.at( k ); } );
	XOV_CHECK( t == !dom( m, k ) && t2 == t, "at throws exactly for absent keys" );
	if ( !t ) { XOV_COVER( "present" ); XOV_CHECK( has( m, k, v ), "at returns the bound value" ); }
	else XOV_COVER( "absent" );
}
XOV_PROOF( map_init ) {
	int a = xov::any_i32(), b = xov::any_i32(), c = xov::any_i32();
	map_t m{ { a, 1 }, { b, 2 }, { c, 3 } };
	XOV_CHECK( sorted( m ), "list construction gives sorted unique keys" );
	XOV_CHECK( m.size() == size_t( 1 + ( b != a ) + ( c != a && c != b ) ) && has( m, a, 1 ) && ( b == a || has( m, b, 2 ) ) && dom( m, c ), "list construction keeps the first binding of every key" );
	if ( a == b ) XOV_COVER( "duplicate" );
}

// ---------------------------------------------------------------- flat_set
static bool sorted( const set_t& m ) { return xov::forall( 0, long( m.data_.size() ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return m.data_[j] < m.data_[i]; } ); } ); }
static set_t any_set() { set_t m; m.data_ = xov::any_vector<int>(); xov::assume( sorted( m ) ); return m; }
static bool has( const set_t& m, int k ) { return xov::exists( 0, long( m.data_.size() ), [&]( size_t i ) { return m.data_[i] == k; } ); }
XOV_PROOF( set_find ) {
	set_t m = any_set(); int k = xov::any_i32(); const set_t& c = m;
	auto it = m.find( k ); bool in = has( m, k );
	XOV_CHECK( ( it != m.end() ) == in && ( c.find( k ) != c.end() ) == in && c.contains( k ) == in && ( c.count( k ) != 0 ) == in, "find, contains and count agree with membership" );
	if ( in ) { XOV_COVER( "present" ); XOV_CHECK( *it == k, "find returns the key" ); }
	size_t lo = m.lower_bound( k ) - m.begin(), up = m.upper_bound( k ) - m.begin();
	XOV_CHECK( lo + ( in ? 1 : 0 ) == up && xov::forall( 0, long( lo ), [&]( size_t i ) { return m.data_[i] < k; } ) && xov::forall( long( up ), long( m.size() ), [&]( size_t i ) { return m.data_[i] > k; } ), "bounds split the keys" );
	XOV_CHECK( size_t( c.lower_bound( k ) - c.begin() ) == lo && size_t( c.upper_bound( k ) - c.begin() ) == up, "const bounds agree" );
}
XOV_PROOF( set_insert ) {
	set_t m = any_set(); int k = xov::any_i32(), q = xov::any_i32(); const set_t old = m; bool had = has( old, k );
	auto r = m.insert( k );
	XOV_CHECK( r.second == !had && *r.first == k && m.size() == old.size() + ( had ? 0 : 1 ), "insert reports and adds exactly a new key" );
	XOV_CHECK( sorted( m ), "keys stay sorted and unique after insert" );
	XOV_CHECK( has( m, q ) == ( q == k || has( old, q ) ), "insert leaves other members alone" );
	set_t m2 = old; m2.insert( int( k ) ); XOV_CHECK( m2.data_ == m.data_, "both insert overloads agree" );
	XOV_COVER( "end" );
}
XOV_PROOF( set_erase ) {
	set_t m = any_set(); int k = xov::any_i32(), q = xov::any_i32(); const set_t old = m; bool had = has( old, k );
	size_t n = m.erase( k );
	XOV_CHECK( n == ( had ? 1u : 0u ) && m.size() + n == old.size() && sorted( m ), "erase removes exactly one present key" );
	XOV_CHECK( has( m, q ) == ( q != k && has( old, q ) ), "erase leaves other members alone" );
	XOV_COVER( "end" );
}
XOV_PROOF( set_init ) {
	int a = xov::any_i32(), b = xov::any_i32(), c = xov::any_i32();
	set_t m{ a, b, c };
	XOV_CHECK( sorted( m ), "list construction gives sorted unique keys" );
	XOV_CHECK( m.size() == size_t( 1 + ( b != a ) + ( c != a && c != b ) ) && has( m, a ) && has( m, b ) && has( m, c ), "list construction keeps every key" );
}
// ---------------------------------------------------------------- access
XOV_PROOF( map_access ) {
	map_t m = any_map(); const map_t& c = m; const map_t o = m; size_t n = m.size(); int k = xov::any_i32(); XOV_CHECK( m.empty() == ( n == 0 ) && m.data_.size() == n, "size" );
	XOV_CHECK( m.begin() == m.data_.begin() && c.begin() == c.data_.begin() && c.cbegin() == c.data_.cbegin() && m.end() == m.data_.end() && c.end() == c.data_.end() && c.cend() == c.data_.cend(), "iteration over all elements, in order" );
	if ( n > 0 ) { XOV_COVER( "some" ); XOV_CHECK( &m.front() == &m.data_[0] && &c.front() == &m.data_[0] && &m.back() == &m.data_[n - 1] && &c.back() == &m.data_[n - 1], "the first and last element" ); XOV_CHECK( &*m.rbegin() == &m.data_[n - 1] && &*c.crbegin() == &m.data_[n - 1] && m.rend() - m.rbegin() == long( n ) && c.crend() - c.crbegin() == long( n ), "or backwards" ); }
	int v = 0; bool t = xov::thrown( [&] { v = c[k]; } ); XOV_CHECK( t == !dom( m, k ) && ( t || has( m, k, v ) ), "reading a constant map by key" );
	map_t d( std::move( m ) ); XOV_CHECK( d.data_ == o.data_, "moved" ); d.clear(); XOV_CHECK( d.empty() && !dom( d, k ), "cleared" );
}
XOV_PROOF( map_erase_at ) { map_t m = any_map(); const map_t o = m; size_t i = xov::any_size(); xov::assume( i < o.size() ); auto it = m.erase( m.begin() + i ); XOV_COVER( "some" ); XOV_CHECK( m.size() + 1 == o.size() && size_t( it - m.begin() ) == i && xov::forall( 0, long( m.size() ), [&]( size_t j ) { return m.data_[j] == o.data_[j < i ? j : j + 1]; } ), "erasing at a position removes this element" ); }
XOV_PROOF( set_access ) {
	set_t m = any_set(); const set_t& c = m; const set_t o = m; size_t n = m.size(); int k = xov::any_i32(); XOV_CHECK( m.empty() == ( n == 0 ) && m.data_.size() == n && c.container() == o.data_, "size" );
	XOV_CHECK( m.begin() == m.data_.begin() && c.begin() == c.data_.begin() && c.cbegin() == c.data_.cbegin() && m.end() == m.data_.end() && c.end() == c.data_.end() && c.cend() == c.data_.cend(), "iteration over all elements, in order" );
	if ( n > 0 ) { XOV_COVER( "some" ); XOV_CHECK( &m.front() == &m.data_[0] && &c.front() == &m.data_[0] && &m.back() == &m.data_[n - 1] && &c.back() == &m.data_[n - 1], "the first and last key" ); XOV_CHECK( &*m.rbegin() == &m.data_[n - 1] && &*c.crbegin() == &m.data_[n - 1] && m.rend() - m.rbegin() == long( n ) && c.crend() - c.crbegin() == long( n ), "or backwards" ); }
	set_t d( std::move( m ) ); XOV_CHECK( d.data_ == o.data_, "moved" ); d.clear(); XOV_CHECK( d.empty() && !has( d, k ), "cleared" );
}
XOV_PROOF( set_erase_at ) { set_t m = any_set(); const set_t o = m; size_t i = xov::any_size(); xov::assume( i < o.size() ); auto it = m.erase( m.begin() + i ); XOV_COVER( "some" ); XOV_CHECK( m.size() + 1 == o.size() && size_t( it - m.begin() ) == i && xov::forall( 0, long( m.size() ), [&]( size_t j ) { return m.data_[j] == o.data_[j < i ? j : j + 1]; } ), "erasing at a position removes this key" ); }
