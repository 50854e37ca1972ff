// C04: insertion-ordered and handle-based containers: indices and handles keep naming the element they were given for.
#include "xov.h"
#include "xo/container/indexed_map.h"
#include "xo/container/indexed_set.h"
#include "xo/container/handle_vector.h"
#include "xo/container/collection.h"
#include "xo/container/collection_ic.h"
using namespace xo;
// ---------------------------------------------------------------- indexed_map
using im = indexed_map<int, int>;
using kv = pair<int, int>;
static std::vector<kv>& raw( im& m ) { return (std::vector<kv>&)m; }
static const std::vector<kv>& raw( const im& m ) { return (const std::vector<kv>&)m; }
static bool distinct( const im& m ) { auto& r = raw( m ); return xov::forall( 0, long( r.size() ), [&]( size_t i ) { return xov::forall( 0, long( i ), [&]( size_t j ) { return r[j].first != r[i].first; } ); } ); }
static im any_im() { im m; raw( m ) = xov::any_vector<kv>(); xov::assume( distinct( m ) ); return m; }
static bool dom( const im& m, int k ) { auto& r = raw( m ); return xov::exists( 0, long( r.size() ), [&]( size_t i ) { return r[i].first == k; } ); }
XOV_PROOF( map_find ) {
	im m = any_im(); const im& c = m; int k = xov::any_i32(); bool d = dom( m, k );
	XOV_HINT( [&]( size_t p ) { return xov::forall( 0, long( p ), [&]( size_t i ) { return raw( m )[i].first != k; } ); } );
	auto it = m.find( k ); size_t p = it - m.begin();
	XOV_CHECK( ( it != m.end() ) == d && ( !d || it->first == k ) && p <= m.size(), "find finds exactly the present keys" );
	XOV_CHECK( size_t( c.find( k ) - c.begin() ) == p && c.contains( k ) == d, "const find and contains agree" );
	if ( d ) XOV_COVER( "present" ); else XOV_COVER( "absent" );
}
XOV_PROOF( map_insert ) {
	im m = any_im(); const im o = m; int k = xov::any_i32(), v = xov::any_i32(); bool d = dom( m, k );
	XOV_HINT( [&]( size_t p ) { return xov::forall( 0, long( p ), [&]( size_t i ) { return raw( o )[i].first != k; } ); } );
	auto r = m.insert( kv( k, v ) ); size_t p = r.first - m.begin();
	XOV_CHECK( distinct( m ), "keys stay unique" );
	XOV_CHECK( r.second == !d && m.size() == o.size() + ( d ? 0 : 1 ), "insert adds exactly one element for a new key" );
	XOV_CHECK( r.first->first == k && r.first->second == v, "insert binds the key" );
	XOV_CHECK( p < m.size() && ( d || p == o.size() ), "a new key goes last" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return i == p || raw( m )[i] == raw( o )[i]; } ), "insert leaves the other elements in place" );
	if ( d ) XOV_COVER( "present" ); else XOV_COVER( "absent" );
}
XOV_PROOF( map_subscript ) {
	im m = any_im(); const im o = m; int k = xov::any_i32(), v = xov::any_i32(); bool d = dom( m, k );
	XOV_HINT( [&]( size_t p ) { return xov::forall( 0, long( p ), [&]( size_t i ) { return raw( o )[i].first != k; } ); } );
	m.im::operator[]( k ) = v; 	// indexed_map<int,..> also has a positional operator[]( size_t )
	XOV_CHECK( distinct( m ) && m.size() == o.size() + ( d ? 0 : 1 ), "operator[] keeps the keys unique" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return raw( m )[i].first == raw( o )[i].first && ( raw( o )[i].first == k ? raw( m )[i].second == v : raw( m )[i].second == raw( o )[i].second ); } ), "operator[] changes only the value of its key" );
	if ( !d ) XOV_CHECK( raw( m )[o.size()].first == k && raw( m )[o.size()].second == v, "a new key goes last" );
	size_t q = xov::any_size(); if ( q < m.size() ) XOV_CHECK( &m[q] == &raw( m )[q], "positional access" );
	XOV_COVER( "end" );
}
// ---------------------------------------------------------------- indexed_set (index type with 255 values so that the limit is reachable)
using is = indexed_set<int, unsigned char>;
static bool wf( const is& s ) {
	auto& v = s.values_; auto& d = s.indices_.data_;
	return v.size() == d.size() && v.size() <= 255
		&& xov::forall( 0, long( d.size() ), [&]( size_t i ) { return d[i].second < v.size() && v[d[i].second] == d[i].first && xov::forall( 0, long( i ), [&]( size_t j ) { return d[j].first < d[i].first; } ); } )
		&& xov::forall( 0, long( v.size() ), [&]( size_t i ) {
			if ( xov::sym() ) { size_t r = size_t( xov::ufi( "rank", long( i ) ) ); return r < d.size() && d[r].second == i && d[r].first == v[i]; } // ghost inverse
			return xov::exists( 0, long( d.size() ), [&]( size_t j ) { return d[j].second == i; } ); } );
}
static is any_is() { is s; s.values_ = xov::any_vector<int>(); s.indices_.data_ = xov::any_vector<pair<int, unsigned char>>(); xov::assume( wf( s ) ); return s; }
static int member( const is& s, size_t& w ) { w = xov::any_size(); xov::assume( w < s.size() ); if ( xov::sym() ) { size_t r = size_t( xov::ufi( "rank", long( w ) ) ); xov::assume( r < s.indices_.data_.size() ); xov::assume( s.indices_.data_[r].second == w ); } /* instances of wf */ return s.values_[w]; }
static int non_member( const is& s ) { int v = xov::any_i32(); xov::assume( xov::forall( 0, long( s.size() ), [&]( size_t i ) { return s.values_[i] != v; } ) ); return v; }
XOV_PROOF( set_lookup ) {
	is s = any_is(); size_t w; int v = member( s, w ); auto r = s.try_get( v );
	XOV_CHECK( bool( r ) && *r == w && s[*r] == v, "a value in the set is found under its index" );
	auto a = s.try_get( non_member( s ) ); XOV_CHECK( !a, "a value not in the set has no index" ); XOV_COVER( "end" );
}
XOV_PROOF( set_add_existing ) {
	is s = any_is(); const is o = s; size_t w; int v = member( s, w ); unsigned char r = 0;
	bool t = xov::thrown( [&] { r = s.get_or_add( v ); } );
	XOV_CHECK( !t && r == w && s.values_ == o.values_ && s.indices_.data_ == o.indices_.data_, "adding an existing value returns its index and changes nothing" ); XOV_COVER( "end" );
}
XOV_PROOF( set_add_new ) {
	is s = any_is(); const is o = s; int v = non_member( s ); unsigned char r = 0;
	bool t = xov::thrown( [&] { r = s.get_or_add( v ); } );
	XOV_CHECK( t == ( o.size() == 255 ), "adding fails exactly when no index is left" );
	if ( t ) { XOV_COVER( "full" ); XOV_CHECK( s.values_ == o.values_ && s.indices_.data_ == o.indices_.data_, "a failed addition changes nothing" ); }
	else {
		XOV_COVER( "ok" ); XOV_CHECK( r == o.size() && s.size() == o.size() + 1 && s[r] == v && s.indices_.data_.size() == s.size(), "a new value gets the next index" );
		XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return s.values_[i] == o.values_[i]; } ), "existing indices keep their value" );
		auto g = s.try_get( v ); XOV_CHECK( bool( g ) && *g == r, "the value is found again under its index" );
		XOV_CHECK( xov::forall( 0, long( s.indices_.data_.size() ), [&]( size_t i ) { auto& e = s.indices_.data_[i]; return e.second < s.values_.size() && s.values_[e.second] == e.first; } ), "every index names its own value" );
	}
}
XOV_BOUNDED( set_invariant ) { is s = any_is(); s.get_or_add( xov::any_i32() ); s.get_or_add( xov::any_i32() ); XOV_CHECK( wf( s ), "representation invariant" ); }
// ---------------------------------------------------------------- handle_vector, handle, handle_span
using hv = handle_vector<int>; using hnd = handle<int>;
static std::vector<int>& raw( hv& m ) { return (std::vector<int>&)m; }
static const std::vector<int>& raw( const hv& m ) { return (const std::vector<int>&)m; }
static hv any_hv() { hv v; raw( v ) = xov::any_vector<int>(); xov::assume( v.size() < 4294967294u ); return v; }
XOV_PROOF( handles ) {
	hv v = any_hv(); const hv o = v; int x = xov::any_i32(); hnd h = v.push_back( x );
	XOV_CHECK( bool( h ) && h.value() == o.size() && v.contains( h ) && v[h] == x && v.size() == o.size() + 1, "push_back returns the handle of the new element" );
	XOV_CHECK( xov::forall( 0, long( o.size() ), [&]( size_t i ) { return v[hnd( unsigned( i ) )] == raw( o )[i]; } ), "existing handles keep their element" );
	XOV_CHECK( v.back_handle() == h && !v.contains( v.end_handle() ) && !v.contains( hnd() ) && !hnd(), "end and default handles name nothing" );
	size_t p = xov::any_size(); xov::assume( p <= v.size() ); auto it = v.begin() + p; hnd g = v.handle_from_iterator( it );
	XOV_CHECK( bool( g ) == ( it != v.end() ) && ( !g || v.iter( g ) == it ), "handle_from_iterator inverts iter" );
	XOV_CHECK( v.span().size() == v.size() && v.span().contains( h ) && !v.span().contains( v.end_handle() ), "the span covers all handles" );
	XOV_COVER( "end" );
}
XOV_PROOF( handle_erase ) {
	hv v = any_hv(); const hv o = v; size_t p = xov::any_size(); xov::assume( p < v.size() ); hnd h = v.erase( hnd( unsigned( p ) ) );
	XOV_CHECK( h.value() == p && v.size() + 1 == o.size(), "erase removes one element" );
	XOV_CHECK( xov::forall( 0, long( v.size() ), [&]( size_t i ) { return raw( v )[i] == raw( o )[i < p ? i : i + 1]; } ), "erase shifts only the elements behind it" );
	XOV_COVER( "end" );
}
XOV_PROOF( span_erase ) {
	hv v = any_hv(); const hv o = v; size_t b = xov::any_size(), e = xov::any_size(); xov::assume( b <= e && e <= v.size() );
	hv::handle_span_type sp( hnd{ unsigned( b ) }, hnd{ unsigned( e ) } ); hnd h = v.erase( sp );
	XOV_CHECK( h.value() == b && v.size() + ( e - b ) == o.size() && sp.empty() == ( b == e ), "erasing a span removes its elements" );
	XOV_CHECK( xov::forall( 0, long( v.size() ), [&]( size_t i ) { return raw( v )[i] == raw( o )[i < b ? i : i + ( e - b )]; } ), "the remaining elements keep their order" );
	hnd g( xov::any_u32() ); const hnd g0 = g; hv::handle_span_type moved( hnd{ unsigned( e ) }, hnd{ unsigned( o.size() ) } );
	update_moved_handle( g, moved, typename hv::handle_span_type::iterator( unsigned( b ) ) );
	if ( g0.value() >= e && g0.value() < o.size() ) { XOV_COVER( "moved" ); XOV_CHECK( v.contains( g ) && v[g] == o[g0], "a moved handle follows its element" ); }
	else XOV_CHECK( g == g0, "other handles are untouched" );
}
XOV_PROOF( handle_find ) {
	hv v = any_hv(); int x = xov::any_i32(); XOV_HINT( [&]( size_t p ) { return unsigned( p ) <= v.size() && xov::forall( 0, long( unsigned( p ) ), [&]( size_t i ) { return raw( v )[i] != x; } ); } ); hnd h = v.find( x );
	bool has = xov::exists( 0, long( v.size() ), [&]( size_t i ) { return raw( v )[i] == x; } );
	XOV_CHECK( bool( h ) == has && ( !h || ( v.contains( h ) && v[h] == x ) ), "find returns a handle of an equal element" );
	XOV_COVER( "end" );
}
XOV_PROOF( handle_value ) {
	hnd a( xov::any_u32() ), b( xov::any_u32() ); const unsigned va = a.value(), vb = b.value();
	XOV_CHECK( ( a == b ) == ( va == vb ) && ( a != b ) == ( va != vb ) && ( a < b ) == ( va < vb ) && bool( a ) == ( va != 4294967295u ), "handles compare by value" );
	hnd c = a; XOV_CHECK( c == a && a.value() == va, "copying keeps the source" );
	hnd d = std::move( a ); XOV_CHECK( d.value() == va && !a, "moving empties the source" );
	c = b; XOV_CHECK( c == b && b.value() == vb, "assignment copies" ); c.reset(); XOV_CHECK( !c, "reset empties" );
	XOV_COVER( "end" );
}
// ---------------------------------------------------------------- collections of several element types
XOV_PROOF( collection_typed ) {
	collection<unsigned, int, long> c; raw( c.get_vec<int>() ) = xov::any_vector<int>(); (std::vector<long>&)c.get_vec<long>() = xov::any_vector<long>(); xov::assume( c.get_vec<int>().size() < 4000000000u );
	auto o = c; int x = xov::any_i32(); const int& cx = x; auto h = c.push_back<int>( cx );
	XOV_CHECK( c[h] == x && h.value() == o.get_vec<int>().size() && c.get_vec<int>().size() == o.get_vec<int>().size() + 1, "push_back returns the handle of the new element" );
	XOV_CHECK( (std::vector<long>&)c.get_vec<long>() == (std::vector<long>&)o.get_vec<long>(), "other element types are untouched" );
	XOV_CHECK( c.get_handle( c[h] ) == h, "get_handle inverts access" );
	c.erase( h ); XOV_CHECK( raw( c.get_vec<int>() ) == raw( o.get_vec<int>() ), "erase removes it again" );
	c.clear(); XOV_CHECK( c.get_vec<int>().empty() && c.get_vec<long>().empty(), "clear empties every type" ); XOV_COVER( "end" );
}
XOV_PROOF( collection_index ) {
	using ix = index_class<int, unsigned>;
	collection_ic<unsigned, int, long> c; c.get_vec<int>() = xov::any_vector<int>(); c.get_vec<long>() = xov::any_vector<long>(); xov::assume( c.get_vec<int>().size() < 4000000000u );
	auto o = c; int x = xov::any_i32(); const int& cx = x; ix h = c.push_back<int>( cx );
	XOV_CHECK( c[h] == x && h.value() == o.get_vec<int>().size() && bool( h ) && h == c.back_index<int>(), "push_back returns the index of the new element" );
	XOV_CHECK( c.get_vec<long>() == o.get_vec<long>(), "other element types are untouched" );
	XOV_CHECK( c.get_index( c[h] ) == h, "get_index inverts access" );
	auto sp = c.get_index_span<int>(); XOV_CHECK( sp.size() == c.get_vec<int>().size() && !sp.empty() && sp.begin() == ix( 0u ) && sp.end() == c.end_index<int>(), "the span covers all indices" );
	size_t p = xov::any_size(); xov::assume( p < c.get_vec<int>().size() ); auto d = c; ix r = d.erase( ix( unsigned( p ) ) );
	XOV_CHECK( r.value() == p && d.get_vec<int>().size() + 1 == c.get_vec<int>().size() && xov::forall( 0, long( d.get_vec<int>().size() ), [&]( size_t i ) { return d.get_vec<int>()[i] == c.get_vec<int>()[i < p ? i : i + 1]; } ), "erase removes one element and keeps the order" );
	c.pop_back<int>(); XOV_CHECK( c.get_vec<int>() == o.get_vec<int>(), "pop_back removes the last" ); XOV_COVER( "end" );
}
XOV_PROOF( index_value ) {
	using ix = index_class<int, unsigned>; size_t n = xov::any_size(); ix a( n ), z;
	XOV_CHECK( bool( a ) == ( n < 4294967295u ) && ( !a || a.value() == n ) && !z, "an index that does not fit is invalid" );
	int k = xov::any_i32(); ix b( k ); XOV_CHECK( bool( b ) == ( k >= 0 ) && ( !b || b.value() == unsigned( k ) ), "a negative index is invalid" );
	ix c( xov::any_u32() ); XOV_CHECK( ( b < c ) == ( b.idx < c.idx ) && ( b <= c ) == ( b.idx <= c.idx ) && ( b > c ) == ( c < b ) && ( b >= c ) == ( c <= b ) && ( b == c ) == ( b.idx == c.idx ) && ( b != c ) == !( b == c ), "indices compare by value" );
	ix d = std::move( c ); XOV_CHECK( !c, "moving invalidates the source" ); xov::assume( d.idx < 4294967294u ); ix e = d++; XOV_CHECK( d == e + 1u && d - 1u == e, "increment" ); XOV_COVER( "end" );
}
// ---------------------------------------------------------------- other ways of access
XOV_BOUNDED( set_full ) { // up to the last index
	is s; int n = int( xov::any_int( 250, 257 ) ), m = 0; for ( int i = 0; i < n; ++i ) if ( !xov::thrown( [&] { s.get_or_add( i * 3 ); } ) ) ++m; XOV_CHECK( m == ( n < 255 ? n : 255 ) && int( s.size() ) == m, "as many values as indices" ); for ( int i = 0; i < m; ++i ) { auto r = s.try_get( i * 3 ); XOV_CHECK( r && *r == i && s.get_or_add( i * 3 ) == i && s[(unsigned char)i] == i * 3, "every index names its value" ); }
	s.clear(); XOV_CHECK( s.size() == 0 && !s.try_get( 3 ) && s.get_or_add( 9 ) == 0, "cleared" );
}
XOV_PROOF( set_clear ) { is s = any_is(); int v = xov::any_i32(); s.clear(); XOV_COVER( "end" ); XOV_CHECK( s.size() == 0 && !s.try_get( v ), "nothing is left" ); }
XOV_PROOF( map_count ) { im m = any_im(); const im& c = m; int k = xov::any_i32(); xov::assume( !dom( m, k ) ); XOV_COVER( "end" ); XOV_CHECK( c.count( k ) == 0, "a key that is not there is counted zero times" ); size_t p = xov::any_size(); if ( p < c.size() ) XOV_CHECK( &c[p] == &raw( c )[p], "access by position" ); }
XOV_PROOF( map_words ) { // text keys
	indexed_map<std::string, int> m{ { "a", xov::any_i32() }, { "b", 2 } }; const auto& c = m; std::string k = xov::any_string( "abc", 2 ); int v = 0; bool t = xov::thrown( [&] { v = c[k]; } ); XOV_COVER( "end" ); XOV_CHECK( t == ( k != "a" && k != "b" ) && ( t || v == ( k == "a" ? m.begin()->second : 2 ) ), "reading a constant map by key" ); XOV_CHECK( c.count( k ) == ( t ? 0 : 1 ) && c.contains( k ) == !t, "counted once" ); m[k] = 7; XOV_CHECK( c[k] == 7 && c.size() == ( t ? 3 : 2 ) && c.begin()->first == "a" && ( c.begin() + 1 )->first == "b", "writing adds a new key behind" );
}
XOV_PROOF( handle_add ) { hv v = any_hv(), w = v; const hv& cv = v; const hv o = v; int x = xov::any_i32(); hnd h = v.push_back( int( x ) ), g = w.emplace_back( x ); XOV_COVER( "end" ); XOV_CHECK( h == g && h.value() == o.size() && raw( v ) == raw( w ) && cv[h] == x, "every way of adding gives the handle of the new element" ); XOV_CHECK( cv.iter( h ) == cv.begin() + o.size() && h.iter( v ) == v.begin() + o.size() && h.iter( cv ) == cv.begin() + o.size() && hnd::end( v ) == v.end_handle() && hnd::back( v ) == h, "positions of handles" ); size_t b = xov::any_size(); xov::assume( b <= v.size() ); auto sp = v.span( hv::handle_span_type::iterator( unsigned( b ) ) ); hnd q( xov::any_u32() ); XOV_CHECK( sp.size() == v.size() - b && sp.contains( q ) == ( q.value() >= b && q.value() < v.size() ) && sp.is_beyond( q ) == ( q.value() >= v.size() ), "a span from a handle on" ); auto it = sp.begin(); if ( b < v.size() ) { auto p = it++; XOV_CHECK( p == sp.begin() && it.value() == b + 1 && it != p, "spans are iterated handle by handle" ); } }
XOV_PROOF( handle_swap ) { hnd a( xov::any_u32() ), b( xov::any_u32() ); const unsigned va = a.value(); b = std::move( a ); XOV_COVER( "end" ); XOV_CHECK( b.value() == va, "move assignment moves" ); handle<long, unsigned> c( b ); XOV_CHECK( c.value() == va, "conversion keeps the value" ); }
XOV_PROOF( collection_more ) {
	collection<unsigned, int, long> c; raw( c.get_vec<int>() ) = xov::any_vector<int>(); (std::vector<long>&)c.get_vec<long>() = xov::any_vector<long>(); xov::assume( c.get_vec<int>().size() < 4000000000u ); const auto& k = c; const auto o = c; int x = xov::any_i32(); auto h = c.push_back<int>( int( x ) ); XOV_COVER( "end" );
	XOV_CHECK( k[h] == x && h.value() == o.get_vec<int>().size() && &k[h] == &raw( c.get_vec<int>() )[h.value()] && &c.data() == &k.data(), "adding a temporary, constant access" ); size_t b = xov::any_size(); xov::assume( b <= o.get_vec<int>().size() ); auto r = c.erase( handle_span<int, unsigned>( handle<int, unsigned>( unsigned( b ) ), handle<int, unsigned>( h ) ) ); XOV_CHECK( r.value() == b && k[r] == x && k.get_vec<int>().size() == b + 1, "erasing a span" ); XOV_CHECK( xov::forall( 0, long( b ), [&]( size_t i ) { return k[handle<int, unsigned>( unsigned( i ) )] == raw( o.get_vec<int>() )[i]; } ), "keeps the others" );
}
XOV_PROOF( collection_index_more ) {
	using ix = index_class<int, unsigned>; collection_ic<unsigned, int, long> c; c.get_vec<int>() = xov::any_vector<int>(); c.get_vec<long>() = xov::any_vector<long>(); xov::assume( c.get_vec<int>().size() < 4000000000u ); const auto& k = c; const auto o = c; int x = xov::any_i32(); ix h = c.push_back<int>( int( x ) ); XOV_COVER( "end" );
	XOV_CHECK( k[h] == x && h.value() == o.get_vec<int>().size() && h == k.back_index<int>() && &c.data() == &k.data(), "adding a temporary, constant access" ); XOV_CHECK( c.begin<int>() == c.get_vec<int>().begin() && c.end<int>() == c.get_vec<int>().end() && k.begin<int>() == k.get_vec<int>().begin() && k.end<int>() == k.get_vec<int>().end() && h.iter( k.get_vec<int>() ) == k.begin<int>() + h.value(), "iteration over one type" ); c.clear(); XOV_CHECK( k.get_vec<int>().empty() && k.get_vec<long>().empty(), "clear empties every type" );
}
XOV_PROOF( index_more ) { using ix = index_class<int, unsigned>; ix a( xov::any_u32() ), b( xov::any_u32() ); const unsigned va = a.idx; ix c; c = a; XOV_COVER( "end" ); XOV_CHECK( c.idx == va && a.idx == va && ix::zero().idx == 0 && bool( ix::zero() ), "assignment copies" ); b = std::move( a ); XOV_CHECK( b.idx == va && !a, "or moves, emptying the source" ); xov::assume( va < 4294967294u ); ++b; XOV_CHECK( b.idx == va + 1 && ( *b ).idx == b.idx, "increment" ); index_class<long, unsigned> d( c ); XOV_CHECK( d.idx == va, "conversion keeps the value" ); }
