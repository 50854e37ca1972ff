// C05: labelled storage and tables: every cell keeps its value and its label while frames, channels, rows and columns are added.
#include "xov.h"
#include "xo/container/label_vector.h"
#include "xo/container/storage.h"
#include "xo/container/table.h"
using namespace xo;
using lv = label_vector<std::string>;
static std::string lab( size_t i ) { static const char* n[] = { "a", "b", "c", "d", "e", "f" }; return n[i]; }
// a label_vector with unbounded contents: label_indices_ maps exactly the non-default labels to their position
using idx = std::unordered_map<std::string, index_t>;
static bool ok( const lv& l ) { // every index entry names its label
	for ( auto& e : l.label_indices_ ) if ( !( e.second < l.labels_.size() && l.labels_[e.second] == e.first ) ) return false; return true;
}
static lv some_labels( size_t n ) { lv l; for ( size_t i = 0; i < n; ++i ) l.add( lab( i ) ); return l; }
template< size_t N > void labels_proof() {
	lv l = some_labels( N ); std::string s = xov::any_string( "abcdx", 1 ); bool has = false; for ( size_t i = 0; i < N; ++i ) has = has || s == lab( i );
	XOV_CHECK( ( l.find( s ) != no_index ) == has && ( !has || l[l.find( s )] == s ), "find inverts indexing" );
	XOV_CHECK( xov::thrown( [&] { l.find_or_throw( s ); } ) == !has, "find_or_throw throws exactly for unknown labels" );
	lv m = l; index_t f = m.find_or_add( s ); XOV_CHECK( m[f] == s && m.find( s ) == f && m.size() == N + ( has ? 0 : 1 ), "find_or_add yields the label" );
	for ( size_t i = 0; i < N; ++i ) XOV_CHECK( m.find( lab( i ) ) == i && m[i] == lab( i ), "other labels stay" );
	if ( has ) { XOV_CHECK( xov::thrown( [&] { lv t = l; t.add( s ); } ), "adding a label twice is refused" ); XOV_COVER( "known" ); }
	else if ( N > 0 ) { // relabel
		XOV_COVER( "new" ); size_t k = xov::any_size( N - 1 ); xov::assume( k < N ); l.set( k, s );
		XOV_CHECK( l[k] == s && l.find( s ) == k && l.size() == N, "set gives the index its label" );
		for ( size_t i = 0; i < N; ++i ) XOV_CHECK( i == k ? l.find( lab( i ) ) == no_index : l.find( lab( i ) ) == i && l[i] == lab( i ), "the old label is gone, the others stay" );
	}
	l.clear(); XOV_CHECK( l.size() == 0 && l.find( s ) == no_index, "clear forgets every label" );
}
XOV_PROOF( labels1 ) { labels_proof<1>(); }
XOV_PROOF( labels3 ) { labels_proof<3>(); }
XOV_PROOF( labels_init ) {
	std::string s = xov::any_string( "abc", 1 ); lv l{ lab( 0 ), lab( 1 ) }; lv m( std::vector<std::string>{ lab( 0 ), lab( 1 ) } ); XOV_COVER( "end" );
	for ( size_t i = 0; i < 2; ++i ) XOV_CHECK( l.find( lab( i ) ) == i && l[i] == lab( i ) && m.find( lab( i ) ) == i, "constructed labels can be found" );
	XOV_CHECK( l.find( s ) == ( s == "a" ? 0 : s == "b" ? 1 : no_index ), "only constructed labels are found" );
}
// ---------------------------------------------------------------- storage: any number of frames, C channels
using sto = storage<int>;
template< size_t C > sto any_sto() { sto s; s.labels_ = some_labels( C ); s.frame_size_ = xov::any_size( 3 ); xov::assume( s.frame_size_ < 1000000000 ); s.data_ = xov::any_vector<int>( 9 ); xov::assume( s.data_.size() == C * s.frame_size_ ); return s; }
template< size_t C > void frames() {
	sto s = any_sto<C>(); const sto o = s; int v = xov::any_i32(); auto fr = s.add_frame( v );
	XOV_CHECK( s.frame_size() == o.frame_size() + 1 && s.channel_size() == C && s.data_.size() == C * s.frame_size(), "add_frame adds one frame" );
	for ( size_t c = 0; c < C; ++c ) XOV_CHECK( fr[c] == v && s( o.frame_size(), c ) == v && s.back()[c] == v, "the new frame has the given value" );
	XOV_CHECK( xov::forall( 0, long( C * o.frame_size() ), [&]( size_t i ) { return s.data_[i] == o.data_[i]; } ), "earlier frames are kept" );
	sto t = o; std::vector<int> d; for ( size_t c = 0; c < C; ++c ) d.push_back( xov::any_i32() ); t.add_frame( d );
	XOV_CHECK( t.frame_size() == o.frame_size() + 1 && xov::forall( 0, long( C * o.frame_size() ), [&]( size_t i ) { return t.data_[i] == o.data_[i]; } ), "adding data keeps earlier frames" );
	for ( size_t c = 0; c < C; ++c ) XOV_CHECK( t( o.frame_size(), c ) == d[c] && t.back()[lab( c )] == d[c], "the new frame holds the data" );
	d.push_back( 0 ); XOV_CHECK( xov::thrown( [&] { t.add_frame( d ); } ), "data of the wrong size is refused" );
	XOV_COVER( "end" );
}
XOV_PROOF( frames1 ) { frames<1>(); }
XOV_PROOF( frames2 ) { frames<2>(); }
XOV_PROOF( frames3 ) { frames<3>(); }
template< size_t C > void access() {
	sto s = any_sto<C>(); size_t f = xov::any_size( 3 ); xov::assume( f < s.frame_size() ); const sto& k = s;
	for ( size_t c = 0; c < C; ++c ) XOV_CHECK( k( f, c ) == k.data_[f * C + c] && k[f][c] == k( f, c ) && k[f][lab( c )] == k( f, c ) && s[f][lab( c )] == k( f, c ) && k.get_label( c ) == lab( c ) && k.find_channel( lab( c ) ) == c, "labels, indices and frames address the same value" );
	sto o = s; int v = xov::any_i32(); s[f][lab( C - 1 )] = v; XOV_CHECK( s( f, C - 1 ) == v && xov::forall( 0, long( C * o.frame_size() ), [&]( size_t i ) { return i == f * C + C - 1 || s.data_[i] == o.data_[i]; } ), "writing changes one value" );
	XOV_HINT( [&]( size_t p ) { return p <= s.frame_size_; } );
	XOV_COVER( "end" );
}
XOV_PROOF( access1 ) { access<1>(); }
XOV_PROOF( access3 ) { access<3>(); }
template< size_t C > void channel() {
	sto s = any_sto<C>(); const sto o = s; int v = xov::any_i32();
	// new_data holds the reorganised frames below fi
	XOV_HINT_OBJ( [&]( const std::vector<int>& n, size_t p ) { return n.size() == ( C + 1 ) * o.frame_size_ && xov::forall( 0, long( o.frame_size_ ), [&]( size_t f ) { for ( size_t c = 0; c < C; ++c ) if ( !( n[( C + 1 ) * f + c] == ( f < p ? o.data_[C * f + c] : v ) ) ) return false; return n[( C + 1 ) * f + C] == v; } ); } );
	index_t c = s.add_channel( "x", v );
	XOV_CHECK( c == C && s.channel_size() == C + 1 && s.frame_size() == o.frame_size() && s.data_.size() == ( C + 1 ) * s.frame_size(), "add_channel adds one channel" );
	XOV_CHECK( s.find_channel( "x" ) == C && s.get_label( C ) == "x", "the channel has its label" );
	for ( size_t i = 0; i < C; ++i ) XOV_CHECK( s.find_channel( lab( i ) ) == i, "other labels stay" );
	XOV_CHECK( xov::forall( 0, long( o.frame_size() ), [&]( size_t f ) { if ( !( s( f, C ) == v ) ) return false; for ( size_t k = 0; k < C; ++k ) if ( !( s( f, k ) == o( f, k ) ) ) return false; return true; } ), "existing values keep their frame and channel; the new channel has the given value" );
	XOV_COVER( "end" );
}
XOV_PROOF( channel0 ) { channel<0>(); }
XOV_PROOF( channel1 ) { channel<1>(); }
XOV_PROOF( channel2 ) { channel<2>(); }
XOV_PROOF( shrink ) {
	sto s = any_sto<2>(); const sto o = s; size_t f = xov::any_size( 5 ), c = xov::any_size( 2 ); xov::assume( c <= 2 && f < 1000000000 ); bool t = xov::thrown( [&] { s.resize( f, c, 7 ); } );
	XOV_CHECK( t == ( f < o.frame_size() || c < 2 ), "shrinking is refused" );
	XOV_CHECK( xov::forall( 0, long( o.data_.size() ), [&]( size_t i ) { return s.data_[i] == o.data_[i]; } ), "resizing keeps the values" );
	if ( t ) { XOV_COVER( "refused" ); XOV_CHECK( s.frame_size() == o.frame_size() && s.data_.size() == o.data_.size(), "a refused resize changes nothing" ); }
	else { XOV_COVER( "done" ); XOV_CHECK( s.frame_size() == f && s.data_.size() == 2 * f && xov::forall( long( o.data_.size() ), long( 2 * f ), [&]( size_t i ) { return s.data_[i] == 7; } ), "new frames have the given value" ); }
}
XOV_PROOF( interpolated ) {
	storage<double> s; s.labels_ = some_labels( 2 ); s.frame_size_ = xov::any_size( 3 ); xov::assume( s.frame_size_ < 1000000 ); s.data_ = xov::any_vector<double>( 6 ); xov::assume( s.data_.size() == 2 * s.frame_size_ );
	size_t f = xov::any_size( 3 ); double w = xov::any_real(); xov::assume( w >= 0 && w < 1 && f < 1000000 ); double r = 0; size_t c = xov::any_size( 1 ); xov::assume( c < 2 );
	bool t = xov::thrown( [&] { r = s.get_interpolated_value( double( f ) + w, c ); } );
	XOV_CHECK( t == !( f + 1 < s.frame_size() ), "only positions between two frames are accepted" );
	if ( !t ) { XOV_COVER( "ok" ); XOV_CHECK( xov::eq( r, ( 1 - w ) * s( f, c ) + w * s( f + 1, c ) ), "the value is interpolated between the neighbouring frames" ); }
}
// ---------------------------------------------------------------- table
using tab = table<int>;
template< size_t R, size_t C > tab any_tab() { tab t; t.row_labels = some_labels( R ); t.col_labels = some_labels( C ); t.data = std::vector<int>(); for ( size_t i = 0; i < R * C; ++i ) t.data.push_back( xov::any_i32() ); return t; }
template< size_t R, size_t C, size_t R2, size_t C2 > void resize() {
	tab t = any_tab<R, C>(); const tab o = t; int v = xov::any_i32();
	t.resize( R2, C2, v ); XOV_CHECK( t.row_size() == R2 && t.column_size() == C2 && t.data.size() == R2 * C2, "resize gives the requested shape" );
	for ( size_t i = 0; i < R2; ++i ) for ( size_t j = 0; j < C2; ++j ) XOV_CHECK( t( i, j ) == ( i < R && j < C ? o( i < R ? i : 0, j < C ? j : 0 ) : v ), "cells keep their value, new cells get the default" );
	XOV_CHECK( xov::thrown( [&] { t( R2, 0 ); } ) && xov::thrown( [&] { t( 0, C2 ); } ) && ( R2 == 0 || xov::thrown( [&] { t.resize( R2 - 1, C2 + 1 ); } ) ), "shrinking and out-of-range access are refused" );
	XOV_COVER( "end" );
}
template< size_t R, size_t C > void labelled() {
	tab u = any_tab<R, C>(); const tab o = u; int v = xov::any_i32(); const tab& cu = u;
	index_t k = u.get_or_add_row( "x", v ), l = u.get_or_add_column( "y", v ); XOV_CHECK( k == R && l == C && u.find_row( "x" ) == R && u.find_column( "y" ) == C && u.get_or_add_row( "x" ) == R && u.get_or_add_column( "y" ) == C && u.row_size() == R + 1 && u.column_size() == C + 1, "rows and columns are found under their label" );
	for ( size_t i = 0; i < R + 1; ++i ) for ( size_t j = 0; j < C + 1; ++j ) XOV_CHECK( u( i, j ) == ( i < R && j < C ? o( i < R ? i : 0, j < C ? j : 0 ) : v ), "adding keeps the cells" );
	XOV_CHECK( cu( "x", "y" ) == v && cu( R, "y" ) == v && &u( "x", "y" ) == &u( R, C ) && cu.back_row( C ) == v, "lookup by label" );
	for ( size_t i = 0; i < R; ++i ) for ( size_t j = 0; j < C; ++j ) XOV_CHECK( cu( lab( i ), lab( j ) ) == o( i, j ), "lookup by label finds the cell" );
	u( "z", "y" ) = 5; XOV_CHECK( u.row_size() == R + 2 && cu( "z", "y" ) == 5, "writing to an unknown label adds it" );
	XOV_COVER( "end" );
}
XOV_PROOF( table_empty ) { resize<0, 0, 2, 2>(); resize<0, 2, 1, 3>(); resize<2, 0, 2, 1>(); }
XOV_PROOF( table_rows ) { resize<2, 2, 4, 2>(); resize<1, 3, 2, 3>(); }
XOV_PROOF( table_columns ) { resize<2, 2, 2, 3>(); resize<3, 1, 3, 3>(); }
XOV_PROOF( table_both ) { resize<2, 2, 3, 3>(); resize<2, 3, 3, 5>(); resize<2, 2, 2, 2>(); }
XOV_PROOF( table_labels11 ) { labelled<1, 1>(); }
XOV_PROOF( table_labels23 ) { labelled<2, 3>(); }
XOV_PROOF( table_labels00 ) { labelled<0, 0>(); }
// ---------------------------------------------------------------- the rest of the interface
template< size_t C > void channel_data() {
	sto s = any_sto<C>(); const sto o = s; std::vector<int> d = xov::any_vector<int>( 4 ); const size_t n = d.size(); xov::assume( n < 1000000000 && ( C > 0 || o.frame_size() == 0 ) );
	XOV_HINT_OBJ( [&]( const std::vector<int>& w, size_t p ) { return w.size() >= ( C + 1 ) * o.frame_size_ && xov::forall( 0, long( o.frame_size_ ), [&]( size_t f ) { for ( size_t c = 0; c < C; ++c ) if ( !( w[( C + 1 ) * f + c] == ( f < p ? o.data_[C * f + c] : 0 ) ) ) return false; return w[( C + 1 ) * f + C] == 0; } ); } );
	XOV_HINT( [&]( size_t p ) { return xov::forall( 0, long( p ), [&]( size_t f ) { return s.data_[( C + 1 ) * f + C] == d[f]; } ); } );
	XOV_HINT( [&]( size_t p ) { return xov::forall( 0, long( o.frame_size_ ), [&]( size_t f ) { for ( size_t c = 0; c < C; ++c ) if ( !( s.data_[( C + 1 ) * f + c] == o.data_[C * f + c] ) ) return false; return true; } ); } );
	index_t c = s.add_channel( "x", d );
	XOV_CHECK( c == C && s.channel_size() == C + 1 && s.frame_size() == ( n > o.frame_size() ? n : o.frame_size() ) && s.data().size() == ( C + 1 ) * s.frame_size() && s.find_channel( "x" ) == C, "a channel with data makes room for its values" );
	XOV_CHECK( xov::forall( 0, long( n ), [&]( size_t f ) { return s.data_[( C + 1 ) * f + C] == d[f]; } ), "the new channel holds the data" );
	XOV_CHECK( xov::forall( 0, long( o.frame_size() ), [&]( size_t f ) { for ( size_t k = 0; k < C; ++k ) if ( !( s.data_[( C + 1 ) * f + k] == o.data_[C * f + k] ) ) return false; return true; } ), "adding a channel with data keeps the others" );
	XOV_COVER( "end" );
}
XOV_PROOF( channel_data0 ) { channel_data<0>(); }
// fixed numbers of frames and values: the channel is longer than, as long as or shorter than the storage
template< size_t F, size_t N > void fixed_data() {
	sto s( F, 2 ); s.set_label( 0, "a" ); s.set_label( 1, "b" ); for ( size_t i = 0; i < 2 * F; ++i ) s.data()[i] = xov::any_i32(); const sto o = s; std::vector<int> d; for ( size_t i = 0; i < N; ++i ) d.push_back( xov::any_i32() );
	constexpr size_t M = N > F ? N : F; XOV_CHECK( s.add_channel( "x", d ) == 2 && s.channel_size() == 3 && s.frame_size() == M && s.data().size() == 3 * M && s.find_channel( "x" ) == 2 && s.find_channel( "b" ) == 1, "a channel with data makes room for its values" );
	for ( size_t f = 0; f < M; ++f ) XOV_CHECK( s( f, 2 ) == ( f < N ? d[f < N ? f : 0] : 0 ) && s( f, 0 ) == ( f < F ? o( f < F ? f : 0, 0 ) : 0 ) && s( f, 1 ) == ( f < F ? o( f < F ? f : 0, 1 ) : 0 ), "values keep their frame and channel, the new channel holds the data" );
	XOV_CHECK( xov::thrown( [&] { s.add_channel( "x", d ); } ), "a channel label is unique" ); XOV_COVER( "end" );
}
XOV_PROOF( channel_data_short ) { fixed_data<1, 0>(); fixed_data<3, 1>(); fixed_data<2, 2>(); }
XOV_PROOF( channel_data_long ) { fixed_data<0, 2>(); fixed_data<1, 2>(); fixed_data<2, 3>(); }
template< size_t C > void get_channels() {
	sto s = any_sto<C>(); const sto o = s; const sto& k = s; size_t c = xov::any_size( C - 1 ); xov::assume( c < C );
	XOV_HINT_OBJ( [&]( const std::vector<int>& w, size_t p ) { return w.size() == o.frame_size_ && xov::forall( 0, long( p ), [&]( size_t f ) { return w[f] == o.data_[C * f + c]; } ); } );
	std::vector<int> a = k.get_channel( c ); XOV_CHECK( a.size() == o.frame_size() && xov::forall( 0, long( o.frame_size() ), [&]( size_t f ) { return a[f] == o.data_[C * f + c]; } ), "a channel lists the value of each frame" );
	XOV_COVER( "end" );
}
XOV_PROOF( get_channel1 ) { get_channels<1>(); }
XOV_PROOF( get_channel3 ) { get_channels<3>(); }
template< size_t F > void small_storage() {
	sto s( F, 2, 5 ); XOV_CHECK( s.frame_size() == F && s.channel_size() == 2 && s.data().size() == 2 * F && s.empty() == ( F == 0 ), "a new storage has the requested shape" );
	for ( size_t i = 0; i < 2 * F; ++i ) XOV_CHECK( s.data()[i] == 5, "a new storage has the given value" );
	s.set_label( 0, "a" ); s.set_label( 1, "b" ); XOV_CHECK( s.get_label( 1 ) == "b" && s.labels().size() == 2 && s.try_find_channel( "b" ) == 1 && s.try_find_channel( "a" ) == 0 && s.try_find_channel( "x" ) == no_index, "labels are set" );
	for ( size_t i = 0; i < 2 * F; ++i ) s.data()[i] = xov::any_i32(); const sto o = s; const sto& k = s;
	if constexpr ( F > 0 ) {
		XOV_CHECK( &s.front()[0] == &s( 0, 0 ) && &k.front()[1] == &k( 0, 1 ) && &k.back()["a"] == &k( F - 1, 0 ) && &s.back()["b"] == &s( F - 1, 1 ) && &k.data()[1] == &k( 0, 1 ), "front and back are the first and the last frame" );
		auto b = k.get_channel( "b" ); XOV_CHECK( b.size() == F && b[F - 1] == o( F - 1, 1 ) && b[0] == o( 0, 1 ), "channels are found by label" );
		XOV_CHECK( xov::thrown( [&] { k.front()["z"]; } ) && xov::thrown( [&] { k.get_channel( "z" ); } ), "reading an unknown label is refused" );
		s.front()["z"] = 9; XOV_CHECK( s.channel_size() == 3 && s( 0, 2 ) == 9 && s.find_channel( "z" ) == 2, "writing to an unknown label adds a channel" );
		for ( size_t f = 0; f < F; ++f ) XOV_CHECK( s( f, 0 ) == o( f, 0 ) && s( f, 1 ) == o( f, 1 ), "writing to an unknown label keeps the values" );
	}
	sto t = o; XOV_CHECK( t.find_or_add_channel( "b", 3 ) == 1 && t.channel_size() == 2 && t.find_or_add_channel( "c", 3 ) == 2 && t.channel_size() == 3, "find_or_add_channel adds only unknown labels" );
	for ( size_t f = 0; f < F; ++f ) XOV_CHECK( t( f, 2 ) == 3, "an added channel has the given value" );
	t.clear(); XOV_CHECK( t.frame_size() == 0 && t.channel_size() == 0 && t.empty() && t.try_find_channel( "a" ) == no_index, "clear removes everything" );
	size_t i = 0; for ( auto& l : o.labels() ) { XOV_CHECK( l == lab( i ), "labels are listed in order" ); ++i; } XOV_CHECK( i == 2, "every label is listed" );
	XOV_COVER( "end" );
}
XOV_PROOF( storage0 ) { small_storage<0>(); }
XOV_PROOF( storage1 ) { small_storage<1>(); }
XOV_PROOF( storage2 ) { small_storage<2>(); }
XOV_PROOF( plain_labels ) { label_vector<void> v( 3 ); XOV_CHECK( v.size() == 3 && v.add() == 3 && v.size() == 4 && v.get_label( 2 ) == 2, "without labels an index is its own label" ); lv l = some_labels( 2 ); l.reserve( 9 ); XOV_CHECK( l.size() == 2 && l.find( "b" ) == 1, "reserve changes nothing" ); l.resize( 3 ); XOV_CHECK( l.size() == 3 && l[0] == "a" && l[2].empty() && xov::thrown( [&] { l.resize( 2 ); } ) && xov::thrown( [&] { l.set( 3, "q" ); } ), "labels can only grow" ); XOV_COVER( "end" ); }
XOV_PROOF( table_rest ) {
	tab e; XOV_CHECK( e.empty() && e.row_size() == 0 && e.column_size() == 0, "a default table is empty" );
	tab t( 2, 2 ); XOV_CHECK( !t.empty() && t.row_size() == 2 && t.column_size() == 2 && t( 1, 1 ) == 0 && t.find_row( "a" ) == no_index, "a table has the requested shape" );
	tab u = any_tab<2, 2>(); const tab o = u; int v = xov::any_i32(), w = xov::any_i32(); u.back_row( 1 ) = v; XOV_CHECK( u( 1, 1 ) == v && u( 1, 0 ) == o( 1, 0 ) && u( 0, 1 ) == o( 0, 1 ) && u( 0, 0 ) == o( 0, 0 ), "writing changes one cell" );
	XOV_CHECK( u.add_row( "r", w ) == 2 && u.add_column( "s", v ) == 2 && u( 2, 0 ) == w && u( 2, 1 ) == w && u( 0, 2 ) == v && u( 2, 2 ) == v && u( 0, 0 ) == o( 0, 0 ) && u( 1, 0 ) == o( 1, 0 ), "added cells have the given value" );
	XOV_CHECK( xov::thrown( [&] { u.add_row( "r" ); } ), "a row label is unique" );
	const tab& cu = u; XOV_CHECK( xov::thrown( [&] { cu( "q", "a" ); } ) && xov::thrown( [&] { cu( 0, "q" ); } ) && cu( 0, "s" ) == v, "reading an unknown label is refused" );
	XOV_COVER( "end" );
}
