From 21f8fd335d2ba5ef63f5a6d35e7d9a1cdaefdc38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:36 +0000
Subject: [PATCH 01/56] fix: flat_map and flat_set list constructors keep one
 element per key

---
 xo/container/flat_map.h | 5 +----
 xo/container/flat_set.h | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/xo/container/flat_map.h b/xo/container/flat_map.h
index 7c8a95e..09dfcf0 100644
--- a/xo/container/flat_map.h
+++ b/xo/container/flat_map.h
@@ -26,7 +26,7 @@ namespace xo
 		~flat_map() = default;
 		flat_map( const flat_map& ) = default;
 		flat_map( flat_map&& other ) = default;
-		flat_map( std::initializer_list< value_type > l ) : data_( l ) { sort(); }
+		flat_map( std::initializer_list< value_type > l ) { reserve( l.size() ); for ( const auto& v : l ) insert( v ); }
 		flat_map& operator=( const flat_map& other ) = default;
 		flat_map& operator=( flat_map&& other ) = default;
 
@@ -128,9 +128,6 @@ namespace xo
 
 	private:
 		container_t data_;
-		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const value_type& a, const value_type& b ) { return a.first < b.first; } );
-		}
 	};
 
 	/// convert flat_map to string
diff --git a/xo/container/flat_set.h b/xo/container/flat_set.h
index 370019b..f154d3a 100644
--- a/xo/container/flat_set.h
+++ b/xo/container/flat_set.h
@@ -23,7 +23,7 @@ namespace xo
 		~flat_set() = default;
 		flat_set( const flat_set& other ) = default;
 		flat_set( flat_set&& other ) = default;
-		flat_set( std::initializer_list< key_type > l ) : data_( l ) { sort(); }
+		flat_set( std::initializer_list< key_type > l ) { reserve( l.size() ); for ( const auto& v : l ) insert( v ); }
 		flat_set& operator=( const flat_set& other ) = default;
 		flat_set& operator=( flat_set&& other ) = default;
 
@@ -104,9 +104,6 @@ namespace xo
 
 	private:
 		container_t data_;
-		void sort() {
-			std::sort( data_.begin(), data_.end(), [&]( const key_type& a, const key_type& b ) { return a < b; } );
-		}
 	};
 
 	/// convert flat_set to string
-- 
2.43.0


From 9a4bb8443396204875ad8811366c75edccbb9771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:39 +0000
Subject: [PATCH 02/56] fix: circular_deque keeps its elements in order when it
 grows

---
 xo/container/circular_deque.h | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/xo/container/circular_deque.h b/xo/container/circular_deque.h
index ea89fb9..dfb97e6 100644
--- a/xo/container/circular_deque.h
+++ b/xo/container/circular_deque.h
@@ -17,7 +17,11 @@ namespace xo
 		~circular_deque() {}
 
 		void push_back( const T& value ) {
-			if ( ++size_ > capacity() ) buffer_.insert( buffer_.begin() + ( front_ + size_ - 1 ), value );
+			if ( ++size_ > capacity() ) {
+				// the slot before front_ comes after back()
+				buffer_.insert( buffer_.begin() + front_, value );
+				front_ = ( front_ + 1 ) % capacity();
+			}
 			else back() = value;
 		}
 		void push_front( const T& value ) {
@@ -32,7 +36,7 @@ namespace xo
 		void pop_front() { xo_assert( size_ > 0 ); front_ = ( front_ + 1 ) % capacity(); --size_; }
 
 		T& back() { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
-		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ ) % capacity()]; }
+		const T& back() const { xo_assert( size_ > 0 ); return buffer_[( front_ + size_ - 1 ) % capacity()]; }
 
 		T& front() { xo_assert( size_ > 0 ); return buffer_[front_]; }
 		const T& front() const { xo_assert( size_ > 0 ); return buffer_[front_]; }
@@ -43,7 +47,14 @@ namespace xo
 		bool full() const { return size() == capacity(); }
 		void clear() { front_ = size_ = 0; }
 
-		void reserve( size_t s ) { buffer_.resize( s ); }
+		void reserve( size_t s ) {
+			if ( s > capacity() ) {
+				// insert the new slots before front_, so elements that wrap around stay in sequence
+				auto extra = s - capacity();
+				buffer_.insert( buffer_.begin() + front_, extra, T() );
+				front_ = ( front_ + extra ) % capacity();
+			}
+		}
 		size_t capacity() const { return buffer_.size(); }
 
 		template< typename IT > struct iterator_impl
@@ -55,7 +66,7 @@ namespace xo
 			using reference = IT&;
 			iterator_impl( size_t index, const buffer_type& buffer ) : index_( index ), buffer_( buffer ) {}
 			iterator_impl< IT >& operator++() { ++index_; return *this; }
-			iterator_impl< IT >& operator++( int ) { auto ret = *this; ++index_; return ret; }
+			iterator_impl< IT > operator++( int ) { auto ret = *this; ++index_; return ret; }
 			iterator_impl< IT > operator+( int v ) const { return iterator_impl< IT >( index_ + v, buffer_ ); }
 			iterator_impl< IT > operator-( int v ) const { return iterator_impl< IT >( index_ - v, buffer_ ); }
 			auto operator-( const iterator_impl< IT >& other ) const { return index_ - other.index_; }
-- 
2.43.0


From e616f3e675fd4b2cb72081df0df3118c9bcce05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 03/56] fix: indexed_set stays consistent when it runs out of
 indices

---
 xo/container/indexed_set.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/indexed_set.h b/xo/container/indexed_set.h
index 61ea1cd..e686fbc 100644
--- a/xo/container/indexed_set.h
+++ b/xo/container/indexed_set.h
@@ -26,10 +26,10 @@ namespace xo
 		I get_or_add( const T& value ) {
 			auto it = indices_.find( value );
 			if ( it == indices_.end() ) { // add new
-				values_.push_back( value );
-				auto index = values_.size() - 1;
+				auto index = values_.size();
 				// check if the index is valid (must be SMALLER than max to avoid sentinel)
 				xo_error_if( index >= size_t( constants<I>::max() ), "index_set overflow" );
+				values_.push_back( value );
 				return indices_[value] = static_cast<I>( index );
 			}
 			else return it->second; // get existing
-- 
2.43.0


From ee72b808442f78d46bf71719b02bb6bbe8ed69fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 04/56] fix: collection_ic::erase returns the index it promises

---
 xo/container/collection_ic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/collection_ic.h b/xo/container/collection_ic.h
index e21f6ba..b52e0d1 100644
--- a/xo/container/collection_ic.h
+++ b/xo/container/collection_ic.h
@@ -23,7 +23,7 @@ namespace xo
 		template< typename T > const T& operator[]( index_class<T, I> i ) const { return get_vec<T>()[i.idx]; }
 		template< typename T > T& operator[]( index_class<T, I> i ) { return get_vec<T>()[i.idx]; }
 
-		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); }
+		template< typename T > index_class<T, I> erase( index_class<T, I> i ) { auto& v = get_vec<T>(); v.erase( i.iter( v ) ); return i; }
 		template< typename T > void pop_back() { get_vec<T>().pop_back(); }
 
 		template< typename T > const std::vector<T>& get_vec() const { return std::get< std::vector<T> >( data_ ); }
-- 
2.43.0


From 619189fe564a21cebbe7aac715d6f87596dbfcd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 05/56] fix: label_vector keeps labels and indices in step

---
 xo/container/label_vector.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xo/container/label_vector.h b/xo/container/label_vector.h
index 118dbbd..46bbec9 100644
--- a/xo/container/label_vector.h
+++ b/xo/container/label_vector.h
@@ -11,8 +11,8 @@ namespace xo
 	struct label_vector
 	{
 		label_vector( size_t channels = 0 ) : labels_( channels ) {}
-		label_vector( std::initializer_list< L > labels ) : labels_( labels ) {}
-		label_vector( const std::vector< L >& labels ) : labels_( labels ) {}
+		label_vector( std::initializer_list< L > labels ) { for ( auto& l : labels ) add( l ); }
+		label_vector( const std::vector< L >& labels ) { for ( auto& l : labels ) add( l ); }
 		~label_vector() {}
 
 		index_t add( const L& label ) {
@@ -32,7 +32,7 @@ namespace xo
 			return it->second;
 		}
 
-		index_t find_or_add( const L& label ) const {
+		index_t find_or_add( const L& label ) {
 			auto it = label_indices_.find( label );
 			if ( it == label_indices_.end() ) {
 				labels_.push_back( label );
@@ -51,6 +51,9 @@ namespace xo
 
 		index_t set( index_t idx, const L& label ) {
 			xo_assert( idx < size() && find( label ) == no_index );
+			auto it = label_indices_.find( labels_[idx] );
+			if ( it != label_indices_.end() && it->second == idx )
+				label_indices_.erase( it ); // the previous label no longer refers to this index
 			labels_[idx] = label;
 			label_indices_[label] = idx;
 			return idx;
-- 
2.43.0


From 2fedbdb20accb272dee0edb784560c48f87fa80c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 06/56] fix: table grows its data when rows are added and
 returns const lookups

---
 xo/container/table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/container/table.h b/xo/container/table.h
index 0c00ff9..5f2a7b1 100644
--- a/xo/container/table.h
+++ b/xo/container/table.h
@@ -48,7 +48,7 @@ namespace xo
 			xo_error_if( rows < row_size() || cols < column_size(), "tables cannot be shrinked" );
 
 			// reorganize existing data
-			data.resize( row_size() * cols );
+			data.resize( rows * cols );
 			for ( index_t ri = rows; ri-- > 0; )
 				for ( index_t ci = cols; ci-- > 0; )
 					data[cols * ri + ci] = ( ri < row_size() && ci < column_size() ) ? data[column_size() * ri + ci] : default_value;
@@ -63,7 +63,7 @@ namespace xo
 		const T& operator()( index_t row, index_t col ) const { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 		T& operator()( index_t row, index_t col ) { xo_assert( row < row_size() && col < column_size() ); return data[row * column_size() + col]; }
 
-		const T& operator()( const L& row, const L& col ) const { operator()( find_row( row ), find_column( col ) ); }
+		const T& operator()( const L& row, const L& col ) const { return operator()( find_row( row ), find_column( col ) ); }
 		T& operator()( const L& row, const L& col ) { return operator()( get_or_add_row( row ), get_or_add_column( col ) ); }
 
 		const T& operator()( index_t row, const L& col ) const { return operator()( row, find_column( col ) ); }
-- 
2.43.0


From 916b749d113824babb0ab1c04f01320650ed2f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:43 +0000
Subject: [PATCH 07/56] fix: find_frame_index considers the first frame

---
 xo/container/storage_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/storage_tools.h b/xo/container/storage_tools.h
index 5b483fc..b2803aa 100644
--- a/xo/container/storage_tools.h
+++ b/xo/container/storage_tools.h
@@ -43,7 +43,7 @@ namespace xo
 		first = xo::min( first, sto.frame_size() - 1 );
 
 		// check if value is closer to lower_bound frame or to prev
-		if ( first > 1 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
+		if ( first > 0 && ( val - sto( first - 1, ch ) < sto( first, ch ) - val ) )
 			return first - 1;
 		else return first;
 	}
-- 
2.43.0


From 80a902e9ee619153218231db7b39e9d73c17a73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:10 +0000
Subject: [PATCH 08/56] fix: flag_set can clear a list of flags

---
 xo/container/flag_set.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xo/container/flag_set.h b/xo/container/flag_set.h
index 674e80c..799e85e 100644
--- a/xo/container/flag_set.h
+++ b/xo/container/flag_set.h
@@ -43,6 +43,10 @@ namespace xo
 			data_ |= storage_bit( index );
 			return *this;
 		}
+		flag_set& clear( EnumT index ) {
+			data_ &= ~storage_bit( index );
+			return *this;
+		}
 		template< EnumT index > flag_set& clear() {
 			data_ &= ~storage_bit( index );
 			return *this;
-- 
2.43.0


From 32e7669b5f31944d7c632a9317bbde3b5159f3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:25 +0000
Subject: [PATCH 09/56] fix: copy_container and accumulate compile for standard
 containers

---
 xo/container/container_algorithms.h | 4 ++--
 xo/container/container_tools.h      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 9e2389c..0f55175 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -26,12 +26,12 @@ namespace xo
 
 	template< typename C, typename T >
 	T accumulate( const C& cont, T init ) {
-		return accumulate( std::cbegin( cont ), std::cend( cont ), init );
+		return xo::accumulate( std::cbegin( cont ), std::cend( cont ), init );
 	}
 
 	template< typename C, typename T, typename Op >
 	T accumulate( const C& cont, T init, Op op ) {
-		return accumulate( std::cbegin( cont ), std::cend( cont ), init, op );
+		return xo::accumulate( std::cbegin( cont ), std::cend( cont ), init, op );
 	}
 
 	template< typename It, typename T >
diff --git a/xo/container/container_tools.h b/xo/container/container_tools.h
index 7940b8e..66e0006 100644
--- a/xo/container/container_tools.h
+++ b/xo/container/container_tools.h
@@ -119,13 +119,13 @@ namespace xo
 	/// copy elements of one container to another (with range checking)
 	template< typename InC, typename OutC > void copy_container( const InC& source, OutC& target ) {
 		xo_assert( std::size( source ) <= std::size( target ) );
-		copy( std::begin( source ), std::end( source ), std::begin( target ) );
+		xo::copy( std::begin( source ), std::end( source ), std::begin( target ) );
 	}
 
 	/// copy elements of one container to another, explicitly casting to target value type (with range checking)
 	template< typename InC, typename OutC > void copy_cast( const InC& source, OutC& target ) {
 		xo_assert( std::size( source ) <= std::size( target ) );
-		copy_cast( std::begin( source ), std::end( source ), std::begin( target ) );
+		xo::copy_cast( std::begin( source ), std::end( source ), std::begin( target ) );
 	}
 
 	/// append a container to another
-- 
2.43.0


From 9c0bc93f52c75af4dcfb039d947dba0742a871f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:00 +0000
Subject: [PATCH 10/56] fix: bounded returns itself from assignments

---
 xo/numerical/bounded.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/numerical/bounded.h b/xo/numerical/bounded.h
index 062812a..502cfdf 100644
--- a/xo/numerical/bounded.h
+++ b/xo/numerical/bounded.h
@@ -9,9 +9,9 @@ namespace xo
 	{
 		bounded() {}
 		bounded( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( T value ) { set( value ); }
-		bounded< T, L, U >& operator=( bounded< T, L, U >& value ) { set( value ); }
-		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; }
+		bounded< T, L, U >& operator=( T value ) { return set( value ); }
+		bounded< T, L, U >& operator=( const bounded< T, L, U >& value ) { value_ = value.value_; return *this; }
+		bounded< T, L, U >& set( T value ) { if ( value < L || value > U ) xo_error( "Value out of bounds" ); else value_ = value; return *this; }
 
 		operator const T& ( ) const { return value_; }
 		operator T& ( ) { return value_; }
-- 
2.43.0


From 04ddbc1228d0432c1d79587bf12cc51782f30060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:07 +0000
Subject: [PATCH 11/56] fix: bounds::soft_clamped passes the boundary on

---
 xo/numerical/bounds.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/bounds.h b/xo/numerical/bounds.h
index 8313908..e0fde37 100644
--- a/xo/numerical/bounds.h
+++ b/xo/numerical/bounds.h
@@ -39,7 +39,7 @@ namespace xo
 		T& clamp( T& value ) const { return xo::clamp( value, lower, upper ); }
 		T clamped( T value ) const { return xo::clamped( value, lower, upper ); }
 		T& soft_clamp( T& value, const T& boundary ) const { return xo::soft_clamp( value, lower, upper, boundary ); }
-		T soft_clamped( T value ) const { return xo::soft_clamped( value, lower, upper ); }
+		T soft_clamped( T value, const T& boundary ) const { return xo::soft_clamped( value, lower, upper, boundary ); }
 
 		// return inverted bounds
 		bounds< T > operator-() const { return bounds( -upper, -lower ); }
-- 
2.43.0


From f6f5ffcad66b02e6d1fa3d3fc6592ce0dcdcc039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:10 +0000
Subject: [PATCH 12/56] fix: delayer starts with the initial value

---
 xo/numerical/delayer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/xo/numerical/delayer.h b/xo/numerical/delayer.h
index 2cfbf53..3221065 100644
--- a/xo/numerical/delayer.h
+++ b/xo/numerical/delayer.h
@@ -13,8 +13,8 @@ namespace xo
 			window_( delay / ( N - 1 ) ),
 			time_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
@@ -47,8 +47,8 @@ namespace xo
 			time_( 0 ),
 			inter_( 0 ),
 			idx_( 0 ),
-			data_{ init_value }
-		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); }
+			data_()
+		{ static_assert( N >= 2 ); xo_assert( delay > 0 ); data_.fill( init_value ); }
 
 		void add_sample( const T& value, float delta_time ) {
 			time_ += delta_time;
-- 
2.43.0


From 0e1a462d32548a88b427fad221e0cd45d74ab646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:12 +0000
Subject: [PATCH 13/56] fix: lerp_precise interpolates instead of extrapolating

---
 xo/numerical/interpolation.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/interpolation.h b/xo/numerical/interpolation.h
index 67dcf29..fe191cb 100644
--- a/xo/numerical/interpolation.h
+++ b/xo/numerical/interpolation.h
@@ -12,7 +12,7 @@ namespace xo
 
 	/// linearly interpolate between v1 (t=0) and v2 (t=1)
 	template< typename T, typename S > T lerp_precise( const T& v1, const T& v2, const S& t ) {
-		return ( t - T( 1 ) ) * v1 + t * v2;
+		return ( S( 1 ) - t ) * v1 + t * v2;
 	}
 
 	template< typename M >
-- 
2.43.0


From a35d2226f9e05db5700f93c7934813d0b9f41ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 14/56] fix: periodic helpers and count_digits respect their
 period and base

---
 xo/numerical/math.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 374ef33..244b025 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -72,7 +72,7 @@ namespace xo
 
 	/// count the digits if a positive integer, given a base
 	inline size_t count_digits( size_t value, size_t base = 10 )
-	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= 10; return digits; }
+	{ size_t digits = 1; for ( ; value >= base; ++digits ) value /= base; return digits; }
 
 	/// round and cast to integer type
 	template< typename TI, typename TF >
@@ -137,9 +137,15 @@ namespace xo
 	/// check a value is within a range
 	template< typename T > bool is_between( T v, T min, T max ) { return ( v >= min && v <= max ); }
 
+	/// positive modulo
+	template< typename T > T pos_mod( T x, T y ) {
+		auto r = fmod( x, y );
+		return r < 0 ? T( r + y ) : T( r );
+	}
+
 	/// square wave, period = 2, min = 0, max = 1
 	template< typename T > T square_wave( T v ) {
-		return std::fmod( v, T( 2 ) ) < T( 1 ) ? T( 1 ) : T( 0 );
+		return pos_mod( v, T( 2 ) ) < T( 1 ) ? T( 1 ) : T( 0 );
 	}
 
 	/// triangle wave, period = 2, min = 0, max = 1
@@ -147,11 +153,6 @@ namespace xo
 		return T( 2 ) * std::abs( T( 0.5 ) * v - std::floor( T( 0.5 ) * v + T( 0.5 ) ) );
 	}
 
-	/// positive modulo
-	template< typename T > T pos_mod( T x, T y ) {
-		return fmod( x, y ) + T( x < 0 ) * y;
-	}
-
 	/// triangle wave between l and u, period = 2(u-l).
 	template< typename T > T triangle_wave( T v, T l, T u ) {
 		auto a = u - l;
-- 
2.43.0


From 7ae2d7141a77831b2d25ab883bd2f2939cf204b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:21 +0000
Subject: [PATCH 15/56] fix: piecewise functions return points of their own
 type

---
 xo/numerical/piecewise_constant_function.h | 2 +-
 xo/numerical/piecewise_linear_function.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/numerical/piecewise_constant_function.h b/xo/numerical/piecewise_constant_function.h
index 51b7ece..8fb6e65 100644
--- a/xo/numerical/piecewise_constant_function.h
+++ b/xo/numerical/piecewise_constant_function.h
@@ -27,7 +27,7 @@ namespace xo
 		}
 
 		const container_t& data() { return data_; }
-		const std::pair< double, double >& point( index_t i ) { return *( data_.begin() + i ); }
+		const typename container_t::value_type& point( index_t i ) { return *( data_.begin() + i ); }
 		size_t size() const { return data_.size(); }
 
 	private:
diff --git a/xo/numerical/piecewise_linear_function.h b/xo/numerical/piecewise_linear_function.h
index 775a41d..4223b8e 100644
--- a/xo/numerical/piecewise_linear_function.h
+++ b/xo/numerical/piecewise_linear_function.h
@@ -31,7 +31,7 @@ namespace xo
 		}
 
 		const container_t& data() { return data_; }
-		const std::pair< double, double >& point( index_t i ) { return *( data_.begin() + i ); }
+		const typename container_t::value_type& point( index_t i ) { return *( data_.begin() + i ); }
 		size_t size() const { return data_.size(); }
 
 	private:
-- 
2.43.0


From 2dda7f7834a8df0a7784c1db6058257b459c9b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:37 +0000
Subject: [PATCH 16/56] fix: soft_clamp returns the clamped value, as bounds
 expects

---
 xo/numerical/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/numerical/math.h b/xo/numerical/math.h
index 244b025..4980301 100644
--- a/xo/numerical/math.h
+++ b/xo/numerical/math.h
@@ -96,7 +96,7 @@ namespace xo
 	template< typename T > T limit_transform( T x, T limit ) { return limit - limit * limit / ( x + limit ); }
 
 	/// clamp with smooth boundary transformation
-	template< typename T > T soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
+	template< typename T > T& soft_clamp( T& v, const T& min, const T& max, const T& boundary ) {
 		auto r = boundary * ( max - min );
 		if ( v > max - r ) v = max - r + limit_transform( v - max + r, r );
 		else if ( v < min + r )	v = min + r - limit_transform( min + r - v, r );
-- 
2.43.0


From 3bb72b245069b0773a611451f86597113dcc3244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 17/56] fix: dynarray survives self-assignment and leaves
 moved-from arrays empty

---
 xo/container/dynarray.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/container/dynarray.h b/xo/container/dynarray.h
index f20249e..1344dcc 100644
--- a/xo/container/dynarray.h
+++ b/xo/container/dynarray.h
@@ -18,9 +18,9 @@ namespace xo
 		dynarray() : data_( nullptr ), end_( nullptr ) {}
 		dynarray( size_t n, const T& v = T() ) : data_( new T[n] ), end_( data_.get() + n ) { assign( v ); }
 		dynarray( const dynarray& o ) : data_( new T[o.size()] ), end_( data_.get() + o.size() ) { xo::copy( o.begin(), o.end(), begin() ); }
-		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) {}
-		dynarray<T>& operator=( const dynarray& o ) { data_ = u_ptr< T[] >( new T[o.size()] ); end_ = data_.get() + o.size(); xo::copy( o.begin(), o.end(), begin() ); return *this; }
-		dynarray<T>& operator=( dynarray&& o ) noexcept { data_ = std::move( o.data_ ); end_ = o.end_; return *this; }
+		dynarray( dynarray&& o ) noexcept : data_( std::move( o.data_ ) ), end_( o.end_ ) { o.end_ = nullptr; }
+		dynarray<T>& operator=( const dynarray& o ) { return *this = dynarray( o ); }
+		dynarray<T>& operator=( dynarray&& o ) noexcept { if ( this != &o ) { data_ = std::move( o.data_ ); end_ = o.end_; o.end_ = nullptr; } return *this; }
 		~dynarray() {}
 
 		T& operator[]( size_t i ) { return data_[i]; }
-- 
2.43.0


From 5c62a7f37206d80cc955249e838ad36324b66614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:30 +0000
Subject: [PATCH 18/56] fix: dynmat times dynvec compiles and multiplies rows
 with the vector

---
 xo/geometry/dynmat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/dynmat.h b/xo/geometry/dynmat.h
index 1057321..9ddad7f 100644
--- a/xo/geometry/dynmat.h
+++ b/xo/geometry/dynmat.h
@@ -50,13 +50,13 @@ namespace xo
 
 	template< typename T > dynvec< T > operator*( const dynmat< T >& m, const dynvec< T >& v )
 	{
-		flut_assert( m.cols() == v.size() );
+		xo_assert( m.cols() == v.size() );
 		dynvec< T > r( m.rows() );
 		for ( index_t row = 0; row < m.rows(); ++row )
 		{
 			T sum = 0.0;
 			for ( index_t col = 0; col < m.cols(); ++col )
-				sum += m( row, col ) * v[col];
+				sum += m( col, row ) * v[col];
 			r[row] = sum;
 		}
 		return r;
-- 
2.43.0


From b1aa5b5b670b8b8ad55a1ddc41b820a8affad6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:15 +0000
Subject: [PATCH 19/56] fix: vec4 operators left out the w component

---
 xo/geometry/vec4.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/xo/geometry/vec4.h b/xo/geometry/vec4.h
index e4ef529..b0d15e1 100644
--- a/xo/geometry/vec4.h
+++ b/xo/geometry/vec4.h
@@ -1,7 +1,7 @@
 #pragma once
 
 #include "vec4_type.h"
-#include "math.h"
+#include "xo/numerical/math.h"
 
 namespace xo
 {
@@ -14,30 +14,30 @@ namespace xo
 
 	/// Subtraction
 	template< typename T > vec4_<T> operator-( const vec4_<T>& v1, const vec4_<T>& v2 )
-	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z ); }
+	{ return vec4_<T>( v1.x - v2.x, v1.y - v2.y, v1.z - v2.z, v1.w - v2.w ); }
 	/// Subtraction
 	template< typename T > vec4_<T>& operator-=( vec4_<T>& v1, const vec4_<T>& v2 )
-	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; return v1; }
+	{ v1.x -= v2.x; v1.y -= v2.y; v1.z -= v2.z; v1.w -= v2.w; return v1; }
 
 	/// Negation
 	template< typename T > vec4_<T> operator-( vec4_<T> v )
-	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; return v; }
+	{ v.x = -v.x; v.y = -v.y; v.z = -v.z; v.w = -v.w; return v; }
 
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( T s, vec4_<T> v )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T> operator*( vec4_<T> v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 	/// Scalar multiplication
 	template< typename T > vec4_<T>& operator*=( vec4_<T>& v, T s )
-	{ v.x *= s; v.y *= s; v.z *= s; return v; }
+	{ v.x *= s; v.y *= s; v.z *= s; v.w *= s; return v; }
 
 	/// Scalar division
 	template< typename T > vec4_<T> operator/( vec4_<T> v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 	/// Scalar division
 	template< typename T > vec4_<T>& operator/=( vec4_<T>& v, T s )
-	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; return v; }
+	{ T ms = inv( s ); v.x *= ms; v.y *= ms; v.z *= ms; v.w *= ms; return v; }
 }
 
-- 
2.43.0


From 2823dd120eb2f7abcd7271ac02109ba03a8fdaeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:21 +0000
Subject: [PATCH 20/56] fix: vec3 scaled returned a reference to its by-value
 parameter

---
 xo/geometry/vec3.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/vec3.h b/xo/geometry/vec3.h
index a40e2c2..34845d8 100644
--- a/xo/geometry/vec3.h
+++ b/xo/geometry/vec3.h
@@ -132,7 +132,7 @@ namespace xo
 	{ v.x *= s.x; v.y *= s.y; v.z *= s.z; return v; }
 
 	/// Scale vector elements
-	template< typename T > vec3_<T>& scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
+	template< typename T > vec3_<T> scaled( vec3_<T> v, const vec3_<T>& s ) { return scale( v, s ); }
 
 	/// Projection of v1 onto v2
 	template< typename T > vec3_<T> projection( const vec3_<T>& v1, const vec3_<T>& v2 )
-- 
2.43.0


From bd7b204ec1d8d61b6615c791c55e70702bb6d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:29 +0000
Subject: [PATCH 21/56] fix: quaternion inverse did not scale w

---
 xo/geometry/quat.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index b53a4b5..c2cecfe 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -100,9 +100,9 @@ namespace xo
 	/// get quaternion conjugate
 	template< typename T > quat_<T> operator-( quat_<T> q ) { q.x = -q.x; q.y = -q.y; q.z = -q.z; return q; }
 
-	/// get quaternion inverse; #todo: verify correctness
+	/// get quaternion inverse
 	template< typename T > quat_<T> inverse( quat_<T> q )
-	{ auto f = T( -1 ) / squared_length( q ); q.x *= f; q.y *= f; q.z *= f; return q; }
+	{ auto f = T( 1 ) / squared_length( q ); q.w *= f; q.x *= -f; q.y *= -f; q.z *= -f; return q; }
 
 	/// return quaternion in which w is positive (negate if w < 0)
 	template< typename T > quat_<T> positive( quat_<T> q )
-- 
2.43.0


From efc1d37e31432cc2e4dc767cfdeec6f6847dd107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:36 +0000
Subject: [PATCH 22/56] fix: quat_from_mat33 needs const element access

---
 xo/geometry/mat33_type.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/xo/geometry/mat33_type.h b/xo/geometry/mat33_type.h
index 820b202..8021e3b 100644
--- a/xo/geometry/mat33_type.h
+++ b/xo/geometry/mat33_type.h
@@ -18,7 +18,9 @@ namespace xo
 
 		T e00, e01, e02, e10, e11, e12, e20, e21, e22;
 		T* operator[]( index_t row ) { return &ptr()[row * 3]; }
+		const T* operator[]( index_t row ) const { return &ptr()[row * 3]; }
 		T* ptr() { return &e00; }
+		const T* ptr() const { return &e00; }
 	};
 
 	using mat33f = mat33_< float >;
-- 
2.43.0


From 147fc267863958528968f24c925b780c27acdc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:50 +0000
Subject: [PATCH 23/56] fix: mirror_tools.h used an undeclared vector type

---
 xo/geometry/mirror_tools.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/geometry/mirror_tools.h b/xo/geometry/mirror_tools.h
index 61d14d2..e7496c9 100644
--- a/xo/geometry/mirror_tools.h
+++ b/xo/geometry/mirror_tools.h
@@ -73,7 +73,8 @@ namespace xo
 		return obj;
 	}
 
-	inline vec3 mirrored_axis_if( vec3 dir, bool m ) {
+	template< typename T >
+	vec3_<T> mirrored_axis_if( vec3_<T> dir, bool m ) {
 		if ( m )
 			mirror_axis( dir );
 		return dir;
-- 
2.43.0


From 040bbde273178272119bf017f363205aa2f67b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:28 +0000
Subject: [PATCH 24/56] fix: capsule inertia multiplied by the cylinder mass
 twice

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index 894ddc4..c5ee469 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -36,7 +36,7 @@ namespace xo
 
 		float m1 = pi * r2 * h * density;
 		float m2 = ( 4.0f / 3.0f ) * pi * r3 * density;
-		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * m1 * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
+		float Ia = m1 * ( 0.25f * r2 + ( 1.0f / 12.0f ) * h * h ) + m2 * ( 0.4f * r2 + 0.375f * r * h + 0.25f * h * h );
 		float Ib = ( m1 * 0.5f + m2 * 0.4f ) * r2;
 
 		return vec3f{ Ia, Ib, Ia };
-- 
2.43.0


From 84e75069b9c39856ef2ae8bbe1e64ae85223ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 25/56] fix: dimensions of a capsule left out its caps

---
 xo/shape/capsule.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/capsule.h b/xo/shape/capsule.h
index c5ee469..435af62 100644
--- a/xo/shape/capsule.h
+++ b/xo/shape/capsule.h
@@ -20,7 +20,7 @@ namespace xo
 	}
 
 	inline vec3f dim( const capsule& s ) {
-		return vec3f( 2.0f * s.radius_, s.height_, 2.0f * s.radius_ );
+		return vec3f( 2.0f * s.radius_, s.height_ + 2.0f * s.radius_, 2.0f * s.radius_ );
 	}
 
 	inline aabbf aabb( const capsule& s, const transformf& t ) {
-- 
2.43.0


From 5b65c704fb7675827a550b6d495680ce03026467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:31 +0000
Subject: [PATCH 26/56] fix: distance to the top of a cylinder

---
 xo/shape/shape_tools.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/shape/shape_tools.h b/xo/shape/shape_tools.h
index ce9e09f..7270db7 100644
--- a/xo/shape/shape_tools.h
+++ b/xo/shape/shape_tools.h
@@ -24,7 +24,7 @@ namespace xo
 		const auto r = s.radius_;
 		auto vxz = std::sqrt( dir.x * dir.x + dir.z * dir.z );
 		if ( std::abs( dir.y ) * r > hh * vxz )
-			return std::sqrt( hh * hh + vxz * vxz ); // point is on cylinder top
+			return hh / std::abs( dir.y ); // point is on cylinder top
 		else return r / vxz; // point is on cylinder side
 	}
 	inline float distance_from_center( const xo::capsule& s, const vec3f& dir ) {
-- 
2.43.0


From cdb96a998ef209208329c71c419f2c7b306c5c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:35 +0000
Subject: [PATCH 27/56] fix: right_str with more characters than the string has

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index ce39b70..184a68f 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -41,8 +41,8 @@ namespace xo
 	string right_str( const string& str, int n )
 	{
 		if ( n >= 0 )
-			return str.substr( str.size() - n, string::npos );
-		else return str.substr( size_t( -n ), string::npos );
+			return str.substr( str.size() - min( size_t( n ), str.size() ), string::npos );
+		else return str.substr( min( size_t( -n ), str.size() ), string::npos );
 	}
 
 	index_t in_str( const string& str, const string& substr, index_t p /*= 0 */ )
-- 
2.43.0


From b7e2c329120152b1f2ffb5310d0bcb21333e99fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:08:37 +0000
Subject: [PATCH 28/56] fix: find_nth_str counts a match at the start of the
 string once

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 184a68f..61d074a 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -53,8 +53,8 @@ namespace xo
 	index_t find_nth_str( const string& str, const string& substr, size_t n )
 	{
 		index_t idx = 0;
-		for ( ; n > 0 && idx != string::npos; --n )
-			idx = str.find( substr, idx > 0 ? idx + 1 : idx );
+		for ( index_t start = 0; n > 0 && idx != string::npos; --n, start = idx + 1 )
+			idx = str.find( substr, start );
 		return idx;
 	}
 
-- 
2.43.0


From 20b18896d6ba6575168abc4cc8988053895e61f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:59 +0000
Subject: [PATCH 29/56] fix: quoting leaves non-ASCII characters as they are

---
 xo/string/string_tools.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index 61d074a..cd7b16b 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -291,7 +291,7 @@ namespace xo
 			return "\\\"";
 		else if ( c == '\\' )
 			return "\\\\";
-		else if ( c < 32 )
+		else if ( static_cast<unsigned char>( c ) < 32 )
 		{
 			switch ( c )
 			{
@@ -343,7 +343,7 @@ namespace xo
 		string sout = "\"";
 		for ( const char& c : s )
 		{
-			if ( c == '\"' || c == '\\' || c < 32 )
+			if ( c == '\"' || c == '\\' || static_cast<unsigned char>( c ) < 32 )
 				sout += encode_char( c );
 			else sout += c;
 		}
-- 
2.43.0


From cba9f03c0224f0f53ed841859e4e627b61df34cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:01 +0000
Subject: [PATCH 30/56] fix: a backslash at the end of quoted text hung the
 tokenizer and overran try_unquoted

---
 xo/string/string_tools.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xo/string/string_tools.cpp b/xo/string/string_tools.cpp
index cd7b16b..59f57a1 100644
--- a/xo/string/string_tools.cpp
+++ b/xo/string/string_tools.cpp
@@ -307,7 +307,7 @@ namespace xo
 	char decode_char( const char* buf, size_t buf_size, int* len )
 	{
 		xo_error_if( buf_size == 0, "Invalid buffer size" );
-		*len = 0;
+		*len = 1;
 		if ( *buf != '\\' || buf_size == 1 )
 			return *buf;
 
@@ -372,12 +372,12 @@ namespace xo
 			return s; // no quotes
 
 		string sout;
-		for ( auto it = s.begin() + 1; *it != '\"'; ++it )
+		for ( auto it = s.begin() + 1; it < s.end() - 1 && *it != '\"'; ++it )
 		{
 			if ( *it == '\\' )
 			{
 				int len;
-				sout += decode_char( &( *it ), s.end() - it, &len );
+				sout += decode_char( &( *it ), s.end() - 1 - it, &len );
 				it += ( len - 1 );
 			}
 			else sout += *it;
-- 
2.43.0


From 4adaca4aba47f975589417799e81a47c95d933ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:38 +0000
Subject: [PATCH 31/56] fix: assigning a property node from its own child (or
 to it) used destroyed nodes

---
 xo/container/prop_node.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/xo/container/prop_node.h b/xo/container/prop_node.h
index 2bd7920..5c0bfae 100644
--- a/xo/container/prop_node.h
+++ b/xo/container/prop_node.h
@@ -43,8 +43,14 @@ namespace xo
 		~prop_node() = default;
 
 		/// copy assignment
-		prop_node& operator=( const prop_node& other ) = default;
-		prop_node& operator=( prop_node&& other ) = default;
+		prop_node& operator=( const prop_node& other ) { return operator=( prop_node( other ) ); }
+		prop_node& operator=( prop_node&& other ) noexcept {
+			prop_node tmp( std::move( other ) ); // other can be part of this
+			value.swap( tmp.value );
+			children.swap( tmp.children );
+			accessed_flag = tmp.accessed_flag;
+			return *this;
+		}
 		prop_node& set( prop_node&& pn ) { return operator=( std::move( pn ) ); }
 		prop_node& set( const prop_node& pn ) { return operator=( pn ); }
 
-- 
2.43.0


From 2f82535fbcd59a507707f1569093540ac4f1dcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:16 +0000
Subject: [PATCH 32/56] fix: the tokenizer lost text in front of a quote and
 empty quoted tokens before an operator, and added a terminator to an
 unfinished quote

---
 xo/serialization/char_stream.cpp | 7 +++++--
 xo/serialization/char_stream.h   | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/char_stream.cpp b/xo/serialization/char_stream.cpp
index e153bc6..0bea29f 100644
--- a/xo/serialization/char_stream.cpp
+++ b/xo/serialization/char_stream.cpp
@@ -62,6 +62,7 @@ namespace xo
 	{
 		skip_delimiters();
 		string s;
+		token_quoted_ = false;
 		cur_pos_end = const_cast<char*>( cur_pos );
 		while ( good() )
 		{
@@ -75,9 +76,11 @@ namespace xo
 			else if ( strchr( quotations_.c_str(), *cur_pos_end ) ) // check for quote
 			{
 				// this is a part between quotes and must be decoded
+				token_quoted_ = true;
+				s += string( cur_pos, size_t( cur_pos_end - cur_pos ) ); // text in front of the quote
 				cur_pos = cur_pos_end;
 				char quote_char = getc();
-				while ( good() )
+				while ( !test_eof() )
 				{
 					char c = peekc();
 					if ( c == quote_char ) // end of quote
@@ -97,7 +100,7 @@ namespace xo
 			}
 			else if ( auto opstr = check_operator( cur_pos_end ) ) // check for operator
 			{
-				if ( cur_pos == cur_pos_end && s.empty() )
+				if ( cur_pos == cur_pos_end && !token_quoted_ )
 				{
 					s = *opstr; // token is an operator
 					cur_pos += opstr->length();
diff --git a/xo/serialization/char_stream.h b/xo/serialization/char_stream.h
index 2763bd4..86b42ac 100644
--- a/xo/serialization/char_stream.h
+++ b/xo/serialization/char_stream.h
@@ -50,6 +50,9 @@ namespace xo
 		string get_line();
 		string get_token();
 
+		/// true if the last token was, at least in part, between quotes
+		bool token_quoted() const { return token_quoted_; }
+
 		char getc() { if ( !test_eof() ) return *cur_pos++; else return '\0'; }
 		char peekc() { if ( !test_eof() ) return *cur_pos; else return '\0'; }
 
@@ -72,6 +75,7 @@ namespace xo
 		void process_end_pos() { if ( cur_pos == cur_pos_end ) buffer_flags.set< fail_flag >(); else cur_pos = cur_pos_end; }
 
 		int radix = 10;
+		bool token_quoted_ = false;
 		string str_buffer;
 		const char* buffer;
 		const char* cur_pos;
-- 
2.43.0


From 161750e1388b08fbea15c896f3c311bf7f7efc3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:41 +0000
Subject: [PATCH 33/56] fix: ZML took quoted text for symbols and comments, and
 an empty quoted element for the end of the stream

---
 xo/serialization/prop_node_serializer_zml.cpp | 29 ++++++++++++-------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index c3bc481..f43b5a0 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -30,7 +30,9 @@ namespace xo
 		while ( true )
 		{
 			string t = str.get_token();
-			if ( t == "#" || t == "//" ) {
+			if ( str.token_quoted() )
+				return t; // text between quotes is never a comment
+			else if ( t == "#" || t == "//" ) {
 				// single line comment
 				str.get_line(); 
 			}
@@ -48,16 +50,21 @@ namespace xo
 		// keep track of the number of macros so we can delete them at the end of this scope
 		auto macro_count = macros.size();
 
+		// see if the last token was a specific symbol, text between quotes is never a symbol
+		string t;
+		auto is_symbol = [&]( const char* s ) { return t == s && !str.token_quoted(); };
+
 		// iterate over all items in this scope
-		for ( string t = get_zml_token( str, ec ); t != close; t = get_zml_token( str, ec ) )
+		for ( t = get_zml_token( str, ec ); !is_symbol( close.c_str() ); t = get_zml_token( str, ec ) )
 		{
-			if ( t.empty() ) // check if the stream has ended while expecting a close tag
+			if ( t.empty() && !str.token_quoted() ) // check if the stream has ended while expecting a close tag
 				return zml_error( str, ec, "Unexpected end of stream" );
 
-			if ( t == "<<" ) // check directive statement
+			if ( is_symbol( "<<" ) ) // check directive statement
 			{
 				auto filename = path( get_zml_token( str, ec ) );
-				if ( get_zml_token( str, ec ) != ">>" )
+				t = get_zml_token( str, ec );
+				if ( !is_symbol( ">>" ) )
 					zml_error( str, ec, "'<<' has no find matching '>>'" );
 				if ( filename.is_relative() )
 					filename = folder / filename;
@@ -72,21 +79,21 @@ namespace xo
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
 				{
-					if ( t != "{" && t != "[" )
+					if ( !is_symbol( "{" ) && !is_symbol( "[" ) )
 					{
 						// t is a label
 						if ( t[0] == '$' )
 							next_parent = &macros.add_child( t ); // add macro
-						else if ( !isgraph( t[0] ) )
+						else if ( t.empty() || ( !str.token_quoted() && !isgraph( (unsigned char)t[0] ) ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
 							next_parent = &parent.add_child( t ); // add new item
 
 						// read = or :
 						t = get_zml_token( str, ec );
-						if ( t == "=" || t == ": " )
+						if ( is_symbol( "=" ) || is_symbol( ": " ) )
 							t = get_zml_token( str, ec );
-						else if ( t != "{" && t != "[" )
+						else if ( !is_symbol( "{" ) && !is_symbol( "[" ) )
 							return zml_error( str, ec, "Expected '=', ':', '{' or '['" );
 					}
 					else
@@ -100,9 +107,9 @@ namespace xo
 				else next_parent = &parent.add_child( "" ); // add array child
 
 				// parse value element after
-				if ( t == "{" ) // new group
+				if ( is_symbol( "{" ) ) // new group
 					read_zml_layer( str, *next_parent, "}", ec, folder, included_files, root, macros );
-				else if ( t == "[" ) // new array
+				else if ( is_symbol( "[" ) ) // new array
 					read_zml_layer( str, *next_parent, "]", ec, folder, included_files, root, macros );
 				else if ( str_begins_with( t, '@' ) )
 				{
-- 
2.43.0


From 68a476559d939cd4b7370cb400572f2a8c2db354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:44 +0000
Subject: [PATCH 34/56] fix: ZML wrote labels and values containing '=', ':' or
 quotes such that they could not be read back

---
 xo/serialization/prop_node_serializer_zml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index f43b5a0..9b6dfc3 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -179,11 +179,11 @@ namespace xo
 		bool show_value = !pn.get_str().empty() || pn.size() == 0;
 		xo_error_if( !show_label && show_value && !inside_array, "Value without label outside array" );
 		if ( show_label )
-			str << try_quoted( label, "{}[]#<>\\/" );
+			str << try_quoted( label, "{}[]#<>\\/=:'" );
 		if ( show_label && show_value )
 			str << equals_str;
 		if ( show_value )
-			str << try_quoted( pn.get_str(), "{}[]#<>\\/" );
+			str << try_quoted( pn.get_str(), "{}[]#<>\\/=:'" );
 	}
 
 	void write_zml_node_one_line( std::ostream& str, const string& label, const prop_node& pn, bool inside_array )
-- 
2.43.0


From 7ac8cd4150e9144316efb2bbefbefef9cf87535d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:59 +0000
Subject: [PATCH 35/56] fix: ZML macros defined within a macro group used
 destroyed nodes

---
 xo/serialization/prop_node_serializer_zml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 9b6dfc3..46a28d4 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -75,6 +75,8 @@ namespace xo
 			else
 			{
 				prop_node* next_parent = nullptr;
+				prop_node macro; // read separately, because groups can contain macros of their own
+				string macro_label;
 
 				// check if we're reading an array or if this is a label
 				if ( close != "]" )
@@ -83,7 +85,7 @@ namespace xo
 					{
 						// t is a label
 						if ( t[0] == '$' )
-							next_parent = &macros.add_child( t ); // add macro
+							next_parent = &macro, macro_label = t; // new macro
 						else if ( t.empty() || ( !str.token_quoted() && !isgraph( (unsigned char)t[0] ) ) )
 							return zml_error( str, ec, "Invalid label " + t );
 						else
@@ -148,6 +150,9 @@ namespace xo
 					// assign value
 					next_parent->set_value( std::move( t ) );
 				}
+
+				if ( next_parent == &macro )
+					macros.add_child( macro_label, std::move( macro ) ); // add macro
 			}
 		}
 
-- 
2.43.0


From 93ae3d722a2e23e5c2c281c482fac43e802bd943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:02 +0000
Subject: [PATCH 36/56] fix: load_zml threw on a missing file although an error
 code was given

---
 xo/serialization/prop_node_serializer_zml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 46a28d4..9283456 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -300,7 +300,7 @@ namespace xo
 
 	XO_API prop_node load_zml( const path& filename, error_code* ec, path parent_folder, vector<path>* included_files )
 	{
-		char_stream stream( load_string( filename ) );
+		char_stream stream( load_string( filename, ec ) );
 		return parse_zml( stream, ec, filename.parent_path(), included_files );
 	}
 
-- 
2.43.0


From 3d4e696c9f31a1f95d3623d5dac372844aecd465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:53 +0000
Subject: [PATCH 37/56] fix: median_slow did not compile (missing typename)

---
 xo/container/container_algorithms.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/container/container_algorithms.h b/xo/container/container_algorithms.h
index 0f55175..6c8b826 100644
--- a/xo/container/container_algorithms.h
+++ b/xo/container/container_algorithms.h
@@ -119,7 +119,7 @@ namespace xo
 		std::vector< typename std::remove_cv< typename std::iterator_traits< It >::value_type >::type > v( n / 2 + 1 );
 		std::partial_sort_copy( b, e, v.begin(), v.end() );
 		if ( n % 2 == 1 ) return v[n / 2];
-		else return ( v[n / 2] + v[n / 2 - 1] ) / std::iterator_traits< It >::value_type( 2 );
+		else return ( v[n / 2] + v[n / 2 - 1] ) / typename std::iterator_traits< It >::value_type( 2 );
 	}
 
 	template< typename It > auto median_non_const( It b, It e ) {
-- 
2.43.0


From 866ccf781301efc615b6aea11129bf17cd911212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:56 +0000
Subject: [PATCH 38/56] fix: dividing a negative time by a count gave a huge
 positive time

---
 xo/time/time.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index fdeb0fc..c05fac5 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -30,10 +30,10 @@ namespace xo
 		time operator-() const { return time( -internal_ ); }
 		time operator-( time o ) const { return time( internal_ - o.internal_ ); }
 		time operator+( time o ) const { return time( internal_ + o.internal_ ); }
-		time operator/( size_t n ) const { return time( internal_ / n ); }
+		time operator/( size_t n ) const { return time( internal_ / storage_t( n ) ); }
 		time& operator-=( time o ) { internal_ -= o.internal_; return *this; }
 		time& operator+=( time o ) { internal_ += o.internal_; return *this; }
-		time& operator/=( size_t n ) { internal_ /= n; return *this; }
+		time& operator/=( size_t n ) { internal_ /= storage_t( n ); return *this; }
 
 		// ratio between times
 		double operator/( time v ) const { return double( internal_ ) / double( v.internal_ ); }
-- 
2.43.0


From c9cb47953c3ad01394382077898b2377a0dfcd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:20:59 +0000
Subject: [PATCH 39/56] fix: negative times were rounded up to the next
 nanosecond

---
 xo/time/time.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/xo/time/time.h b/xo/time/time.h
index c05fac5..f2a2446 100644
--- a/xo/time/time.h
+++ b/xo/time/time.h
@@ -49,9 +49,12 @@ namespace xo
 		storage_t internal_;
 	};
 
-	template< typename T > time time_from_seconds( T s ) { return time( time::storage_t( double( s ) * 1e9 + 0.5 ) ); }
-	template< typename T > time time_from_milliseconds( T s ) { return time( time::storage_t( double( s ) * 1e6 + 0.5 ) ); }
-	template< typename T > time time_from_nanoseconds( T s ) { return time( time::storage_t( double( s ) + 0.5 ) ); }
+	/// time from a (possibly negative) number of nanoseconds, rounded to nearest
+	inline time time_from_rounded_nanoseconds( double ns ) { return time( time::storage_t( ns < 0 ? ns - 0.5 : ns + 0.5 ) ); }
+
+	template< typename T > time time_from_seconds( T s ) { return time_from_rounded_nanoseconds( double( s ) * 1e9 ); }
+	template< typename T > time time_from_milliseconds( T s ) { return time_from_rounded_nanoseconds( double( s ) * 1e6 ); }
+	template< typename T > time time_from_nanoseconds( T s ) { return time_from_rounded_nanoseconds( double( s ) ); }
 
 	inline time distance( const time& t1, const time& t2 ) { return t1 > t2 ? t1 - t2 : t2 - t1; }
 
-- 
2.43.0


From 958a6c9901ce0c9f4f6f4cae93524b8bc9f4d2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:00 +0000
Subject: [PATCH 40/56] fix: timer lost its reading when paused twice, resumed
 while running or restarted while paused

---
 xo/time/timer.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/xo/time/timer.cpp b/xo/time/timer.cpp
index c01e684..63c9860 100644
--- a/xo/time/timer.cpp
+++ b/xo/time/timer.cpp
@@ -82,15 +82,15 @@ namespace xo
 
 	time timer::operator()() const
 	{
-		auto current_time = epoch_ > 0 ? get_tick_count() - epoch_ : -epoch_;
-		return get_time_from_ticks( current_time );
+		return get_time_from_ticks( tick_count() );
 	}
 
 	time timer::restart()
 	{
-		auto prev_epoch = epoch_;
-		epoch_ = get_tick_count();
-		return get_time_from_ticks( epoch_ - prev_epoch );
+		auto current_tick_count = get_tick_count();
+		auto elapsed_ticks = is_running() ? current_tick_count - epoch_ : -epoch_;
+		epoch_ = current_tick_count;
+		return get_time_from_ticks( elapsed_ticks );
 	}
 
 	void timer::set( time t )
@@ -103,18 +103,19 @@ namespace xo
 
 	long long timer::tick_count() const
 	{
-		return get_tick_count() - epoch_;
+		return is_running() ? get_tick_count() - epoch_ : -epoch_;
 	}
 
 	time timer::pause()
 	{
 		// store current time in epoch
-		epoch_ = -( get_tick_count() - epoch_ );
+		epoch_ = -tick_count();
 		return get_time_from_ticks( -epoch_ );
 	}
 
 	void timer::resume()
 	{
-		epoch_ = get_tick_count() + epoch_;
+		if ( is_paused() )
+			epoch_ = get_tick_count() + epoch_;
 	}
 }
-- 
2.43.0


From 0485a442d4ae41b2fb1fb93d8bbb2aad4a02c409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:02 +0000
Subject: [PATCH 41/56] fix: color from double components took its alpha from
 blue

---
 xo/utility/color.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/color.h b/xo/utility/color.h
index 8948ec8..e9f0c67 100644
--- a/xo/utility/color.h
+++ b/xo/utility/color.h
@@ -9,7 +9,7 @@ namespace xo
 	{
 		color() : r( 0.0f ), g( 0.0f ), b( 0.0f ), a( 1.0f ) {}
 		color( float pr, float pg, float pb, float pa = 1.0f ) : r( pr ), g( pg ), b( pb ), a( pa ) {}
-		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pb ) ) {}
+		color( double pr, double pg, double pb, double pa = 1.0 ) : r( float( pr ) ), g( float( pg ) ), b( float( pb ) ), a( float( pa ) ) {}
 
 		float r, g, b, a;
 
-- 
2.43.0


From 99ead9eb877a442702112c5cc959927c51977249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:10 +0000
Subject: [PATCH 42/56] fix: comparing two optionals with != never ended

---
 xo/utility/optional.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/optional.h b/xo/utility/optional.h
index c51c2b5..76d52b5 100644
--- a/xo/utility/optional.h
+++ b/xo/utility/optional.h
@@ -74,5 +74,5 @@ namespace xo
 	template< typename T > bool operator==( const T& lhs, const optional<T>& rhs ) { return rhs == lhs; }
 	template< typename T > bool operator!=( const T& lhs, const optional<T>& rhs ) { return rhs != lhs; }
 	template< typename T > bool operator==( const optional<T>& lhs, const optional<T>& rhs ) { return ( lhs && rhs && *rhs == *lhs ) || ( !lhs && !rhs ); }
-	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return rhs != lhs; }
+	template< typename T > bool operator!=( const optional<T>& lhs, const optional<T>& rhs ) { return !( lhs == rhs ); }
 }
-- 
2.43.0


From 29268fed465e2966142c93da312d63de62329a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:11 +0000
Subject: [PATCH 43/56] fix: frange size left out the last value, and iterator
 post-increment returned the wrong position

---
 xo/utility/frange.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/utility/frange.h b/xo/utility/frange.h
index daa297e..bfd39d2 100644
--- a/xo/utility/frange.h
+++ b/xo/utility/frange.h
@@ -28,7 +28,7 @@ namespace xo
 			iterator( T step, T b, T e, T steps ) : step_( step ), min_( b ), max_( e ), max_step_( steps ) {}
 			T step_, min_, max_, max_step_;
 			T operator++() { return step_ += T( 1 ); }
-			T operator++( int ) { step_ += T( 1 ); return max_step_ - T( 1 ); }
+			T operator++( int ) { step_ += T( 1 ); return step_ - T( 1 ); }
 			bool operator==( const iterator& other ) { return other.step_ == step_; }
 			bool operator!=( const iterator& other ) { return other.step_ != step_; }
 			T operator*() const { return min_ + step_ * ( max_ - min_ ) / max_step_; }
@@ -36,7 +36,7 @@ namespace xo
 
 		iterator begin() const { return iterator( T( 0 ), min_, max_, max_step_ ); }
 		iterator end() const { return iterator( max_step_ + 1, min_, max_, max_step_ ); }
-		size_t size() const { return size_t( max_step_ ); }
+		size_t size() const { return size_t( max_step_ ) + 1; }
 
 		T min_, max_, max_step_;
 	};
-- 
2.43.0


From 0ff77b37b567a9411951722015e95729a97c9edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:32 +0000
Subject: [PATCH 44/56] fix: hash xored sign-extended characters, so that short
 non-ASCII texts collided (not FNV-1a)

---
 xo/utility/hash.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xo/utility/hash.h b/xo/utility/hash.h
index 9765348..12a4cf6 100644
--- a/xo/utility/hash.h
+++ b/xo/utility/hash.h
@@ -16,11 +16,11 @@ namespace xo
 	constexpr hash_t fnv1a_64_basis = 0xCBF29CE484222325ull;
 
 	constexpr hash_t hash_constexpr( char const* str, hash_t last_value = fnv1a_64_basis )
-	{ return *str ? hash_constexpr( str + 1, ( *str ^ last_value ) * fnv1a_64_prime ) : last_value; }
+	{ return *str ? hash_constexpr( str + 1, ( static_cast< unsigned char >( *str ) ^ last_value ) * fnv1a_64_prime ) : last_value; }
 
 	inline hash_t hash( char const* str ) {
 		hash_t ret = fnv1a_64_basis;
-		while ( *str ) { ret ^= *str; ret *= fnv1a_64_prime; ++str; }
+		while ( *str ) { ret ^= static_cast< unsigned char >( *str ); ret *= fnv1a_64_prime; ++str; }
 		return ret;
 	}
 
-- 
2.43.0


From 68273e4c5c78e0e3674723a818e14dbbf410740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:43 +0000
Subject: [PATCH 45/56] fix: reading a smart enum ignored the last word of a
 stream

---
 xo/utility/smart_enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/smart_enum.h b/xo/utility/smart_enum.h
index de4b92b..92507fe 100644
--- a/xo/utility/smart_enum.h
+++ b/xo/utility/smart_enum.h
@@ -31,7 +31,7 @@ namespace smart_enum_detail
 inline std::string to_str( E e ) { return ::smart_enum_detail::to_str( int( e ), VA_STR ); } \
 inline bool from_str( const std::string& str, E& e ) { return ::smart_enum_detail::from_str( str, e, VA_STR ); } \
 inline std::ostream& operator<<( std::ostream& ostr, E e ) { return ostr << to_str( e ); } \
-inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; istr >> s; if ( istr.good() && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
+inline std::istream& operator>>( std::istream& istr, E& e ) { std::string s; if ( istr >> s && !from_str( s, e ) ) istr.setstate( std::ios::failbit ); return istr; }
 
 #define xo_smart_enum( E, ... ) \
 enum E { __VA_ARGS__ }; \
-- 
2.43.0


From c9a267d3c8010151934f37455e130447c7db7d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:47 +0000
Subject: [PATCH 46/56] fix: dynamic_unique_cast kept the object it should
 delete when the cast fails

---
 xo/utility/pointer_types.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/utility/pointer_types.h b/xo/utility/pointer_types.h
index b8d6856..018cbfa 100644
--- a/xo/utility/pointer_types.h
+++ b/xo/utility/pointer_types.h
@@ -28,6 +28,7 @@ namespace xo
 			ptr.release();
 			return u_ptr<TargetT>( tptr );
 		}
-		else return u_ptr<TargetT>();
+		ptr.reset();
+		return u_ptr<TargetT>();
 	}
 }
-- 
2.43.0


From 8b28ee633c97bcd8e7f31023c34b3b6d882cf89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:47 +0000
Subject: [PATCH 47/56] fix: a changed file that could not be reloaded was
 taken as loaded

---
 xo/utility/file_resource_cache.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/utility/file_resource_cache.h b/xo/utility/file_resource_cache.h
index 335d301..16fe6dc 100644
--- a/xo/utility/file_resource_cache.h
+++ b/xo/utility/file_resource_cache.h
@@ -43,8 +43,8 @@ namespace xo
 						if ( file_time != item->file_time_ )
 						{
 							// file was modified, reload
-							item->file_time_ = file_time;
 							item->data_.reset( create_( p ) );
+							item->file_time_ = file_time; // only if reloading succeeded
 						}
 					}
 					catch ( std::exception& e ) {
-- 
2.43.0


From ae9a31042a22dfe171d8c79f96c1c154d5a247fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 48/56] fix: path extension is that of the filename, and the
 parent of a root path keeps the root

---
 xo/filesystem/path.cpp | 30 ++++++++++++++++++++++--------
 xo/filesystem/path.h   |  2 ++
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/xo/filesystem/path.cpp b/xo/filesystem/path.cpp
index df03073..910fdc9 100644
--- a/xo/filesystem/path.cpp
+++ b/xo/filesystem/path.cpp
@@ -5,7 +5,7 @@ namespace xo
 {
 	path& path::replace_extension( const path& ext )
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		if ( n != string::npos )
 			data_.erase( n ); // remove existing extension
 
@@ -17,9 +17,7 @@ namespace xo
 
 	path& path::remove_filename()
 	{
-		size_t n = last_separator_pos();
-		if ( n != string::npos ) data_ = data_.substr( 0, n );
-		else data_.clear();
+		data_.erase( parent_path_size() );
 		return *this;
 	}
 
@@ -52,19 +50,18 @@ namespace xo
 
 	path path::parent_path() const
 	{
-		size_t n = last_separator_pos();
-		return n != string::npos ? path( data_.substr( 0, n ) ) : path();
+		return path( data_.substr( 0, parent_path_size() ) );
 	}
 
 	path path::extension() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		return n != string::npos ? path( data_.substr( n ) ) : path();
 	}
 
 	path path::extension_no_dot() const
 	{
-		size_t n = data_.find_last_of( '.' );
+		size_t n = extension_pos();
 		return n != string::npos ? path( data_.substr( n + 1 ) ) : path();
 	}
 
@@ -114,6 +111,23 @@ namespace xo
 		return data_.find_last_of( "/\\" );
 	}
 
+	size_t path::extension_pos() const
+	{
+		// the extension is part of the filename, not of a folder
+		size_t n = data_.find_last_of( '.' );
+		size_t s = last_separator_pos();
+		return ( n != string::npos && ( s == string::npos || n > s ) ) ? n : string::npos;
+	}
+
+	size_t path::parent_path_size() const
+	{
+		size_t n = last_separator_pos();
+		if ( n == string::npos )
+			return 0;
+		// the separator is part of the parent if that is a root folder
+		return ( n == 0 || data_[ n - 1 ] == ':' ) ? n + 1 : n;
+	}
+
 	path& path::operator/=( const string_type& p )
 	{
 		if ( has_filename() )
diff --git a/xo/filesystem/path.h b/xo/filesystem/path.h
index 620cf54..81666b0 100644
--- a/xo/filesystem/path.h
+++ b/xo/filesystem/path.h
@@ -49,6 +49,8 @@ namespace xo
 
 	private:
 		size_t last_separator_pos() const;
+		size_t extension_pos() const;
+		size_t parent_path_size() const;
 		string_type data_;
 	};
 
-- 
2.43.0


From 00c1dccf8d8ca5eeefbbd4c76c5f7ebd7ad4c211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:37 +0000
Subject: [PATCH 49/56] fix: reading a container from a stream lost the element
 at its end

---
 xo/serialization/container_io.h | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/xo/serialization/container_io.h b/xo/serialization/container_io.h
index 40b02c2..cf9490b 100644
--- a/xo/serialization/container_io.h
+++ b/xo/serialization/container_io.h
@@ -14,12 +14,9 @@ namespace xo
 
 	template< typename T >
 	std::istream& operator>>( std::istream& is, std::vector<T>& v ) {
-		while ( is.good() ) {
-			T element;
-			is >> element;
-			if ( is.good() )
-				v.emplace_back( element );
-		}
+		T element;
+		while ( is >> element )
+			v.emplace_back( element );
 		return is;
 	}
 
-- 
2.43.0


From 197820e42c404329d30e89b99a86a23e10b53275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:38 +0000
Subject: [PATCH 50/56] fix: reading a version kept a former build number and
 lost a postfix written without space

---
 xo/string/string_cast.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 05c5b43..74b35c8 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -128,15 +128,17 @@ namespace xo
 
 	bool from_str( const string& s, version& ver )
 	{
-		auto [numbers, postfix] = split_str_at_first( s, whitespace_characters );
-		if ( auto vs = split_str( numbers, "." ); vs.size() >= 3 )
+		// anything after the numbers is the postfix
+		auto n = std::min( s.find_first_not_of( "0123456789." ), s.size() );
+		auto postfix = trim_left_str( s.substr( n ) );
+		if ( auto vs = split_str( s.substr( 0, n ), "." ); vs.size() >= 3 )
 		{
 			if ( from_str( vs[0], ver.major_ )
 				&& from_str( vs[1], ver.minor_ )
 				&& from_str( vs[2], ver.patch_ ) )
 			{
-				if ( vs.size() >= 4 )
-					from_str( vs[3], ver.build_ );
+				if ( vs.size() < 4 || !from_str( vs[3], ver.build_ ) )
+					ver.build_ = 0;
 				ver.postfix_ = postfix;
 				return true;
 			}
-- 
2.43.0


From e700c46dbc31608428445175b099306dd343aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 51/56] fix: reading a time ignored the minutes and hours that
 writing it shows

---
 xo/string/string_cast.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/xo/string/string_cast.cpp b/xo/string/string_cast.cpp
index 74b35c8..17fa243 100644
--- a/xo/string/string_cast.cpp
+++ b/xo/string/string_cast.cpp
@@ -192,7 +192,17 @@ namespace xo
 
 	bool from_str( const string& s, time& v )
 	{
-		if ( double d; from_str( s, d ) ) { v = time_from_seconds( d ); return true; }
-		else return false;
+		// seconds, optionally after minutes and hours
+		auto parts = split_str( s, ":" );
+		double seconds = 0.0, d = 0.0;
+		for ( auto& part : parts ) {
+			if ( !from_str( part, d ) )
+				return false;
+			seconds = 60.0 * seconds + d;
+		}
+		if ( parts.empty() )
+			return false;
+		v = time_from_seconds( seconds );
+		return true;
 	}
 }
-- 
2.43.0


From fddb8b324cf1de23cfd72a5f792de536df18453a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:40 +0000
Subject: [PATCH 52/56] fix: an argument that cannot be converted gives the
 default value

---
 xo/utility/arg_parser.h | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/xo/utility/arg_parser.h b/xo/utility/arg_parser.h
index f1ddccf..85f43dc 100644
--- a/xo/utility/arg_parser.h
+++ b/xo/utility/arg_parser.h
@@ -31,17 +31,15 @@ namespace xo
 		template< typename T >
 		T get( const string& f, T default_value ) const {
 			if ( auto idx = find_flag( f ); idx != no_index && idx < size() - 1 && !str_begins_with( arg( idx + 1 ), '-' ) )
-				from_str( arg( idx + 1 ), default_value );
+				return convert( arg( idx + 1 ), default_value );
 			return default_value;
 		}
 
 		template< typename T >
 		T get( index_t idx, T default_value ) const {
 			for ( index_t i = 0; i < size() && !is_flag( i ); ++i )
-				if ( i == idx ) {
-					from_str( args_[i], default_value );
-					break;
-				}
+				if ( i == idx )
+					return convert( args_[i], default_value );
 			return default_value;
 		}
 
@@ -55,6 +53,13 @@ namespace xo
 	private:
 		vector<string> args_;
 
+		// value of an argument, or the default if it cannot be converted
+		template< typename T >
+		static T convert( const string& s, const T& default_value ) {
+			T value( default_value );
+			return from_str( s, value ) ? value : default_value;
+		}
+
 		bool is_flag( index_t idx ) const {
 			return count_dashes( idx ) > 0;
 		}
-- 
2.43.0


From 771d24a7fc57dbd7b888c5af4cf2a806cbd0654c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:41 +0000
Subject: [PATCH 53/56] fix: an item after a group in an INI file was read as
 part of that group

---
 xo/serialization/prop_node_serializer_ini.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xo/serialization/prop_node_serializer_ini.cpp b/xo/serialization/prop_node_serializer_ini.cpp
index 88eecbe..376e07b 100644
--- a/xo/serialization/prop_node_serializer_ini.cpp
+++ b/xo/serialization/prop_node_serializer_ini.cpp
@@ -10,6 +10,9 @@ namespace xo
 	std::ostream& prop_node_serializer_ini::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
+		for ( auto& e : *write_pn_ ) // main items come first: after a group they would be part of that group
+			if ( e.second.size() == 0 && e.second.has_value() )
+				str << e.first << "=" << e.second.get_str() << std::endl;
 		for ( auto& e : *write_pn_ )
 		{
 			if ( e.second.size() > 0 ) // group item
@@ -18,8 +21,6 @@ namespace xo
 				for ( auto& e2 : e.second )
 					str << e2.first << "=" << e2.second.get_str() << std::endl;
 			}
-			else if ( e.second.has_value() ) // main item
-				str << e.first << "=" << e.second.get_str() << std::endl;
 		}
 		return str;
 	}
-- 
2.43.0


From c4c5340e9c01a2d2c9d0471c54747f7302f619b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:32:02 +0000
Subject: [PATCH 54/56] fix: an empty document could not be written in concise
 ZML

---
 xo/serialization/prop_node_serializer_zml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xo/serialization/prop_node_serializer_zml.cpp b/xo/serialization/prop_node_serializer_zml.cpp
index 9283456..8c4c480 100644
--- a/xo/serialization/prop_node_serializer_zml.cpp
+++ b/xo/serialization/prop_node_serializer_zml.cpp
@@ -294,7 +294,8 @@ namespace xo
 	std::ostream& prop_node_serializer_zml_concise::write_stream( std::ostream& str ) const
 	{
 		xo_assert( write_pn_ );
-		write_zml_node_concise( str, "", *write_pn_, 0, false );
+		if ( !write_pn_->empty() )
+			write_zml_node_concise( str, "", *write_pn_, 0, false );
 		return str;
 	}
 
-- 
2.43.0


From b8ec7de719e2b6abd142721ce16a0689d063dfbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:44 +0000
Subject: [PATCH 55/56] fix: a transform written to a property node lost its
 orientation in its position

---
 xo/geometry/transform.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xo/geometry/transform.h b/xo/geometry/transform.h
index 76ac261..ac7b0ce 100644
--- a/xo/geometry/transform.h
+++ b/xo/geometry/transform.h
@@ -20,7 +20,7 @@ namespace xo
 		quat_<T> q;
 
 		/// convert to prop_node
-		explicit operator prop_node() const { return prop_node().set( "p", p ).set( "q", q ); }
+		explicit operator prop_node() const { prop_node pn; pn.set( "p", p ); pn.set( "q", q ); return pn; }
 
 		/// concatenate transforms
 		transform_<T> operator*( const transform_<T>& t ) const { return transform_<T>( p + q * t.p, q * t.q ); }
-- 
2.43.0


From bb8e68d5d06653951c27803c80a06352e6cd9a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:45 +0000
Subject: [PATCH 56/56] fix: the order of Euler angles was refused when reading
 a quaternion

---
 xo/geometry/quat.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/xo/geometry/quat.h b/xo/geometry/quat.h
index c2cecfe..0a13df3 100644
--- a/xo/geometry/quat.h
+++ b/xo/geometry/quat.h
@@ -418,6 +418,12 @@ namespace xo
 			q.set( pn.get<T>( "w" ), pn.get<T>( "x" ), pn.get<T>( "y" ), pn.get<T>( "z" ) );
 			return true;
 		}
+		else if ( pn.size() == 4 && pn.has_key( "order" ) ) {
+			// quaternion from Euler angles with rotation order
+			vec3_< degree_<T> > v( pn.get< degree_<T> >( "x" ), pn.get< degree_<T> >( "y" ), pn.get< degree_<T> >( "z" ) );
+			q = quat_from_euler( v, pn.get< euler_order >( "order" ) );
+			return true;
+		}
 		else if ( vec3_< degree_<T> > v; from_prop_node( pn, v ) ) {
 			// quaternion from Euler angles
 			auto order = pn.get< euler_order >( "order", euler_order::xyz );
-- 
2.43.0

