// Contract model of the iostream classes for the verifier (trusted).  Output streams append to a string; how a number
// is rendered is left unspecified (an uninterpreted string); reading from streams has no contract (proofs that reach
// it are reported as undecided).
#pragma once
#include <xov_std.h>
#include <string>
#include <vector>
extern "C" { xov_str __xov_any_str_fn( const char*, ... ); }
namespace std {
	struct ios_base {
		enum openmode_ { in = 1, out = 2, app = 4, binary = 8, trunc = 16, ate = 32 }; using openmode = int;
		enum fmtflags_ { fixed_ = 1 }; using fmtflags = int; static constexpr int boolalpha = 2, hex = 4, left = 8, right = 16, fixed = 1, scientific = 32, showpos = 64;
		enum seekdir { beg, cur, end };
	};
	using streamsize = long;
	struct ios : ios_base { static constexpr int failbit = 4, eofbit = 2, badbit = 1, goodbit = 0; void setstate( int ); int rdstate() const; bool good() const; bool fail() const; bool eof() const; bool bad() const; explicit operator bool() const; bool operator!() const; void clear(); int precision( int = 0 ) ; int width( int = 0 ); fmtflags flags() const; fmtflags flags( fmtflags ); fmtflags setf( fmtflags ); fmtflags setf( fmtflags, fmtflags ); void unsetf( fmtflags ); char fill( char = 0 ); };
	struct ostream : virtual ios {
		string s_;
		ostream& put_( const string& x ) { s_ += x; return *this; }
		ostream& operator<<( const string& x ) { return put_( x ); } ostream& operator<<( const char* x ) { return put_( string( x ) ); } ostream& operator<<( char x ) { s_ += x; return *this; } ostream& operator<<( const string_view& x ) { s_ += x; return *this; }
		ostream& operator<<( int x ) { return put_( to_string( x ) ); } ostream& operator<<( long x ) { return put_( to_string( x ) ); } ostream& operator<<( unsigned x ) { return put_( to_string( x ) ); } ostream& operator<<( unsigned long x ) { return put_( to_string( x ) ); }
		ostream& operator<<( long long x ) { return put_( to_string( x ) ); } ostream& operator<<( unsigned long long x ) { return put_( to_string( x ) ); } ostream& operator<<( short x ) { return put_( to_string( int( x ) ) ); } ostream& operator<<( unsigned short x ) { return put_( to_string( int( x ) ) ); }
		ostream& operator<<( unsigned char x ) { s_ += char( x ); return *this; } ostream& operator<<( signed char x ) { s_ += char( x ); return *this; }
		ostream& operator<<( bool x ) { return put_( x ? "1" : "0" ); } ostream& operator<<( double x ) { return put_( to_string( x ) ); } ostream& operator<<( float x ) { return put_( to_string( x ) ); } ostream& operator<<( const void* );
		ostream& operator<<( ostream& ( *f )( ostream& ) ) { return f( *this ); } ostream& operator<<( ios_base& ( *f )( ios_base& ) ) { return *this; }
		ostream& write( const char* c, long n ) { s_ += string( c, size_t( n ) ); return *this; } ostream& put( char c ) { s_ += c; return *this; } ostream& flush() { return *this; } long tellp();
	};
	struct istream : virtual ios {
		string r_; size_t at_ = 0; int st_ = 0;	// all of the text, how much of it is read, the state
		bool good() const { return st_ == 0; } bool eof() const { return ( st_ & eofbit ) != 0; } bool fail() const { return ( st_ & ( failbit | badbit ) ) != 0; }
		istream& getline( char* b, long n ) {
			long k = 0; if ( st_ != 0 ) { st_ |= failbit; if ( n > 0 ) b[0] = 0; return *this; } bool any = false;
			for ( ;; ) {
				if ( at_ >= r_.size() ) { st_ |= eofbit; if ( !any ) st_ |= failbit; break; }
				const char c = r_[at_]; if ( c == '\n' ) { ++at_; break; }
				if ( k >= n - 1 ) { st_ |= failbit; break; }
				b[k++] = c; ++at_; any = true;
			}
			b[k] = 0; return *this;
		}
		istream& operator>>( string& ); istream& operator>>( int& ); istream& operator>>( double& ); istream& operator>>( float& ); istream& operator>>( char& ); istream& operator>>( unsigned& ); istream& operator>>( long& ); istream& operator>>( unsigned long& ); istream& operator>>( bool& );
		istream& read( char*, long ); istream& get( char& ); int get(); int peek(); istream& unget(); istream& seekg( long ); istream& seekg( long, seekdir ); long tellg(); long gcount(); istream& ignore( long = 1, int = -1 );
	};
	struct iostream : istream, ostream {};
	inline ostream& endl( ostream& o ) { o.s_ += '\n'; return o; } inline ostream& flush( ostream& o ) { return o; } inline ostream& ends( ostream& o ) { return o; }
	struct stringstream : iostream { stringstream() {} explicit stringstream( const string& x, int = 0 ) { s_ = x; } string str() const { return s_; } void str( const string& x ) { s_ = x; } };
	struct ostringstream : ostream { ostringstream() {} string str() const { return s_; } void str( const string& x ) { s_ = x; } };
	struct istringstream : istream { istringstream() {} explicit istringstream( const string& x ) { r_ = x; } string str() const { return r_; } };
	struct ofstream : ostream { ofstream() {} template< class S > explicit ofstream( const S&, int = 0 ); ofstream( ofstream&& ); bool is_open() const; template< class S > void open( const S&, int = 0 ); void close(); };
	struct ifstream : istream { ifstream() {} template< class S > explicit ifstream( const S&, int = 0 ); ifstream( ifstream&& ); bool is_open() const; template< class S > void open( const S&, int = 0 ); void close(); void* rdbuf(); };
	struct fstream : iostream { fstream() {} template< class S > explicit fstream( const S&, int = 0 ); bool is_open() const; void close(); };
	istream& getline( istream&, string& ); istream& getline( istream&, string&, char );
	extern ostream cout, cerr, clog; extern istream cin;
	template< class T > struct xov_manip { T v; };
	inline xov_manip<int> setw( int n ) { return { n }; } inline xov_manip<int> setprecision( int n ) { return { n }; } inline xov_manip<char> setfill( char n ) { return { n }; }
	template< class T > ostream& operator<<( ostream& o, xov_manip<T> ) { __xov_note( "stream manipulators are ignored" ); return o; }
	inline ios_base& fixed( ios_base& b ) { return b; } inline ios_base& scientific( ios_base& b ) { return b; } inline ios_base& boolalpha( ios_base& b ) { return b; } inline ios_base& hex( ios_base& b ) { return b; } inline ios_base& left( ios_base& b ) { return b; } inline ios_base& right( ios_base& b ) { return b; } inline ios_base& showpos( ios_base& b ) { return b; } inline ios_base& dec( ios_base& b ) { return b; }
	template< class C, class T = char_traits<C> > struct istreambuf_iterator;
	// everything that is left in the stream (reading has no contract otherwise, so this is all of its text)
	template<> struct istreambuf_iterator<char, char_traits<char>> { istream* i_ = nullptr; istreambuf_iterator() {} istreambuf_iterator( istream& i ) : i_( &i ) {} string xov_text() const; };
	inline string istreambuf_iterator<char, char_traits<char>>::xov_text() const { return i_->r_; }
	template< class T, class C = char > struct ostream_iterator { ostream_iterator( ostream&, const char* = "" ); };
	template< class T, class C = char > struct istream_iterator { istream_iterator( istream& ); istream_iterator(); };
}
