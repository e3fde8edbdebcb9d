#include "common.h"
#include <daw/vector.h>
#include <daw/vector_algorithm.h>
#include <daw/split_buffer.h>
#include <initializer_list>
using U = uint32_t;
template<typename T> U val( T const &t ) { if constexpr( std::is_same_v<T, Track> ) return t.get( ); else return t; }
// the abstract sequence
struct Seq {
	static constexpr size_t MAX = 160;
	U v[MAX]{ };
	size_t n = 0;
	void ins( size_t at, U x ) { for( size_t k = n; k > at; --k ) v[k] = v[k - 1]; v[at] = x; ++n; }
	void del( size_t a, size_t b ) { for( size_t k = b; k < n; ++k ) v[k - ( b - a )] = v[k]; n -= b - a; }
};
template<typename V> void same( V const &v, Seq const &s, char const *msg = "contents and size are those of the sequence" ) {
	sym_assert( v.size( ) == s.n and static_cast<size_t>( v.ssize( ) ) == s.n and v.empty( ) == ( s.n == 0 ) and v.capacity( ) >= s.n, msg );
	bool ok = true;
	for( size_t k = 0; k < s.n; ++k ) ok &= val( v[k] ) == s.v[k];
	sym_assert( ok, msg );
}
template<typename T> using Vec = daw::vector<T>;
// a vector of n arbitrary elements with spare capacity, in a chosen history
template<typename V> void fill( V &v, Seq &s, size_t n, size_t spare ) {
	if( n + spare ) v.reserve( n + spare );
	for( size_t k = 0; k < n; ++k ) { U x = sym_param( "BIG", 0 ) and k % 16 != 5 ? static_cast<U>( 7 * k + 1 ) : sym_u32( "x" ); v.push_back( typename V::value_type( x ) ); s.v[s.n++] = x; }
}
struct InIt { // single pass input iterator over numbers
	using value_type = U; using difference_type = ptrdiff_t; using reference = U; using pointer = U const *; using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag;
	U const *p = nullptr;
	U operator*( ) const { return *p; }
	InIt &operator++( ) { ++p; return *this; }
	InIt operator++( int ) { auto r = *this; ++p; return r; }
	bool operator==( InIt const &o ) const { return p == o.p; }
	bool operator!=( InIt const &o ) const { return p != o.p; }
};
static size_t N( ) { return sym_param( "N", 3 ); }
template<typename F> void guarded( F f ) { { LeakGuard g; f( ); } sym_reach( "end" ); }

template<typename T> void construct_( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	Seq s, z, f;
	U x = sym_u32( "fill" );
	for( size_t k = 0; k < n; ++k ) { s.v[s.n++] = a[k]; z.v[z.n++] = 0; f.v[f.n++] = x; }
	{ Vec<T> v; same( v, Seq{ } ); CHECK( v.begin( ) == v.end( ) and v.capacity( ) == 0 ); }
	{ Vec<T> v( std::allocator<T>{ } ); same( v, Seq{ } ); }
	{ Vec<T> v( n ); same( v, z ); Vec<T> w( n, std::allocator<T>{ } ); same( w, z ); }
	{ Vec<T> v( n, T( x ) ); same( v, f ); Vec<T> w( n, T( x ), std::allocator<T>{ } ); same( w, f ); }
	{ Vec<T> v( a.begin( ), a.end( ) ); same( v, s ); Vec<T> w( a.begin( ), a.end( ), std::allocator<T>{ } ); same( w, s ); }
	{ Vec<T> v( InIt{ a.begin( ) }, InIt{ a.end( ) } ); same( v, s ); Vec<T> w( InIt{ a.begin( ) }, InIt{ a.end( ) }, std::allocator<T>{ } ); same( w, s ); }
	{ Vec<T> v( a.begin( ), a.end( ) ); Vec<T> c( v ); same( c, s ); same( v, s ); Vec<T> d( v, std::allocator<T>{ } ); same( d, s );
	  T const *p = v.data( ); Vec<T> m( std::move( v ) ); same( m, s ); same( v, Seq{ } ); CHECK( m.data( ) == p );
	  Vec<T> m2( std::move( m ), std::allocator<T>{ } ); same( m2, s ); same( m, Seq{ } );
	  if( n ) { c[0] = T( x ); same( m2, s ); }
	  m.push_back( T( x ) ); CHECK( m.size( ) == 1 and val( m[0] ) == x ); }
	{ std::initializer_list<T> il = { T( x ), T( 7 ), T( x ) }; Vec<T> v( il, std::allocator<T>{ } ); Seq e; e.ins( 0, x ); e.ins( 0, 7 ); e.ins( 0, x ); same( v, e ); }
}
//@ q:N=6 t:N=6
//@ bounds: every constructor with n <= N elements of arbitrary value; plain integers and life-cycle checked elements
ENTRY construct_int( ) { guarded( [] { construct_<U>( ); } ); }
//@ q:N=6 t:N=6
ENTRY construct_obj( ) { guarded( [] { construct_<Track>( ); } ); }

template<typename T> void access_( ) {
	size_t n = pick_size( "n", 1, N( ) );
	Seq s; Vec<T> v; fill( v, s, n, 1 );
	Vec<T> const &c = v;
	same( v, s );
	CHECK( val( v.front( ) ) == s.v[0] and val( c.front( ) ) == s.v[0] and val( v.back( ) ) == s.v[n - 1] and val( c.back( ) ) == s.v[n - 1] );
	CHECK( v.data( ) == &v[0] and v.data_end( ) == v.data( ) + n and c.data( ) == v.data( ) and c.data_end( ) == v.data_end( ) );
	size_t i = sym_u64( "i" );
	bool in = i < n;
	if( in ) { CHECK( &v.at( i ) == v.data( ) + i and &c.at( i ) == v.data( ) + i and &v[i] == v.data( ) + i and &c[i] == v.data( ) + i ); }
	else { CHECK( throws_as<std::out_of_range>( [&] { (void)v.at( i ); } ) and throws_as<std::out_of_range>( [&] { (void)c.at( i ); } ) ); }
	size_t k = 0; bool ok = true;
	for( auto const &e : v ) { ok &= val( e ) == s.v[k]; ++k; }
	CHECK( ok and k == n ); k = n;
	for( auto it = v.rbegin( ); it != v.rend( ); ++it ) { --k; ok &= val( *it ) == s.v[k]; }
	for( auto it = c.rbegin( ); it != c.rend( ); ++it ) { ok &= val( *it ) == s.v[k]; ++k; if( k == n ) break; k = k; ok &= true; if( k < n ) { it = c.rend( ) - 1; } }
	CHECK( c.begin( ) == c.cbegin( ) and c.end( ) == c.cend( ) and c.crbegin( ) == c.rbegin( ) and c.crend( ) == c.rend( ) );
	// iterator arithmetic
	auto b = v.begin( ), e = v.end( );
	CHECK( e - b == static_cast<ptrdiff_t>( n ) and b + static_cast<ptrdiff_t>( n ) == e and e - static_cast<ptrdiff_t>( n ) == b and static_cast<ptrdiff_t>( n ) + b == e );
	auto m = b; m += 1; auto m0 = m--; CHECK( m0 == b + 1 and m == b ); auto m1 = m++; CHECK( m1 == b and m == b + 1 ); --m; ++m; m -= 1; CHECK( m == b and b < e and e > b and b <= b and b != e );
	CHECK( &b[static_cast<ptrdiff_t>( n - 1 )] == &v.back( ) and b.operator->( ) == v.data( ) and b.base( ) == v.data( ) );
	typename Vec<T>::const_iterator cb = b; CHECK( cb == c.begin( ) and e - cb == static_cast<ptrdiff_t>( n ) );
	CHECK( c.max_size( ) >= 1u << 20 );
}
//@ q:N=6 t:N=6
//@ bounds: 1 <= n <= N elements, all indexes; iterators, reverse iterators, at()
ENTRY access_int( ) { guarded( [] { access_<U>( ); } ); }
//@ q:N=6 t:N=6
ENTRY access_obj( ) { guarded( [] { access_<Track>( ); } ); }

template<typename T> void push_pop_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 1 );
	Seq s; Vec<T> v; fill( v, s, n, spare );
	size_t steps = sym_param( "S", 2 );
	for( size_t k = 0; k < steps; ++k ) {
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 6 ) );
		U x = sym_u32( "x" );
		if( op == 0 ) { T t( x ); v.push_back( t ); s.ins( s.n, x ); CHECK( val( t ) == x ); }
		else if( op == 1 ) { v.push_back( T( x ) ); s.ins( s.n, x ); }
		else if( op == 2 ) { auto &r = v.emplace_back( x ); CHECK( &r == &v.back( ) and val( r ) == x ); s.ins( s.n, x ); }
		else if( op == 3 ) { if( s.n ) { v.pop_back( ); --s.n; } }
		else if( op == 4 ) { if( s.n ) { U e = s.v[s.n - 1]; auto r = v.pop_back_value( ); CHECK( val( r ) == e ); --s.n; } }
		else if( op == 5 ) { if( s.n ) { size_t i = pick_pos( "self", 0, s.n - 1 ); v.push_back( v[i] ); s.ins( s.n, s.v[i] ); } }
		else { if( s.n ) { size_t i = pick_pos( "self", 0, s.n - 1 ); v.emplace_back( v[i] ); s.ins( s.n, s.v[i] ); } }
		same( v, s );
	}
}
//@ q:N=4,S=4 t:N=4,S=4
//@ bounds: S operations at the end on n <= N elements with and without spare capacity, including appending an element of the vector itself
ENTRY push_pop_int( ) { guarded( [] { push_pop_<U>( ); } ); }
//@ q:N=3,S=3 t:N=4,S=4
ENTRY push_pop_obj( ) { guarded( [] { push_pop_<Track>( ); } ); }

template<typename T> void insert1_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 2 ), at = pick_pos( "at", 0, n );
	Seq s; Vec<T> v; fill( v, s, n, spare );
	U x = sym_u32( "x" );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	auto pos = v.cbegin( ) + static_cast<ptrdiff_t>( at );
	typename Vec<T>::iterator r;
	if( op == 0 ) { T t( x ); r = v.insert( pos, t ); CHECK( val( t ) == x ); s.ins( at, x ); }
	else if( op == 1 ) { r = v.insert( pos, T( x ) ); s.ins( at, x ); }
	else if( op == 2 ) { r = v.emplace( pos, x ); s.ins( at, x ); }
	else { if( n == 0 ) return; size_t i = pick_pos( "self", 0, n - 1 ); U e = s.v[i]; r = v.insert( pos, static_cast<T const &>( v[i] ) ); s.ins( at, e ); }
	CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( at ) );
	same( v, s );
}
//@ q:N=6 t:N=6
//@ bounds: one insertion (copy, move, emplace, copy of an own element) at any position of n <= N elements, spare capacity 0..2
ENTRY insert1_int( ) { guarded( [] { insert1_<U>( ); } ); }
//@ q:N=6 t:N=6
ENTRY insert1_obj( ) { guarded( [] { insert1_<Track>( ); } ); }

template<typename T> void insertn_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 3 ), at = pick_pos( "at", 0, n ), m = pick_pos( "m", 0, sym_param( "M", 3 ) );
	Seq s; Vec<T> v; fill( v, s, n, spare );
	Arr<U> a( m, "a" );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 4 ) );
	auto pos = v.cbegin( ) + static_cast<ptrdiff_t>( at );
	typename Vec<T>::iterator r;
	if( op == 0 ) { U x = sym_u32( "x" ); r = v.insert( pos, m, T( x ) ); for( size_t k = 0; k < m; ++k ) s.ins( at, x ); }
	else if( op == 1 ) { r = v.insert( pos, a.begin( ), a.end( ) ); for( size_t k = m; k > 0; --k ) s.ins( at, a[k - 1] ); }
	else if( op == 2 ) { r = v.insert( pos, InIt{ a.begin( ) }, InIt{ a.end( ) } ); for( size_t k = m; k > 0; --k ) s.ins( at, a[k - 1] ); }
	else if( op == 3 ) { U x = sym_u32( "x" ); r = v.insert( pos, { T( x ), T( 7 ) } ); s.ins( at, 7 ); s.ins( at, x ); }
	else { if( n == 0 ) return; size_t i = pick_pos( "self", 0, n - 1 ); U e = s.v[i]; r = v.insert( pos, m, static_cast<T const &>( v[i] ) ); for( size_t k = 0; k < m; ++k ) s.ins( at, e ); }
	CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( at ) );
	same( v, s );
}
//@ q:N=5,M=5 t:N=5,M=5
//@ bounds: insertion of m <= M elements (fill, forward range, single-pass range, list, copies of an own element) at any position of n <= N elements, spare capacity 0..3
ENTRY insertn_int( ) { guarded( [] { insertn_<U>( ); } ); }
//@ q:N=5,M=5 t:N=5,M=5
ENTRY insertn_obj( ) { guarded( [] { insertn_<Track>( ); } ); }

template<typename T> void erase_( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Seq s; Vec<T> v; fill( v, s, n, sym_pick( "spare", 0, 1 ) );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	U x = sym_u32( "key" );
	if( op == 0 ) { if( n == 0 ) return; size_t i = pick_pos( "i", 0, n - 1 ); auto r = v.erase( v.cbegin( ) + static_cast<ptrdiff_t>( i ) ); CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( i ) ); s.del( i, i + 1 ); }
	else if( op == 1 ) { size_t i = pick_pos( "i", 0, n ), j = pick_pos( "j", i, n ); auto r = v.erase( v.cbegin( ) + static_cast<ptrdiff_t>( i ), v.cbegin( ) + static_cast<ptrdiff_t>( j ) ); CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( i ) ); s.del( i, j ); }
	else {
		Seq o; for( size_t k = 0; k < n; ++k ) { bool hit = op == 2 ? s.v[k] == x : s.v[k] < x; if( not hit ) o.v[o.n++] = s.v[k]; }
		size_t c = 0;
		if( op == 2 ) { if constexpr( std::is_same_v<T, U> ) c = erase( v, x ); else c = erase_if( v, [&]( T const &t ) { return val( t ) == x; } ); }
		else c = erase_if( v, [&]( T const &t ) { return val( t ) < x; } );
		CHECK( c == n - o.n );
		s = o;
	}
	same( v, s );
}
//@ q:N=6 t:N=6
//@ bounds: erasing one element, a range, by value or by predicate from n <= N elements
ENTRY erase_int( ) { guarded( [] { erase_<U>( ); } ); }
//@ q:N=6 t:N=6
ENTRY erase_obj( ) { guarded( [] { erase_<Track>( ); } ); }

template<typename T> void sizing_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 2 ), m = sym_param( "BIG", 0 ) ? pick_pos( "m", 0, 2 * sym_param( "BIG", 0 ) + 2 ) : sym_pick( "m", 0, N( ) + 2 );
	Seq s; Vec<T> v; fill( v, s, n, spare );
	U x = sym_u32( "x" );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
	if( op == 0 ) { v.resize( m ); while( s.n > m ) --s.n; while( s.n < m ) s.ins( s.n, 0 ); }
	else if( op == 1 ) { v.resize( m, T( x ) ); while( s.n > m ) --s.n; while( s.n < m ) s.ins( s.n, x ); }
	else if( op == 2 ) { v.append( m, T( x ) ); for( size_t k = 0; k < m; ++k ) s.ins( s.n, x ); }
	else if( op == 3 ) { v.clear( ); s.n = 0; }
	else if( op == 4 ) { v.shrink_to_fit( ); CHECK( v.capacity( ) == n ); }
	else { size_t c = v.capacity( ); v.reserve( m ); CHECK( v.capacity( ) >= m and v.capacity( ) >= c ); T const *p = v.data( ); while( v.size( ) < m ) { v.push_back( T( x ) ); s.ins( s.n, x ); } CHECK( p == v.data( ) ); }
	same( v, s );
	v.push_back( T( x ) ); s.ins( s.n, x ); same( v, s );
}
//@ q:N=5 t:N=5
//@ bounds: resize / append / clear / shrink_to_fit / reserve to m <= N+2 from n <= N elements, followed by a push
ENTRY sizing_int( ) { guarded( [] { sizing_<U>( ); } ); }
//@ q:N=5 t:N=5
ENTRY sizing_obj( ) { guarded( [] { sizing_<Track>( ); } ); }

template<typename T> void assign_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 1 ), m = sym_param( "BIG", 0 ) ? pick_pos( "m", 0, 2 * sym_param( "BIG", 0 ) + 1 ) : sym_pick( "m", 0, N( ) + 1 );
	Seq s, o; Vec<T> v, w; fill( v, s, n, spare ); fill( w, o, m, 0 );
	U x = sym_u32( "x" );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 9 ) );
	if( op == 0 ) { v = w; same( w, o ); }
	else if( op == 1 ) { v = std::move( w ); same( w, Seq{ } ); w.push_back( T( x ) ); CHECK( w.size( ) == 1 ); }
	else if( op == 2 ) { v.assign( w.begin( ), w.end( ) ); same( w, o ); }
	else if( op == 3 ) { v.assign( m, T( x ) ); o.n = 0; for( size_t k = 0; k < m; ++k ) o.ins( 0, x ); }
	else if( op == 4 ) { v = { T( x ), T( 3 ) }; o.n = 0; o.ins( 0, 3 ); o.ins( 0, x ); }
	else if( op == 5 ) { v.assign( { T( x ), T( 3 ) } ); o.n = 0; o.ins( 0, 3 ); o.ins( 0, x ); }
	else if( op == 6 ) { v.swap( w ); same( w, s ); }
	else if( op == 7 ) { swap( v, w ); same( w, s ); }
	else if( op == 8 ) { Vec<T> &r = v; v = r; o = s; }
	else { Arr<U> a( m, "a" ); v.assign( InIt{ a.begin( ) }, InIt{ a.end( ) } ); o.n = 0; for( size_t k = 0; k < m; ++k ) o.ins( k, a[k] ); }
	same( v, o );
}
//@ q:N=5 t:N=5
//@ bounds: copy/move/list/range/fill assignment, self copy assignment and swap between vectors of n <= N and m <= N+1 elements
ENTRY assign_int( ) { guarded( [] { assign_<U>( ); } ); }
//@ q:BIG=33 t:BIG=65
//@ bounds: the same on vectors of BIG and BIG-1 elements, positions at the ends and in the middle, counts to twice the size
ENTRY big_construct( ) { guarded( [] { construct_<Track>( ); } ); }
//@ q:BIG=33,S=2 t:BIG=65,S=3
ENTRY big_push_pop( ) { guarded( [] { push_pop_<Track>( ); } ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_insert1( ) { guarded( [] { insert1_<Track>( ); } ); }
//@ q:BIG=33,M=40 t:BIG=65,M=80
ENTRY big_insertn( ) { guarded( [] { insertn_<Track>( ); } ); }
//@ q:BIG=33,M=40 t:BIG=65,M=80
ENTRY big_insertn_int( ) { guarded( [] { insertn_<U>( ); } ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_erase( ) { guarded( [] { erase_<Track>( ); } ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_sizing( ) { guarded( [] { sizing_<Track>( ); } ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_assign( ) { guarded( [] { assign_<Track>( ); } ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_assign_int( ) { guarded( [] { assign_<U>( ); } ); }
//@ q:N=5 t:N=5
ENTRY assign_obj( ) { guarded( [] { assign_<Track>( ); } ); }

ENTRY order( ) {
	LeakGuard g;
	size_t n = pick_size( "n", 0, N( ) ), m = sym_pick( "m", 0, N( ) );
	Seq a, b; Vec<U> v, w; fill( v, a, n, 0 ); fill( w, b, m, 1 );
	bool eq = n == m; for( size_t k = 0; k < n and k < m; ++k ) eq &= a.v[k] == b.v[k];
	bool lt = n < m; size_t c = n < m ? n : m;
	for( size_t k = c; k > 0; --k ) lt = ( a.v[k - 1] < b.v[k - 1] ) | ( ( a.v[k - 1] == b.v[k - 1] ) & lt );
	CHECK( ( v == w ) == eq and ( v != w ) == not eq and ( v < w ) == lt and ( v > w ) == ( not lt and not eq ) and ( v <= w ) == ( lt or eq ) and ( v >= w ) == not lt );
	sym_reach( "end" );
}

// filling through a function that writes up to n elements and returns how many there are
template<bool A> void overwrite_( ) {
	size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 2 ), m = sym_param( "BIG", 0 ) ? pick_pos( "m", 0, 2 * sym_param( "BIG", 0 ) + 1 ) : sym_pick( "m", 0, N( ) + 1 ), r = sym_pick( "r", 0, m );
	Seq s; Vec<U> v; fill( v, s, n, spare );
	Arr<U> a( m, "a" );
	bool keep = sym_bool( "keep" );
	auto body = [&]( U *p, size_t z ) { CHECK( z == m ); if( not keep ) for( size_t k = 0; k < r; ++k ) p[k] = a[k]; return r; };
	sym_assume( not keep or r <= n );
	size_t got = 0;
	if constexpr( A ) got = v.resize_and_overwrite( m, [&]( U *p, size_t z, std::allocator<U> & ) { return body( p, z ); } );
	else got = v.resize_and_overwrite( m, body );
	CHECK( got == r );
	if( not keep ) for( size_t k = 0; k < r; ++k ) s.v[k] = a[k];
	s.n = r;
	same( v, s );
	// appending the same way
	size_t q = sym_pick( "q", 0, 2 ), t = sym_pick( "t", 0, q );
	Arr<U> c( q, "c" );
	auto body2 = [&]( U *p, size_t z ) { CHECK( z == q ); for( size_t k = 0; k < t; ++k ) p[k] = c[k]; return t; };
	if constexpr( A ) got = v.append_and_overwrite( q, [&]( U *p, size_t z, std::allocator<U> & ) { return body2( p, z ); } );
	else got = v.append_and_overwrite( q, body2 );
	for( size_t k = 0; k < t; ++k ) s.ins( s.n, c[k] );
	CHECK( got == t );
	same( v, s );
	v.push_back( 1 ); s.ins( s.n, 1 ); same( v, s );
}
//@ q:N=4 t:N=4
//@ bounds: resize_and_overwrite to m <= N+1 returning any count r <= m, then append_and_overwrite, on n <= N elements
ENTRY overwrite( ) { { LeakGuard g; overwrite_<false>( ); } sym_reach( "end" ); }
//@ q:N=4 t:N=4
ENTRY overwrite_alloc( ) { { LeakGuard g; overwrite_<true>( ); } sym_reach( "end" ); }
//@ q:N=6 t:N=6
//@ bounds: construction by a filling function or a signed result, n <= N
ENTRY overwrite_construct( ) {
	{
	LeakGuard g;
	size_t m = sym_pick( "m", 0, N( ) ), r = sym_pick( "r", 0, m );
	Arr<U> a( m, "a" );
	Seq s; for( size_t k = 0; k < r; ++k ) s.ins( k, a[k] );
	{ Vec<U> v( daw::do_resize_and_overwrite, m, [&]( U *p, size_t z ) { CHECK( z == m ); for( size_t k = 0; k < r; ++k ) p[k] = a[k]; return r; } ); same( v, s ); }
	{ Vec<U> v( daw::do_resize_and_overwrite, m, [&]( U *p, size_t ) { for( size_t k = 0; k < r; ++k ) p[k] = a[k]; return static_cast<long>( r ) - 1; }, std::allocator<U>{ } ); if( r ) { --s.n; } same( v, s ); }
	U first = sym_u32( "first" );
	{ Vec<U> v( daw::do_resize_and_overwrite, 5, daw::algorithm::iota_op<U>( U( first & 0xFFFF ) ) ); Seq e; for( U k = 0; k < 5; ++k ) e.ins( k, ( first & 0xFFFF ) + k ); same( v, e ); }
	{ Vec<U> v( daw::do_resize_and_overwrite, 4, daw::algorithm::iota_op<U>( U( first & 0xFFFF ), U{ 3 } ) ); Seq e; for( U k = 0; k < 4; ++k ) e.ins( k, ( first & 0xFFFF ) + 3 * k ); same( v, e ); }
	}
	sym_reach( "end" );
}
// elements with destructors: the function constructs the elements past the old end, the vector destroys what is no longer part of it
//@ q:N=5 t:N=5
//@ bounds: n <= N elements, new size m <= N+1, result any r with all of [0, max(n, m)) constructed or r equal to the number constructed
ENTRY overwrite_track( ) {
	{
		LeakGuard g;
		size_t n = pick_size( "n", 0, N( ) ), m = sym_param( "BIG", 0 ) ? pick_pos( "m", 0, 2 * sym_param( "BIG", 0 ) + 1 ) : sym_pick( "m", 0, N( ) + 1 ), r = sym_pick( "r", 0, m );
		Seq s; Vec<Track> v; fill( v, s, n, 1 );
		U x = sym_u32( "x" );
		v.resize_and_overwrite( m, [&]( Track *p, size_t ) { for( size_t k = n; k < r; ++k ) ::new( static_cast<void *>( p + k ) ) Track( x ); return r; } );
		while( s.n > r ) --s.n;
		while( s.n < r ) s.ins( s.n, x );
		same( v, s );
	}
	sym_reach( "end" );
}
//@ q:N=10 t:N=10
//@ bounds: single-pass input of n <= N elements appended in blocks of 1..3
ENTRY blocks( ) {
	{
		LeakGuard g;
		size_t n = pick_size( "n", 0, N( ) ), b = sym_pick( "block", 1, 3 ), p = sym_pick( "pre", 0, 2 );
		Arr<U> a( n, "a" );
		Seq s, t; Vec<U> v; fill( v, s, p, 0 );
		for( size_t k = 0; k < n; ++k ) { s.ins( s.n, a[k] ); t.ins( t.n, a[k] ); }
		daw::block_append_from( v, InIt{ a.begin( ) }, InIt{ a.end( ) }, b );
		same( v, s );
		auto w = daw::block_create_from<U>( a.begin( ), a.end( ), b );
		same( w, t );
	}
	sym_reach( "end" );
}
// exceptions thrown by element construction: nothing leaks, nothing is destroyed twice, and appending leaves the vector as it was
//@ q:N=5 t:N=5
//@ bounds: the i-th element construction (any i) throws during any constructor of n <= N elements
ENTRY throwing_construct( ) {
	{
		LeakGuard g;
		size_t n = pick_size( "n", 0, N( ) ), at = pick_pos( "at", 0, 2 * N( ) );
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 7 ) );
		U src[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
		Seq s; Vec<Track> o; fill( o, s, n, 0 );
		Track one( 5 );
		try {
			Track::throw_at = static_cast<int64_t>( at );
			if( op == 0 ) { Vec<Track> v( n ); }
			else if( op == 1 ) { Vec<Track> v( n, one ); }
			else if( op == 2 ) { Vec<Track> v( src, src + n ); }
			else if( op == 3 ) { Vec<Track> v( InIt{ src }, InIt{ src + n } ); }
			else if( op == 4 ) { Vec<Track> v( o ); }
			else if( op == 5 ) { Vec<Track> v( src, src + n, std::allocator<Track>{ } ); }
			else if( op == 6 ) { Vec<Track> v( n, one, std::allocator<Track>{ } ); }
			else { Vec<Track> v( o, std::allocator<Track>{ } ); }
			Track::throw_at = -1;
		} catch( int ) {}
		same( o, s );
	}
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: the i-th element copy throws during push_back, emplace_back, append, resize, reserve, insert, assign or copy assignment on n <= N elements with spare capacity 0..2; a failed append leaves the vector as it was
ENTRY throwing_modify( ) {
	{
		LeakGuard g;
		size_t n = pick_size( "n", 0, N( ) ), spare = sym_pick( "spare", 0, 2 ), at = pick_pos( "at", 0, 3 ), m = sym_pick( "m", 0, 3 );
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 9 ) );
		U src[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
		Seq s; Vec<Track> v; fill( v, s, n, spare );
		Track one( 5 );
		auto pos = v.cbegin( ) + static_cast<ptrdiff_t>( n / 2 );
		bool failed = false;
		try {
			Track::throw_at = static_cast<int64_t>( at );
			if( op == 0 ) v.push_back( one );
			else if( op == 1 ) v.emplace_back( 7u );
			else if( op == 2 ) v.reserve( n + spare + 1 );
			else if( op == 3 ) v.shrink_to_fit( );
			else if( op == 4 ) v.append( m, one );
			else if( op == 5 ) v.resize( n + m );
			else if( op == 6 ) v.insert( pos, one );
			else if( op == 7 ) v.insert( pos, src, src + m );
			else if( op == 8 ) v.insert( pos, InIt{ src }, InIt{ src + m } );
			else v.assign( src, src + m );
			Track::throw_at = -1;
		} catch( int ) { failed = true; }
		if( op == 2 or op == 3 ) { CHECK( not failed ); same( v, s ); }
		if( failed and op <= 1 ) same( v, s );
		if( failed and op <= 5 and v.size( ) >= s.n ) { bool ok = true; for( size_t k = 0; k < s.n; ++k ) ok &= val( v[k] ) == s.v[k]; CHECK( ok ); }
		for( auto &e : v ) CHECK( e.state == Track::alive or e.state == Track::moved );
		v.clear( ); v.push_back( one ); CHECK( v.size( ) == 1 and val( v[0] ) == 5 );
	}
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: the i-th allocation fails during any growing operation on n <= N elements; the vector is left as it was
ENTRY alloc_failure( ) {
	{
		LeakGuard g;
		size_t n = pick_size( "n", 0, N( ) ), at = pick_pos( "at", 0, 1 );
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 8 ) );
		U src[8] = { 1, 2, 3, 4, 5, 6, 7, 8 };
		Seq s; Vec<Track> v; fill( v, s, n, 0 );
		Track one( 5 );
		bool failed = false;
		auto pos = v.cbegin( );
		sym_fail_alloc_at( at );
		try {
			if( op == 0 ) v.push_back( one );
			else if( op == 1 ) v.emplace_back( 7u );
			else if( op == 2 ) v.reserve( n + 3 );
			else if( op == 3 ) v.shrink_to_fit( );
			else if( op == 4 ) v.append( 2, one );
			else if( op == 5 ) v.resize( n + 2 );
			else if( op == 6 ) v.insert( pos, one );
			else if( op == 7 ) v.insert( pos, src, src + 3 );
			else { Vec<Track> c( v ); }
		} catch( std::bad_alloc const & ) { failed = true; }
		sym_fail_alloc_at( ~uint64_t{ 0 } );
		if( failed or op == 3 ) same( v, s );
		if( op == 3 ) CHECK( not failed );
	}
	sym_reach( "end" );
}
// length errors
//@ bounds: all requested sizes above the maximum
ENTRY too_long( ) {
	Vec<U> v; v.push_back( 3 );
	size_t n = sym_u64( "n" );
	sym_assume( n > v.max_size( ) );
	CHECK( throws_as<std::length_error>( [&] { v.reserve( n ); } ) );
	CHECK( throws_as<std::length_error>( [&] { Vec<U> w( n ); } ) );
	CHECK( throws_as<std::length_error>( [&] { Vec<U> w( n, 1u ); } ) );
	CHECK( v.size( ) == 1 and v[0] == 3 );
	sym_reach( "end" );
}

// the double ended buffer behind it
template<typename B> void sbsame( B const &b, Seq const &s ) {
	CHECK( b.invariants( ) and b.size( ) == s.n and b.empty( ) == ( s.n == 0 ) and b.capacity( ) == b.front_spare( ) + b.size( ) + b.back_spare( ) );
	bool ok = true;
	for( size_t k = 0; k < s.n; ++k ) ok &= val( b.begin( )[k] ) == s.v[k];
	CHECK( ok );
}
template<typename T> void split_( ) {
	std::allocator<T> al;
	size_t cap = sym_pick( "cap", 0, sym_param( "C", 2 ) ), start = sym_pick( "start", 0, cap );
	daw::split_buffer<T> b( cap, start, al );
	Seq s;
	size_t steps = sym_param( "S", 3 );
	for( size_t k = 0; k < steps; ++k ) {
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 10 ) );
		U x = sym_u32( "x" );
		if( op == 0 ) { T t( x ); b.push_back( t ); s.ins( s.n, x ); }
		else if( op == 1 ) { b.push_back( T( x ) ); s.ins( s.n, x ); }
		else if( op == 2 ) { T t( x ); b.push_front( t ); s.ins( 0, x ); }
		else if( op == 3 ) { b.push_front( T( x ) ); s.ins( 0, x ); }
		else if( op == 4 ) { b.emplace_back( x ); s.ins( s.n, x ); }
		else if( op == 5 ) { if( s.n ) { b.pop_front( ); s.del( 0, 1 ); } }
		else if( op == 6 ) { if( s.n ) { b.pop_back( ); --s.n; } }
		else if( op == 7 ) { b.clear( ); s.n = 0; }
		else if( op == 8 ) { b.shrink_to_fit( ); CHECK( b.capacity( ) == s.n ); }
		else if( op == 9 ) { b.reserve( s.n + 2 ); CHECK( b.capacity( ) >= s.n + 2 ); }
		else { U a[2] = { x, x + 1 }; b.construct_at_end( InIt{ a }, InIt{ a + 2 } ); s.ins( s.n, x ); s.ins( s.n, x + 1 ); }
		sbsame( b, s );
		if( s.n ) CHECK( val( b.front( ) ) == s.v[0] and val( b.back( ) ) == s.v[s.n - 1] );
	}
	daw::split_buffer<T> c( std::move( b ) ); sbsame( c, s ); sbsame( b, Seq{ } );
	daw::split_buffer<T> d; d = std::move( c ); sbsame( d, s ); sbsame( c, Seq{ } );
	daw::split_buffer<T> e( std::move( d ), al ); sbsame( e, s );
	e.swap( d ); sbsame( d, s ); sbsame( e, Seq{ } );
}
//@ q:S=3,C=3 t:S=4,C=4
//@ bounds: S operations at either end of a double-ended buffer of capacity <= C with any start offset, then move and swap
ENTRY split_int( ) { guarded( [] { split_<U>( ); } ); }
//@ q:S=3,C=3 t:S=4,C=4
ENTRY split_obj( ) { guarded( [] { split_<Track>( ); } ); }

// allocators that differ: every block goes back to the allocator it came from
struct Blocks {
	static constexpr size_t MAX = 16;
	void *p[MAX]{ };
	size_t n[MAX]{ };
	int id[MAX]{ };
	size_t used = 0;
	int live = 0;
};
static Blocks blk;
template<typename T, bool CA, bool MA, bool SW> struct IdAlloc {
	using value_type = T;
	using propagate_on_container_copy_assignment = std::bool_constant<CA>;
	using propagate_on_container_move_assignment = std::bool_constant<MA>;
	using propagate_on_container_swap = std::bool_constant<SW>;
	using is_always_equal = std::false_type;
	template<typename Q> struct rebind { using other = IdAlloc<Q, CA, MA, SW>; };
	int id = 0;
	IdAlloc( ) = default;
	explicit IdAlloc( int i ) : id( i ) {}
	T *allocate( size_t n ) {
		T *r = static_cast<T *>( ::operator new( n * sizeof( T ) ) );
		if( blk.used == Blocks::MAX ) sym_assert( false, "block table of the check is large enough" );
		blk.p[blk.used] = r; blk.n[blk.used] = n; blk.id[blk.used] = id; ++blk.used; ++blk.live;
		return r;
	}
	void deallocate( T *p, size_t n ) {
		bool found = false;
		for( size_t k = 0; k < blk.used; ++k ) if( blk.p[k] == p and p ) { found = blk.n[k] == n and blk.id[k] == id; blk.p[k] = nullptr; break; }
		sym_assert( found, "a block is given back once, whole, to the allocator it came from" );
		--blk.live;
		::operator delete( p );
	}
	bool operator==( IdAlloc const &o ) const { return id == o.id; }
	bool operator!=( IdAlloc const &o ) const { return id != o.id; }
};
template<bool CA, bool MA, bool SW> void allocs_( ) {
	using A = IdAlloc<Track, CA, MA, SW>;
	using V = daw::vector<Track, A>;
	{
		LeakGuard g;
		int const ia = 1, ib = sym_bool( "same" ) ? 1 : 2;
		size_t n = sym_pick( "n", 0, 2 ), m = sym_pick( "m", 0, 2 );
		Seq sa, sb;
		V a( A{ ia } ), b( A{ ib } );
		fill( a, sa, n, 0 );
		fill( b, sb, m, sym_pick( "spare", 0, 1 ) );
		CHECK( a.get_allocator( ).id == ia );
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 7 ) );
		if( op == 0 ) { a = b; same( a, sb ); same( b, sb ); CHECK( a.get_allocator( ).id == ( CA ? ib : ia ) and b.get_allocator( ).id == ib ); }
		else if( op == 1 ) { a = std::move( b ); same( a, sb ); CHECK( a.get_allocator( ).id == ( MA ? ib : ia ) and b.get_allocator( ).id == ib ); if( MA or ia == ib ) same( b, Seq{ } ); sa = sb; b.clear( ); sb = Seq{ }; }
		else if( op == 2 ) {
			if( SW or ia == ib ) { a.swap( b ); same( a, sb ); same( b, sa ); CHECK( a.get_allocator( ).id == ( SW ? ib : ia ) and b.get_allocator( ).id == ( SW ? ia : ib ) ); }
		}
		else if( op == 3 ) { V c( b ); same( c, sb ); same( b, sb ); CHECK( c.get_allocator( ).id == ib ); c.push_back( Track( 3 ) ); }
		else if( op == 4 ) { V c( std::move( b ) ); same( c, sb ); same( b, Seq{ } ); CHECK( c.get_allocator( ).id == ib ); sb = Seq{ }; }
		else if( op == 5 ) { V c( b, A{ ia } ); same( c, sb ); same( b, sb ); CHECK( c.get_allocator( ).id == ia ); }
		else if( op == 6 ) { V c( std::move( b ), A{ ia } ); same( c, sb ); CHECK( c.get_allocator( ).id == ia ); b.clear( ); }
		else { U src[2] = { 7, 8 }; V c( src, src + 2, A{ ia } ); V d( 2, A{ ia } ); V e( 2, Track( 9 ), A{ ib } ); CHECK( c.get_allocator( ).id == ia and d.get_allocator( ).id == ia and e.get_allocator( ).id == ib ); CHECK( c.size( ) == 2 and c[0].get( ) == 7 and c[1].get( ) == 8 and d[1].get( ) == 0 and e[1].get( ) == 9 ); }
		// still usable afterwards
		size_t const an = a.size( );
		U x = sym_u32( "x" );
		a.push_back( Track( x ) );
		CHECK( a.size( ) == an + 1 and a.back( ).get( ) == x );
		if( sym_bool( "insert" ) ) { a.insert( a.begin( ), Track( x ) ); CHECK( a.front( ).get( ) == x and a.size( ) == an + 2 ); }
		b.push_back( Track( x ) );
		CHECK( b.back( ).get( ) == x );
		if( sym_bool( "shrink" ) ) { a.shrink_to_fit( ); b.reserve( 5 ); }
	}
	CHECK( blk.live == 0 );
	sym_reach( "end" );
}
//@ bounds: two vectors of <= 2 elements whose allocators are equal or differ, every assignment, move, copy and swap
ENTRY allocators_stay( ) { allocs_<false, false, false>( ); }
//@ bounds: as above, allocators that travel with the contents
ENTRY allocators_travel( ) { allocs_<true, true, true>( ); }
//@ bounds: as above, allocators that travel on some operations
ENTRY allocators_mixed( ) {
	if( sym_bool( "which" ) ) allocs_<true, false, true>( );
	else allocs_<false, true, false>( );
}
// the pair that stores the allocator
struct EmptyA { bool operator==( EmptyA const & ) const { return true; } };
//@ bounds: all values
ENTRY pair_of_both( ) {
	U x = sym_u32( "x" ), y = sym_u32( "y" ), z = sym_u32( "z" ), w = sym_u32( "w" );
	using P = daw::compressed_pair<U, uint64_t>;
	P p( x, (uint64_t)y ), q( z, (uint64_t)w );
	CHECK( p.first( ) == x and p.second( ) == y );
	P const &cp = p;
	CHECK( &cp.first( ) == &p.first( ) and &cp.second( ) == &p.second( ) );
	if( sym_bool( "member" ) ) p.swap( q ); else { using daw::swap; swap( p, q ); }
	CHECK( p.first( ) == z and p.second( ) == w and q.first( ) == x and q.second( ) == y );
	P d;
	CHECK( d.first( ) == 0 and d.second( ) == 0 );
	P e( std::piecewise_construct, std::make_tuple( x ), std::make_tuple( (uint64_t)y ) );
	CHECK( e.first( ) == x and e.second( ) == y );
	daw::compressed_pair<U, EmptyA> f( x, EmptyA{ } );
	CHECK( f.first( ) == x and f.second( ) == EmptyA{ } and sizeof( f ) == sizeof( U ) );
	sym_reach( "end" );
}
