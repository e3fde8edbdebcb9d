#include "common.h"
#include <daw/daw_view.h>
#include <daw/daw_iter_view.h>
#include <vector>
static size_t N( ) { return sym_param( "N", 3 ); }
using U = uint32_t;
// bidirectional / forward iterators over an array that check they stay inside it
template<typename Cat> struct It {
	using iterator_category = Cat; using value_type = U; using difference_type = ptrdiff_t; using pointer = U *; using reference = U &;
	U *p = nullptr; U *b = nullptr; U *e = nullptr;
	It( ) = default;
	It( U *p_, U *b_, U *e_ ) : p( p_ ), b( b_ ), e( e_ ) {}
	U &operator*( ) const { sym_assert( p != e, "dereference of the end" ); return *p; }
	U *operator->( ) const { return p; }
	It &operator++( ) { sym_assert( p != e, "increment past the end" ); ++p; return *this; }
	It operator++( int ) { It r = *this; ++*this; return r; }
	It &operator--( ) { sym_assert( p != b, "decrement before the start" ); --p; return *this; }
	It operator--( int ) { It r = *this; --*this; return r; }
	bool operator==( It const &o ) const { return p == o.p; }
	bool operator!=( It const &o ) const { return p != o.p; }
};
using Bi = It<std::bidirectional_iterator_tag>;
using Fw = It<std::forward_iterator_tag>;
inline U *at( U *p ) { return p; }
template<typename C> U *at( It<C> const &i ) { return i.p; }
inline U const *at( U const *p ) { return p; }
template<typename I, typename V> void vsame( V &v, Arr<U> &a, size_t f, size_t l ) {
	V const &c = v;
	CHECK( at( v.begin( ) ) == a.p + f and at( v.end( ) ) == a.p + l and at( c.begin( ) ) == a.p + f and at( c.end( ) ) == a.p + l and at( c.cbegin( ) ) == a.p + f and at( c.cend( ) ) == a.p + l );
	CHECK( v.size( ) == l - f and v.empty( ) == ( l == f ) );
}
template<typename I> I mk( Arr<U> &a, size_t i ) { if constexpr( std::is_pointer_v<I> ) return a.p + i; else return I( a.p + i, a.p, a.p + a.n ); }
template<typename I> void view_( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	using V = daw::view<I>;
	V v( mk<I>( a, 0 ), mk<I>( a, n ) );
	V const &c = v;
	vsame<I>( v, a, 0, n );
	CHECK( at( v.data( ) ) == a.p and at( c.data( ) ) == a.p and v.ssize( ) == static_cast<ptrdiff_t>( n ) );
	size_t k = n; bool ok = true;
	for( auto it = v.rbegin( ); it != v.rend( ); ++it ) { --k; ok &= &*it == a.p + k; }
	CHECK( ok and k == 0 ); k = n;
	for( auto it = c.rbegin( ); it != c.rend( ); ++it ) { --k; ok &= &*it == a.p + k; }
	CHECK( ok and k == 0 ); k = n;
	for( auto it = c.crbegin( ); it != c.crend( ); ++it ) { --k; ok &= &*it == a.p + k; }
	CHECK( ok and k == 0 );
	if( n ) CHECK( &v.front( ) == a.p and &c.front( ) == a.p and &v.back( ) == a.p + ( n - 1 ) and &c.back( ) == a.p + ( n - 1 ) );
	size_t i = sym_u64( "i" );
	if( i < n ) { i = sym_concrete( i ); CHECK( &v[i] == a.p + i and &c[i] == a.p + i and &v.at( i ) == a.p + i and &c.at( i ) == a.p + i ); }
	else CHECK( throws_as<std::out_of_range>( [&] { (void)v.at( i ); } ) and throws_as<std::out_of_range>( [&] { (void)c.at( i ); } ) );
	size_t m = sym_u64( "m" ); bool in = m <= n; size_t e = sym_concrete( sel<size_t>( in, m, n ) );
	{ V t = v; auto f = t.pop_front( m ); vsame<I>( t, a, e, n ); vsame<I>( f, a, 0, e ); }
	{ V t = v; auto f = t.pop_back( m ); vsame<I>( t, a, 0, n - e ); vsame<I>( f, a, n - e, n ); }
	{ V t = v; t.remove_prefix( e ); vsame<I>( t, a, e, n ); t = v; t.remove_suffix( e ); vsame<I>( t, a, 0, n - e ); }
	if( n ) {
		V t = v; t.remove_prefix( ); vsame<I>( t, a, 1, n ); t = v; t.remove_suffix( ); vsame<I>( t, a, 0, n - 1 );
		t = v; CHECK( t.pop_front( ) == a[0] ); vsame<I>( t, a, 1, n ); t = v; CHECK( t.pop_back( ) == a[n - 1] ); vsame<I>( t, a, 0, n - 1 );
	}
	{ V t = v; U x = 0; bool r = t.pop( x ); CHECK( r == ( n != 0 ) ); if( r ) { CHECK( x == a[0] ); vsame<I>( t, a, 1, n ); } }
}
//@ q:N=6 t:N=6
//@ bounds: views over n <= N elements through pointers and bidirectional iterators; all 64-bit counts
ENTRY view_ptr( ) { view_<U *>( ); sym_reach( "end" ); }
//@ q:N=6 t:N=6
ENTRY view_bidir( ) { view_<Bi>( ); sym_reach( "end" ); }

template<typename I> void iview_( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	using V = daw::iter_view<I>;
	V v( mk<I>( a, 0 ), mk<I>( a, n ) );
	V const &c = v;
	vsame<I>( v, a, 0, n );
	{ V d( mk<I>( a, 0 ), n ); vsame<I>( d, a, 0, n ); V e; CHECK( e.empty( ) and e.size( ) == 0 ); }
	if constexpr( not std::is_same_v<I, Fw> ) {
		size_t k = n; bool ok = true;
		for( auto it = v.rbegin( ); it != v.rend( ); ++it ) { --k; ok &= &*it == a.p + k; }
		CHECK( ok and k == 0 ); k = n;
		for( auto it = c.rbegin( ); it != c.rend( ); ++it ) { --k; ok &= &*it == a.p + k; }
		CHECK( ok and k == 0 ); k = n;
		for( auto it = c.crbegin( ); it != c.crend( ); ++it ) { --k; ok &= &*it == a.p + k; }
		CHECK( ok and k == 0 );
	}
	if( n ) { CHECK( &v.front( ) == a.p and &c.front( ) == a.p ); CHECK( &V( mk<I>( a, 0 ), mk<I>( a, n ) ).front( ) == a.p ); size_t i = pick_pos( "i", 0, n - 1 ); CHECK( &v[i] == a.p + i and &c[i] == a.p + i ); }
	size_t m = sym_u64( "m" ), e = sym_concrete( sel<size_t>( m <= n, m, n ) );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	if( op == 0 ) { V t = v; t.remove_prefix( m ); vsame<I>( t, a, e, n ); if( e and not std::is_same_v<I, Fw> ) { t.add_prefix( e ); vsame<I>( t, a, 0, n ); t.remove_prefix( ); vsame<I>( t, a, 1, n ); t.add_prefix( ); vsame<I>( t, a, 0, n ); } }
	else if( op == 1 ) { if( m <= n ) { V t = v; t.remove_prefix( e, daw::dont_clip_to_bounds ); vsame<I>( t, a, e, n ); } }
	else if( op == 2 ) { if( n ) { V t = v; CHECK( t.pop_front( ) == a[0] ); vsame<I>( t, a, 1, n ); } }
	else { size_t cnt = sym_u64( "cnt" ), q = sym_concrete( sel<size_t>( cnt <= n - e, cnt, n - e ) ); auto t = c.subspan( m, cnt ); vsame<I>( t, a, e, e + q ); auto t2 = c.subspan( m ); vsame<I>( t2, a, e, n ); }
}
//@ q:N=5 t:N=5
//@ bounds: iterator views over n <= N elements through pointers, bidirectional and forward iterators; all 64-bit counts
ENTRY iter_view_ptr( ) { iview_<U *>( ); sym_reach( "end" ); }
//@ q:N=5 t:N=5
ENTRY iter_view_bidir( ) { iview_<Bi>( ); sym_reach( "end" ); }
//@ q:N=5 t:N=5
ENTRY iter_view_forward( ) { iview_<Fw>( ); sym_reach( "end" ); }

template<typename I> void search_( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	using V = daw::iter_view<I>;
	auto make = [&] { return V( mk<I>( a, 0 ), mk<I>( a, n ) ); };
	U x = sym_u32( "x" );
	size_t f = n, g = n;
	for( size_t k = n; k > 0; --k ) { f = sel<size_t>( a[k - 1] == x, k - 1, f ); g = sel<size_t>( a[k - 1] != x, k - 1, g ); }
	f = sym_concrete( f ); g = sym_concrete( g );
	size_t f1 = f < n ? f + 1 : n, g1 = g < n ? g + 1 : n;
	V s = make( );
	CHECK( at( s.find( x ) ) == a.p + f and at( std::as_const( s ).find( x ) ) == a.p + f and at( s.find_first_not_of( x ) ) == a.p + g and at( std::as_const( s ).find_first_not_of( x ) ) == a.p + g );
	{ V t = make( ); V &r = t.remove_prefix_until( x ); CHECK( &r == &t ); vsame<I>( t, a, f, n ); }
	{ V t = make( ); t.remove_prefix_until( x, daw::discard ); vsame<I>( t, a, f1, n ); }
	{ V t = make( ); t.remove_prefix_while( x ); vsame<I>( t, a, g, n ); }
	{ V t = make( ); t.remove_prefix_while( x, daw::discard ); vsame<I>( t, a, g1, n ); }
	{ V t = make( ); V r = t.pop_front_until( x ); vsame<I>( t, a, f, n ); vsame<I>( r, a, 0, f ); }
	{ V t = make( ); V r = t.pop_front_until( x, daw::discard ); vsame<I>( t, a, f1, n ); vsame<I>( r, a, 0, f ); }
	{ V t = make( ); V r = t.pop_front_while( x ); vsame<I>( t, a, g, n ); vsame<I>( r, a, 0, g ); }
	{ V t = make( ); V r = t.pop_front_while( x, daw::discard ); vsame<I>( t, a, g1, n ); vsame<I>( r, a, 0, g ); }
}
//@ q:N=6 t:N=6
//@ bounds: n <= N elements, any needle
ENTRY search_ptr( ) { search_<U *>( ); sym_reach( "end" ); }
//@ q:N=6 t:N=6
ENTRY search_forward( ) { search_<Fw>( ); sym_reach( "end" ); }
//@ q:N=4 t:N=4
//@ bounds: two views of n, m <= N elements
ENTRY order( ) {
	size_t n = pick_size( "n", 0, N( ) ), m = pick_size( "m", 0, N( ) );
	Arr<U> a( n, "a" ), b( m, "b" );
	bool eq = n == m; for( size_t k = 0; k < n and k < m; ++k ) eq &= a[k] == b[k];
	bool lt = n < m; for( size_t k = n < m ? n : m; k > 0; --k ) lt = ( a[k - 1] < b[k - 1] ) | ( ( a[k - 1] == b[k - 1] ) & lt );
	if( sym_bool( "ptr" ) ) { daw::iter_view<U *> v( a.p, n ), w( b.p, m ); CHECK( ( v == w ) == eq and ( v != w ) == not eq and ( v < w ) == lt and ( v > w ) == ( not lt and not eq ) and ( v <= w ) == ( lt or eq ) and ( v >= w ) == not lt ); }
	else { daw::iter_view<Fw> v( mk<Fw>( a, 0 ), n ), w( mk<Fw>( b, 0 ), m ); CHECK( ( v == w ) == eq and ( v != w ) == not eq and ( v < w ) == lt and ( v > w ) == ( not lt and not eq ) and ( v <= w ) == ( lt or eq ) and ( v >= w ) == not lt ); }
	sym_reach( "end" );
}
//@ bounds: vectors and arrays of 3
ENTRY from_containers( ) {
	std::vector<U> v{ 1, 2, 3 }; U raw[3] = { 4, 5, 6 };
	daw::iter_view<std::vector<U>::iterator> a( v ); CHECK( a.size( ) == 3 and &a.front( ) == &v[0] and a.end( ) == v.end( ) );
	daw::iter_view<U const *> b( raw ); CHECK( b.size( ) == 3 and b.begin( ) == raw and b.end( ) == raw + 3 );
	sym_reach( "end" );
}

//@ bounds: views of 0..2 inside 4 elements, the neighbours readable; any position and count outside
ENTRY iter_view_misuse( ) {
	U raw[4] = { 1, 2, 3, 4 };
	size_t n = sym_pick( "n", 0, 2 ), i = sym_u64( "i" );
	daw::iter_view<U *> v( raw + 1, n );
	auto const &c = v;
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 6 ) );
	sym_reach( "end" );
	if( op <= 1 ) sym_assume( i >= n and i <= 3 ); else if( op == 2 ) sym_assume( i > n and i <= 3 ); else sym_assume( n == 0 );
	sym_expect_terminate( true );
	if( op == 0 ) (void)v[i];
	else if( op == 1 ) (void)c[i];
	else if( op == 2 ) v.remove_prefix( i, daw::dont_clip_to_bounds );
	else if( op == 3 ) (void)v.pop_front( );
	else if( op == 4 ) v.remove_prefix( );
	else if( op == 5 ) (void)v.front( );
	else (void)c.front( );
	sym_assert( false, "use outside a view was not refused" );
}
//@ q:BIG=17 t:BIG=33
//@ bounds: the same over BIG and BIG-1 elements
ENTRY big_view_ptr( ) { view_<U *>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_view_bidir( ) { view_<Bi>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_iter_view_ptr( ) { iview_<U *>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_iter_view_bidir( ) { iview_<Bi>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_iter_view_forward( ) { iview_<Fw>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_search_ptr( ) { search_<U *>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_search_forward( ) { search_<Fw>( ); sym_reach( "end" ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_order( ) { order( ); }
