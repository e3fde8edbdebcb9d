#include "common.h"
#include <daw/daw_span.h>
#include <daw/daw_contiguous_view.h>
#include <daw/daw_span_writer.h>
#include <array>
#include <vector>
static size_t N( ) { return sym_param( "N", 3 ); }
using U = uint32_t;
template<typename S> void look( S &s, U const *p, size_t n ) {
	S const &c = s;
	CHECK( s.size( ) == n and s.empty( ) == ( n == 0 ) and s.data( ) == p and c.data( ) == p and s.end( ) - s.begin( ) == static_cast<ptrdiff_t>( n ) and c.end( ) - c.begin( ) == static_cast<ptrdiff_t>( n ) and c.cend( ) - c.cbegin( ) == static_cast<ptrdiff_t>( n ) );
	size_t k = 0; bool ok = true;
	for( auto &e : s ) { ok &= &e == p + k; ++k; }
	for( auto &e : c ) { --k; (void)e; }
	CHECK( ok and k == 0 ); k = n;
	for( auto it = s.rbegin( ); it != s.rend( ); ++it ) { --k; ok &= &*it == p + k; }
	CHECK( ok and k == 0 ); k = n;
	for( auto it = c.rbegin( ); it != c.rend( ); ++it ) { --k; ok &= &*it == p + k; }
	CHECK( ok and k == 0 ); k = n;
	for( auto it = c.crbegin( ); it != c.crend( ); ++it ) { --k; ok &= &*it == p + k; }
	CHECK( ok and k == 0 );
}
template<typename S> void elements( S &s, U const *p, size_t n ) {
	S const &c = s;
	size_t i = sym_u64( "i" );
	if( i < n ) { CHECK( &s[i] == p + i and &c[i] == p + i and &s.at( i ) == p + i and &c.at( i ) == p + i ); }
	else { CHECK( throws_as<std::out_of_range>( [&] { (void)s.at( i ); } ) and throws_as<std::out_of_range>( [&] { (void)c.at( i ); } ) ); }
}
template<typename T> void span_all( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	using S = daw::span<T>;
	{ S s; look( s, nullptr, 0 ); S z( nullptr, sym_u64( "any" ) ); CHECK( z.size( ) == 0 and z.empty( ) ); S q( nullptr ); CHECK( q.empty( ) ); }
	S s( a.begin( ), n ); look( s, a.p, n ); elements( s, a.p, n ); CHECK( s.size_bytes( ) == n * 4 );
	if( n ) CHECK( &s.front( ) == a.p and &s.back( ) == a.p + ( n - 1 ) );
	{ S r( a.begin( ), static_cast<T *>( a.end( ) ) ); look( r, a.p, n ); S back( a.end( ), static_cast<T *>( a.begin( ) ) ); CHECK( back.size( ) == 0 ); }
	{ S const &cs = s; auto c = cs.copy( ); look( c, a.p, n ); S d( c ); look( d, a.p, n ); S e; e = d; look( e, a.p, n ); }
	{ U raw[3] = { 1, 2, 3 }; S r( raw ); look( r, raw, 3 ); std::array<U, 3> ar{ 4, 5, 6 }; S r2( ar ); look( r2, ar.data( ), 3 ); }
	// dropping elements at either end
	size_t k = pick_pos( "k", 0, n );
	{ S t = s.copy( ); t.remove_prefix( k ); look( t, a.p + k, n - k ); }
	{ S t = s.copy( ); t.remove_suffix( k ); look( t, a.p, n - k ); }
	{ S t = s.copy( ); auto f = t.pop_front( k ); look( t, a.p + k, n - k ); look( f, a.p, k ); }
	{ S t = s.copy( ); auto f = t.pop_back( k ); look( t, a.p, n - k ); look( f, a.p + ( n - k ), k ); }
	if( n ) {
		{ S t = s.copy( ); t.remove_prefix( ); look( t, a.p + 1, n - 1 ); t = s.copy( ); t.remove_suffix( ); look( t, a.p, n - 1 ); }
		{ S t = s.copy( ); CHECK( t.pop_front( ) == a[0] ); look( t, a.p + 1, n - 1 ); }
		{ S t = s.copy( ); CHECK( t.pop_back( ) == a[n - 1] ); look( t, a.p, n - 1 ); }
	}
	if constexpr( not std::is_const_v<T> ) { S t = s.copy( ); U v = 0; bool r = t.pop( v ); CHECK( r == ( n != 0 ) ); if( r ) { CHECK( v == a[n - 1] ); look( t, a.p, n - 1 ); } }
	// sub spans, any position and count
	size_t pos = sym_u64( "pos" ), cnt = sym_u64( "cnt" );
	if( pos <= n ) {
		auto t = s.subspan( pos, cnt ); CHECK( t.data( ) == a.p + pos and t.size( ) == ( cnt < n - pos ? cnt : n - pos ) );
		auto t2 = s.subspan( pos ); CHECK( t2.data( ) == a.p + pos and t2.size( ) == n - pos );
		S const &c = s; auto t3 = c.subspan( pos, cnt ); CHECK( t3.data( ) == a.p + pos and t3.size( ) == ( cnt < n - pos ? cnt : n - pos ) );
		auto t4 = s.subspan( ); auto t5 = std::as_const( s ).subspan( ); look( t4, a.p, n ); look( t5, a.p, n );
		auto t6 = std::as_const( s ).subspan( pos ); CHECK( t6.data( ) == a.p + pos and t6.size( ) == n - pos );
	} else { S const &c = s; CHECK( throws_as<std::out_of_range>( [&] { (void)s.subspan( pos, cnt ); } ) and throws_as<std::out_of_range>( [&] { (void)c.subspan( pos, cnt ); } ) ); }
	if( n == 0 ) CHECK( throws( [&] { S t = s.copy( ); (void)t.pop_back( 1 ); } ) );
}
//@ q:N=7 t:N=7
//@ bounds: spans over n <= N elements; all 64-bit positions and counts for subspan/at
ENTRY span_const( ) { span_all<U const>( ); sym_reach( "end" ); }
//@ q:N=7 t:N=7
ENTRY span_mutable( ) { span_all<U>( ); daw::span<U> m; daw::span<U const> c = m; CHECK( c.empty( ) ); sym_reach( "end" ); }
//@ bounds: writing through a span of 3
ENTRY span_write( ) {
	Arr<U> a( 3, "a" ); U b[3] = { a[0], a[1], a[2] };
	daw::span<U> s( a.begin( ), size_t{ 3 } );
	size_t i = sym_pick( "i", 0, 2 ); U x = sym_u32( "x" );
	s[i] = x; b[i] = x; CHECK( a[0] == b[0] and a[1] == b[1] and a[2] == b[2] );
	daw::span<U const> c( s ); CHECK( c.data( ) == a.p and c.size( ) == 3 );
	std::vector<U> v{ 1, 2 }; daw::span<U> sv( v ); CHECK( sv.data( ) == v.data( ) and sv.size( ) == 2 );
	std::vector<U> const cv{ 1, 2 }; daw::span<U const> scv( cv ); CHECK( scv.data( ) == cv.data( ) and scv.size( ) == 2 );
	sym_reach( "end" );
}

template<typename T> void view_all( ) {
	size_t n = pick_size( "n", 0, N( ) );
	Arr<U> a( n, "a" );
	using S = daw::contiguous_view<T>;
	auto mk = [&] { return S( a.begin( ), n ); };
	S s = mk( ); look( s, a.p, n ); elements( s, a.p, n );
	CHECK( s.data_end( ) == a.p + n and std::as_const( s ).data_end( ) == a.p + n );
	{ S r( a.begin( ), a.end( ) ); look( r, a.p, n ); S d; CHECK( d.empty( ) and d.size( ) == 0 ); S e( r ); look( e, a.p, n ); d = e; look( d, a.p, n ); }
	if constexpr( not std::is_const_v<T> ) { if( n ) CHECK( &s.front( ) == a.p and &s.back( ) == a.p + ( n - 1 ) and &std::as_const( s ).front( ) == a.p and &std::as_const( s ).back( ) == a.p + ( n - 1 ) ); }
	// dropping elements; counts are clipped
	size_t c = sym_u64( "c" ), e = c < n ? c : n;
	{ S t = mk( ); t.remove_prefix( c ); CHECK( t.data( ) == a.p + e and t.size( ) == n - e ); }
	{ S t = mk( ); t.remove_suffix( c ); CHECK( t.data( ) == a.p and t.size( ) == n - e ); }
	if( c <= n ) { S t = mk( ); t.remove_prefix( c, daw::dont_clip_to_bounds ); CHECK( t.data( ) == a.p + c and t.size( ) == n - c ); S u = mk( ); u.remove_suffix( c, daw::dont_clip_to_bounds ); CHECK( u.data( ) == a.p and u.size( ) == n - c ); t.add_prefix( c ); CHECK( t.data( ) == a.p and t.size( ) == n ); u.add_suffix( c ); CHECK( u.data( ) == a.p and u.size( ) == n ); }
	{ S t = mk( ); t.remove_prefix( ); CHECK( t.size( ) == ( n ? n - 1 : 0 ) and t.data_end( ) == a.p + n ); if( n ) { t.add_prefix( ); CHECK( t.data( ) == a.p ); } }
	{ S t = mk( ); t.remove_suffix( ); CHECK( t.size( ) == ( n ? n - 1 : 0 ) and t.data( ) == a.p ); if( n ) { t.add_suffix( ); CHECK( t.size( ) == n ); } }
	if( n ) { S t = mk( ); CHECK( t.pop_front( ) == a[0] ); CHECK( t.data( ) == a.p + 1 and t.size( ) == n - 1 ); S u = mk( ); CHECK( u.pop_back( ) == a[n - 1] ); CHECK( u.data( ) == a.p and u.size( ) == n - 1 ); }
	// searching and splitting
	U x = sym_u32( "x" );
	size_t f = n, g = n;
	for( size_t k = n; k > 0; --k ) { f = sel<size_t>( a[k - 1] == x, k - 1, f ); g = sel<size_t>( a[k - 1] != x, k - 1, g ); }
	size_t f1 = f < n ? f + 1 : n, g1 = g < n ? g + 1 : n;
	CHECK( s.find( x ).base( ) == a.p + f and std::as_const( s ).find( x ).base( ) == a.p + f and s.find_first_not_of( x ).base( ) == a.p + g and std::as_const( s ).find_first_not_of( x ).base( ) == a.p + g );
	auto rest = [&]( S &t, size_t at ) { CHECK( t.data( ) == a.p + at and t.data_end( ) == a.p + n ); };
	{ S t = mk( ); S &r = t.remove_prefix_until( x ); CHECK( &r == &t ); rest( t, f ); }
	{ S t = mk( ); t.remove_prefix_until( x, daw::discard ); rest( t, f1 ); }
	{ S t = mk( ); t.remove_prefix_while( x ); rest( t, g ); }
	{ S t = mk( ); t.remove_prefix_while( x, daw::discard ); rest( t, g1 ); }
	{ S t = mk( ); S r = t.pop_front_until( x ); rest( t, f ); CHECK( r.data( ) == a.p and r.size( ) == f ); }
	{ S t = mk( ); S r = t.pop_front_until( x, daw::discard ); rest( t, f1 ); CHECK( r.data( ) == a.p and r.size( ) == f ); }
	{ S t = mk( ); S r = t.pop_front_while( x ); rest( t, g ); CHECK( r.data( ) == a.p and r.size( ) == g ); }
	{ S t = mk( ); S r = t.pop_front_while( x, daw::discard ); rest( t, g1 ); CHECK( r.data( ) == a.p and r.size( ) == g ); }
	// sub views
	size_t pos = sym_u64( "pos" ), cnt = sym_u64( "cnt" );
	size_t p = pos < n ? pos : n, m = cnt < n - p ? cnt : n - p;
	S t = s.subspan( pos, cnt ); CHECK( t.size( ) == m and ( m == 0 or t.data( ) == a.p + p ) );
	S t2 = s.subspan( pos ); CHECK( t2.size( ) == n - p and t2.data( ) == a.p + p );
}
//@ q:N=7 t:N=7
//@ bounds: views over n <= N elements; all values, 64-bit positions and counts
ENTRY view_const( ) { view_all<U const>( ); sym_reach( "end" ); }
//@ q:N=7 t:N=7
ENTRY view_mutable( ) { view_all<U>( ); sym_reach( "end" ); }
//@ bounds: views of 0..2 inside 4 elements, the neighbours readable; any position and count outside
ENTRY view_misuse( ) {
	U raw[4] = { 1, 2, 3, 4 };
	size_t n = sym_pick( "n", 0, 2 ), i = sym_u64( "i" );
	daw::contiguous_view<U> v( raw + 1, n );
	daw::contiguous_view<U const> c( raw + 1, n );
	auto const &k = v;
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 9 ) );
	sym_reach( "end" );
	if( op <= 2 ) sym_assume( i >= n and i <= 3 ); else if( op <= 4 ) sym_assume( i > n and i <= 3 ); else sym_assume( n == 0 );
	sym_expect_terminate( true );
	if( op == 0 ) (void)v[i];
	else if( op == 1 ) (void)k[i];
	else if( op == 2 ) (void)c[i];
	else if( op == 3 ) v.remove_prefix( i, daw::dont_clip_to_bounds );
	else if( op == 4 ) v.remove_suffix( i, daw::dont_clip_to_bounds );
	else if( op == 5 ) (void)v.pop_front( );
	else if( op == 6 ) (void)v.pop_back( );
	else if( op == 7 ) (void)c.pop_front( );
	else if( op == 8 ) (void)v.front( );
	else (void)k.back( );
	sym_assert( false, "use outside a view was not refused" );
}
//@ q:N=5 t:N=5
//@ bounds: two views of n, m <= N elements
ENTRY view_order( ) {
	size_t n = pick_size( "n", 0, N( ) ), m = pick_size( "m", 0, N( ) );
	Arr<U> a( n, "a" ), b( m, "b" );
	daw::contiguous_view<U const> v( a.p, n ), w( b.p, m );
	daw::contiguous_view<U> vm( a.p, n ), wm( b.p, m );
	bool eq = n == m; for( size_t k = 0; k < n and k < m; ++k ) eq &= a[k] == b[k];
	bool lt = n < m; for( size_t k = n < m ? n : m; k > 0; --k ) lt = ( a[k - 1] < b[k - 1] ) | ( ( a[k - 1] == b[k - 1] ) & lt );
	if( sym_bool( "which" ) ) CHECK( ( v == w ) == eq and ( v != w ) == not eq and ( v < w ) == lt and ( v > w ) == ( not lt and not eq ) and ( v <= w ) == ( lt or eq ) and ( v >= w ) == not lt );
	else CHECK( ( vm == wm ) == eq and ( vm != wm ) == not eq and ( vm < wm ) == lt and ( vm > wm ) == ( not lt and not eq ) and ( vm <= wm ) == ( lt or eq ) and ( vm >= wm ) == not lt );
	sym_reach( "end" );
}
//@ bounds: containers and arrays of 3 elements
ENTRY view_from( ) {
	std::vector<U> v{ 1, 2, 3 }; std::vector<U> const cv{ 1, 2, 3 }; U raw[3] = { 4, 5, 6 };
	daw::contiguous_view<U> a( v ); look( a, v.data( ), 3 );
	daw::contiguous_view<U const> b( cv ); look( b, cv.data( ), 3 );
	daw::contiguous_view<U> c( raw ); look( c, raw, 3 );
	size_t n = sym_pick( "n", 0, 3 );
	daw::contiguous_view<U> d( v, n ); look( d, v.data( ), n );
	daw::contiguous_view<U const> e( cv, n ); look( e, cv.data( ), n );
	daw::contiguous_view<U const> f = a; look( f, v.data( ), 3 );
	auto sp = static_cast<daw::span<U const>>( f ); CHECK( sp.data( ) == v.data( ) and sp.size( ) == 3 );
	size_t big = sym_u64( "big" ); sym_assume( big > 3 );
	sym_reach( "end" );
	sym_expect_terminate( true ); daw::contiguous_view<U> g( v, big ); CHECK( not "a view longer than its container" );
}

// writers: values land in order, the rest is untouched, running out of room terminates before anything is written out of bounds
template<typename F> void writer( size_t m, F f ) {
	size_t n = sym_pick( "n", 0, 4 );
	Arr<U> a( n, "a" ), b( n, "b" );
	for( size_t k = 0; k < n; ++k ) b[k] = a[k];
	bool fits = m <= n;
	if( not fits ) sym_expect_terminate( true );
	f( a, n );
	CHECK( fits );
	for( size_t k = m; k < n; ++k ) CHECK( a[k] == b[k] );
}
//@ bounds: destination of 0..4 elements, 0..3 values
ENTRY write_span( ) {
	uint16_t x = sym_u16( "x" ), y = sym_u16( "y" ), z = sym_u16( "z" );
	size_t m = sym_pick( "m", 0, 3 );
	uint16_t src[3] = { x, y, z };
	bool range = sym_bool( "range" );
	writer( m, [&]( Arr<U> &a, size_t n ) {
		std::span<U> o( a.p, n ), r;
		if( range ) r = daw::write_to_span( o, std::span<uint16_t const>( src, m ) );
		else if( m == 0 ) r = daw::write_to_span( o );
		else if( m == 1 ) r = daw::write_to_span( o, x );
		else if( m == 2 ) r = daw::write_to_span( o, x, y );
		else r = daw::write_to_span( o, x, y, z );
		CHECK( r.data( ) == a.p + m and r.size( ) == n - m );
		for( size_t k = 0; k < m; ++k ) CHECK( a[k] == src[k] );
	} );
	sym_reach( "end" );
}
//@ bounds: destination of 0..4 elements, 0..3 values
ENTRY write_writer( ) {
	uint16_t x = sym_u16( "x" ), y = sym_u16( "y" ), z = sym_u16( "z" );
	size_t m = sym_pick( "m", 0, 3 );
	uint16_t src[3] = { x, y, z };
	bool range = sym_bool( "range" );
	writer( m, [&]( Arr<U> &a, size_t n ) {
		std::span<U> o( a.p, n );
		daw::span_writer<U> w( o );
		CHECK( w.data( ) == a.p and w.size( ) == n and w.begin( ) == a.p and w.end( ) == a.p + n );
		if( range ) { auto &r = w.write( std::span<uint16_t const>( src, m ) ); CHECK( &r == &w ); }
		else if( m == 0 ) w.write( );
		else if( m == 1 ) w.write( x );
		else if( m == 2 ) w.write( x ).write( y );
		else w.write( x ).write( y, z );
		CHECK( w.data( ) == a.p + m and w.size( ) == n - m and std::as_const( w ).end( ) == a.p + n and std::as_const( w ).begin( ) == a.p + m and std::as_const( w ).data( ) == a.p + m );
		for( size_t k = 0; k < m; ++k ) CHECK( a[k] == src[k] );
	} );
	sym_reach( "end" );
}
//@ bounds: literals of 0..3 characters into 0..4 places
ENTRY write_literal( ) {
	size_t m = sym_pick( "m", 0, 3 );
	bool wr = sym_bool( "writer" );
	writer( m, [&]( Arr<U> &a, size_t n ) {
		std::span<U> o( a.p, n ), r;
		daw::span_writer<U> w( o );
		auto go = [&]( auto const &lit ) { if( wr ) { w.write_ntz( lit ); r = std::span<U>( w.data( ), w.size( ) ); } else r = daw::write_to_span_ntz( o, lit ); };
		if( m == 0 ) go( "" ); else if( m == 1 ) go( "a" ); else if( m == 2 ) go( "ab" ); else go( "abc" );
		CHECK( r.data( ) == a.p + m and r.size( ) == n - m );
		for( size_t k = 0; k < m; ++k ) CHECK( a[k] == static_cast<U>( "abc"[k] ) );
	} );
	sym_reach( "end" );
}
//@ bounds: all positions and counts, n <= 3
ENTRY writer_sub( ) {
	size_t n = sym_pick( "n", 0, 3 ), k = sym_u64( "k" );
	Arr<U> a( n, "a" );
	std::span<U> o( a.p, n );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	bool ok = op < 2 ? k <= n : op == 2 ? k < n : k <= n;
	if( not ok ) sym_expect_terminate( true );
	if( op == 0 ) { daw::span_writer<U> const w( o ); auto s = w.subspan( k ); CHECK( ok and s.data( ) == a.p + k and s.size( ) == n - k ); }
	else if( op == 1 ) { daw::span_writer<U> w( o ); w.remove_prefix( k ); CHECK( ok and w.data( ) == a.p + k and w.size( ) == n - k ); }
	else if( op == 2 ) { daw::span_writer<U> w( o ); CHECK( &w[k] == a.p + k and ok and &std::as_const( w )[k] == a.p + k ); }
	else { daw::span_writer<U> w( o, k ); CHECK( ok and w.data( ) == a.p and w.size( ) == k ); }
	daw::span_writer<U> e; CHECK( e.size( ) == 0 );
	sym_reach( "end" );
}
//@ q:BIG=33 t:BIG=65
//@ bounds: the same over BIG and BIG-1 elements
ENTRY big_span_const( ) { span_all<U const>( ); sym_reach( "end" ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_span_mutable( ) { span_all<U>( ); sym_reach( "end" ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_view_const( ) { view_all<U const>( ); sym_reach( "end" ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_view_mutable( ) { view_all<U>( ); sym_reach( "end" ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_view_order( ) { view_order( ); }
