#include "common.h"
#include "stdrt.h"
#include <vector>
#include <daw/daw_iter_view.h>

using B = uint8_t;
template<typename V, typename At>
static void state( V const &v, At at, B const *x, size_t f, size_t l ) {
	CHECK( v.size( ) == l - f and v.empty( ) == ( f == l ) and at( v.begin( ) ) == f and at( v.end( ) ) == l and at( v.cbegin( ) ) == f and at( v.cend( ) ) == l );
	size_t k = f;
	for( auto const &e : v ) { CHECK( k < l and e == x[k] ); ++k; }
	CHECK( k == l );
	if( f != l ) CHECK( v.front( ) == x[f] and v[l - f - 1] == x[l - 1] );
}
template<typename V, typename At>
static void ops( V v, At at, B const *x, size_t n, unsigned op ) {
	state( v, at, x, 0, n );
	B t = sym_u8( "t" );
	size_t c = sym_pick( "c", 0, n + 1 );
	size_t u = 0; while( u < n and x[u] != t ) ++u; // first equal
	size_t w = 0; while( w < n and x[w] == t ) ++w; // first different
	size_t const u1 = u < n ? u + 1 : n, w1 = w < n ? w + 1 : n;
	V const &cv = v;
	switch( op ) {
	case 0: { size_t d = sym_pick( "d", 0, n + 2 ); if( d == n + 2 ) d = NPOS; size_t f = c < n ? c : n, s = d < n - f ? d : n - f; state( v.subspan( c, d ), at, x, f, f + s ); state( v.subspan( c ), at, x, f, n ); } break;
	case 1: v.remove_prefix( c ); state( v, at, x, c < n ? c : n, n ); break;
	case 2: sym_assume( c <= n ); v.remove_prefix( c, daw::dont_clip_to_bounds ); state( v, at, x, c, n ); break;
	case 3: sym_assume( n > 0 ); if( c == 0 ) { v.remove_prefix( ); } else { CHECK( v.pop_front( ) == x[0] ); } state( v, at, x, 1, n ); break;
	case 4: CHECK( at( v.find( t ) ) == u and at( cv.find( t ) ) == u and at( v.find_first_not_of( t ) ) == w and at( cv.find_first_not_of( t ) ) == w ); break;
	case 5: { auto &r = v.remove_prefix_until( t ); CHECK( &r == &v ); state( v, at, x, u, n ); } break;
	case 6: v.remove_prefix_until( t, daw::discard ); state( v, at, x, u1, n ); break;
	case 7: v.remove_prefix_while( t ); state( v, at, x, w, n ); break;
	case 8: v.remove_prefix_while( t, daw::discard ); state( v, at, x, w1, n ); break;
	case 9: { auto r = v.pop_front_until( t ); state( r, at, x, 0, u ); state( v, at, x, u, n ); } break;
	case 10: { auto r = v.pop_front_until( t, daw::discard ); state( r, at, x, 0, u ); state( v, at, x, u1, n ); } break;
	case 11: { auto r = v.pop_front_while( t ); state( r, at, x, 0, w ); state( v, at, x, w, n ); } break;
	case 12: { auto r = v.pop_front_while( t, daw::discard ); state( r, at, x, 0, w ); state( v, at, x, w1, n ); } break;
	case 13: { size_t f = c < n ? c : n; v.remove_prefix( f ); if( f > 0 ) { v.add_prefix( ); state( v, at, x, f - 1, n ); v.add_prefix( f - 1 ); state( v, at, x, 0, n ); } } break;
	default: { size_t k = n; for( auto it = v.rbegin( ); it != v.rend( ); ++it ) { CHECK( k > 0 and *it == x[k - 1] ); --k; } CHECK( k == 0 ); k = n; for( auto it = cv.rbegin( ); it != cv.rend( ); ++it ) { CHECK( *it == x[k - 1] ); --k; } CHECK( k == 0 ); k = n; for( auto it = cv.crbegin( ); it != cv.crend( ); ++it ) { CHECK( *it == x[k - 1] ); --k; } CHECK( k == 0 ); } break;
	}
	sym_reach( "end" );
}
//@ q:n=5 t:n=5
//@ bounds: arrays of up to n bytes, every operation
ENTRY view_ops( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 3 ) ); Arr<B> x( n, "x" );
	auto at = [&]( B *p ) { return static_cast<size_t>( p - x.p ); };
	ops( daw::iter_view( x.begin( ), x.end( ) ), at, x.p, n, static_cast<unsigned>( sym_pick( "op", 0, 14 ) ) );
}
//@ q:n=3 t:n=3
//@ bounds: lists of up to n bytes, every operation
ENTRY view_list( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 2 ) ); Arr<B> x( n, "x" );
	std::list<B> l; for( size_t k = 0; k < n; ++k ) l.push_back( x[k] );
	auto at = [&]( std::list<B>::iterator p ) { size_t k = 0; for( auto i = l.begin( ); i != p; ++i ) ++k; return k; };
	ops( daw::iter_view( l ), at, x.p, n, static_cast<unsigned>( sym_pick( "op", 0, 14 ) ) );
}
//@ bounds: pairs of arrays of up to 3 bytes
ENTRY view_compare( ) {
	size_t n = sym_pick( "n", 0, 3 ), m = sym_pick( "m", 0, 3 ); Arr<B> x( n, "x" ), y( m, "y" );
	daw::iter_view a( x.begin( ), x.end( ) ); daw::iter_view b( y.begin( ), y.end( ) );
	int c = 0; for( size_t k = 0; k < n and k < m and c == 0; ++k ) c = ( x[k] > y[k] ) - ( x[k] < y[k] );
	if( c == 0 ) c = ( n > m ) - ( n < m );
	CHECK( ( a == b ) == ( c == 0 ) and ( a != b ) == ( c != 0 ) and ( a < b ) == ( c < 0 ) and ( a > b ) == ( c > 0 ) and ( a <= b ) == ( c <= 0 ) and ( a >= b ) == ( c >= 0 ) );
	sym_reach( "end" );
}
//@ bounds: every way of making a view over up to 4 bytes
ENTRY view_make( ) {
	size_t n = sym_pick( "n", 0, 4 ); Arr<B> x( n, "x" );
	auto at = [&]( B *p ) { return static_cast<size_t>( p - x.p ); };
	size_t m = sym_pick( "m", 0, n );
	state( daw::iter_view<B *>( x.begin( ), m ), at, x.p, 0, m );
	daw::iter_view<B *> e{ }; CHECK( e.empty( ) and e.size( ) == 0 );
	std::vector<B> v( x.begin( ), x.end( ) ); daw::iter_view a( v ); CHECK( a.size( ) == n and a.begin( ) == v.begin( ) and a.end( ) == v.end( ) );
	B y[3] = { 1, 2, 3 }; daw::iter_view b( y ); CHECK( b.size( ) == 3 and b.begin( ) == y and b[2] == 3 ); b[2] = 7; b.front( ) = 8; CHECK( y[2] == 7 and y[0] == 8 );
	sym_reach( "end" );
}
//@ bounds: views of up to 2 bytes: access outside is refused
ENTRY view_refuse( ) {
	size_t n = sym_pick( "n", 0, 2 ); Arr<B> x( n, "x" );
	daw::iter_view v( x.begin( ), x.end( ) ); auto const &cv = v;
	size_t i = sym_pick( "i", 0, 3 ); sym_assume( i >= n );
	sym_expect_terminate( true );
	switch( sym_pick( "op", 0, 6 ) ) {
	case 0: (void)v[i]; break;
	case 1: (void)cv[i]; break;
	case 2: v.remove_prefix( i + 1, daw::dont_clip_to_bounds ); break;
	case 3: sym_assume( n == 0 ); v.remove_prefix( ); break;
	case 4: sym_assume( n == 0 ); (void)v.front( ); break;
	case 5: sym_assume( n == 0 ); (void)cv.front( ); break;
	default: sym_assume( n == 0 ); (void)v.pop_front( ); break;
	}
	CHECK( false );
}
