#include "common.h"
#include <daw/daw_ring_adaptor.h>
#include <array>
#include <vector>
using U = uint32_t;
template<typename R> void rsame( R &r, U const *m, size_t n, size_t cap ) {
	R const &c = r;
	CHECK( r.size( ) == n and r.is_empty( ) == ( n == 0 ) and r.is_full( ) == ( n == cap ) and r.capacity( ) == cap );
	bool ok = true;
	for( size_t k = 0; k < n; ++k ) ok &= ( r[k] == m[k] ) & ( c[k] == m[k] );
	size_t k = 0;
	for( auto const &e : r ) { ok &= e == m[k]; ++k; }
	CHECK( ok and k == n ); k = 0;
	for( auto const &e : c ) { ok &= e == m[k]; ++k; }
	CHECK( ok and k == n );
}
template<typename C, size_t Cap, typename... A> void ring_( A... a ) {
	daw::ring_adaptor<C> r( a... );
	U m[40]{ };
	size_t n = 0;
	rsame( r, m, 0, Cap );
	// any fill and rotation
	size_t rot = pick_pos( "rotation", 0, 2 * Cap - 1 ), pre = pick_pos( "pre", 0, Cap );
	for( size_t k = 0; k < rot; ++k ) { r.push_back( 77 ); (void)r.pop_front( ); }
	for( size_t k = 0; k < pre; ++k ) { m[n] = sym_u32( "x" ); r.push_back( m[n] ); ++n; }
	rsame( r, m, n, Cap );
	for( size_t s = sym_param( "S", 2 ); s > 0; --s ) {
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
		U x = sym_u32( "x" );
		if( op == 0 ) { if( n < Cap ) { auto &e = r.push_back( static_cast<U const &>( x ) ); CHECK( &e == &r[n] and e == x ); m[n++] = x; } }
		else if( op == 1 ) { if( n < Cap ) { auto &e = r.push_back( U( x ) ); CHECK( &e == &r[n] and e == x ); m[n++] = x; } }
		else if( op == 2 ) { if( n < Cap ) { auto &e = r.emplace_back( x ); CHECK( e == x ); m[n++] = x; } }
		else if( op == 3 ) { if( n ) { CHECK( r.pop_front( ) == m[0] ); for( size_t k = 1; k < n; ++k ) m[k - 1] = m[k]; --n; } }
		else if( op == 4 ) { r.clear( ); n = 0; }
		else { if( n ) { size_t i = pick_pos( "i", 0, n - 1 ); r[i] = x; m[i] = x; } }
		rsame( r, m, n, Cap );
	}
}
//@ q:S=5 t:S=5
//@ bounds: capacity 3, every rotation and fill, then S operations; all values
ENTRY ring_array3( ) { ring_<U[3], 3>( ); sym_reach( "end" ); }
//@ q:S=4 t:S=5
ENTRY ring_stdarray4( ) { ring_<std::array<U, 4>, 4>( ); sym_reach( "end" ); }
//@ q:S=4 t:S=4
ENTRY ring_vector2( ) { ring_<std::vector<U>, 2>( size_t{ 2 } ); sym_reach( "end" ); }
//@ q:S=2 t:S=3
//@ bounds: capacity 33, the ends and the middle of the rotations and fills, then S operations
ENTRY ring_array33( ) { ring_<U[33], 33>( ); sym_reach( "end" ); }
//@ q:S=2 t:S=3
ENTRY ring_vector17( ) { ring_<std::vector<U>, 17>( size_t{ 17 } ); sym_reach( "end" ); }
// iterators by index
template<typename I, typename C> void idx_( C &c, size_t n ) {
	auto b = daw::ibegin( c ), e = daw::iend( c );
	CHECK( e - b == static_cast<ptrdiff_t>( n ) and ( b == e ) == ( n == 0 ) and ( b != e ) == ( n != 0 ) );
	size_t i = pick_pos( "i", 0, n ), j = pick_pos( "j", 0, n );
	auto di = static_cast<ptrdiff_t>( i ), dj = static_cast<ptrdiff_t>( j );
	auto x = b; x += di; auto y = b; y += dj;
	CHECK( b + di == x and e - static_cast<ptrdiff_t>( n - i ) == x and b.next( di ) == x and e.prev( static_cast<ptrdiff_t>( n - i ) ) == x );
	{ auto t = b; t.advance( di ); CHECK( t == x ); }
	CHECK( x - y == di - dj );
	CHECK( ( x == y ) == ( i == j ) and ( x != y ) == ( i != j ) and ( x < y ) == ( i < j ) and ( x > y ) == ( i > j ) and ( x <= y ) == ( i <= j ) and ( x >= y ) == ( i >= j ) and ( x.compare( y ) < 0 ) == ( i < j ) and ( x.compare( y ) > 0 ) == ( i > j ) );
	if( i < n ) { CHECK( &*x == &c[i] and x.operator->( ) == &c[i] ); auto t = x; auto o = t++; CHECK( o == x and t - x == 1 ); o = t--; CHECK( t == x and o - x == 1 ); ++t; --t; CHECK( t == x ); auto const k = x; CHECK( &*k == &c[i] ); }
	{ auto t = e; t -= static_cast<ptrdiff_t>( n - j ); CHECK( t == y ); }
}
//@ bounds: containers of n <= 3 elements, all index pairs
ENTRY indexed( ) {
	size_t n = sym_pick( "n", 0, 3 );
	std::vector<U> v( n );
	idx_<daw::indexed_iterator<std::vector<U>>>( v, n );
	auto cb = daw::cibegin( v ); auto ce = daw::ciend( v ); CHECK( ce - cb == static_cast<ptrdiff_t>( n ) );
	if( n ) CHECK( &*cb == &v[0] );
	sym_reach( "end" );
}
