#include "common.h"
#include <daw/daw_bounded_vector.h>
#include <daw/daw_bounded_array.h>
template<typename V> void same( V &v, uint32_t const *m, size_t n, size_t cap ) {
	V const &c = v;
	CHECK( v.size( ) == n and v.empty( ) == ( n == 0 ) and v.full( ) == ( n == cap ) and v.capacity( ) == cap and v.available( ) == cap - n );
	bool ok = true;
	for( size_t k = 0; k < n; ++k ) ok &= ( v[k] == m[k] ) & ( c[k] == m[k] ) & ( v.at( k ) == m[k] ) & ( c.at( k ) == m[k] ) & ( v.data( )[k] == m[k] ) & ( c.data( )[k] == m[k] );
	CHECK( ok );
	if( n ) { CHECK( v.front( ) == m[0] and c.front( ) == m[0] and v.back( ) == m[n - 1] and c.back( ) == m[n - 1] ); }
	size_t k = 0;
	{
		CHECK( v.end( ) - v.begin( ) == static_cast<ptrdiff_t>( n ) and c.end( ) - c.begin( ) == static_cast<ptrdiff_t>( n ) and c.cend( ) - c.cbegin( ) == static_cast<ptrdiff_t>( n ) );
		for( auto const &e : c ) { ok &= e == m[k]; ++k; }
		for( auto it = v.rbegin( ); it != v.rend( ); ++it ) { --k; ok &= *it == m[k]; }
		for( auto it = c.crbegin( ); it != c.crend( ); ++it ) { ++k; ok &= *it == m[n - k]; }
		CHECK( ok and k == n and c.rbegin( ) == c.crbegin( ) and c.rend( ) == c.crend( ) and v.begin( ) == v.data( ) );
	}
}
template<size_t C> void seq( ) {
	using V = daw::bounded_vector_t<uint32_t, C>;
	uint32_t m[C + 4]{ };
	size_t n = 0;
	V v;
	size_t pre = pick_pos( "pre", 0, C ), popped = pick_pos( "popped", 0, pre );
	for( size_t k = 0; k < pre; ++k ) { m[n] = sym_u32( "x" ); v.push_back( m[n] ); ++n; }
	if( popped ) { v.pop_front( popped ); for( size_t k = popped; k < n; ++k ) m[k - popped] = m[k]; n -= popped; }
	same( v, m, n, C );
	for( size_t s = sym_param( "S", 1 ); s > 0; --s ) {
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 15 ) );
		uint32_t x = sym_u32( "x" ), y = sym_u32( "y" );
		auto ins = [&]( uint32_t e ) { m[n++] = e; };
		auto del = [&]( size_t a, size_t b ) { for( size_t k = b; k < n; ++k ) m[k - ( b - a )] = m[k]; n -= b - a; };
		if( op == 0 ) { if( n < C ) { v.push_back( static_cast<uint32_t const &>( x ) ); ins( x ); } }
		else if( op == 1 ) { if( n < C ) { v.push_back( uint32_t( x ) ); ins( x ); } }
		else if( op == 2 ) { if( n < C ) { size_t p = v.push_back( ); v.back( ) = x; ins( x ); (void)p; } }
		else if( op == 3 ) { if( n + 2 <= C ) { uint32_t a[2] = { x, y }; v.push_back( a, 2 ); ins( x ); ins( y ); } }
		else if( op == 4 ) { if( n + 2 <= C ) { uint8_t a[2] = { static_cast<uint8_t>( x ), static_cast<uint8_t>( y ) }; v.push_back( a, 2 ); ins( a[0] ); ins( a[1] ); } }
		else if( op == 5 ) { if( n < C ) { v.emplace_back( x ); ins( x ); } }
		else if( op == 6 ) { if( n ) { CHECK( v.pop_back( ) == m[n - 1] ); --n; } }
		else if( op == 7 ) { if( n ) { uint32_t e = m[0]; CHECK( v.pop_front( ) == e ); del( 0, 1 ); } else CHECK( throws_as<std::out_of_range>( [&] { (void)v.pop_front( 1 ); } ) ); }
		else if( op == 8 ) { size_t c = sym_u64( "count" ); if( c <= n ) { c = sym_concrete( c ); v.pop_front( c ); del( 0, c ); } else CHECK( throws_as<std::out_of_range>( [&] { v.pop_front( c ); } ) ); }
		else if( op == 9 ) { size_t c = sym_u64( "count" ); if( c <= C ) { c = sym_concrete( c ); v.resize( c ); while( n < c ) ins( 0 ); n = c; } else CHECK( throws_as<std::out_of_range>( [&] { v.resize( c ); } ) ); }
		else if( op == 10 ) { if( n ) { size_t i = pick_pos( "i", 0, n - 1 ); auto r = v.erase( v.cbegin( ) + static_cast<ptrdiff_t>( i ) ); del( i, i + 1 ); CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( i ) ); } }
		else if( op == 11 ) { { size_t i = pick_pos( "i", 0, n ), j = pick_pos( "j", i, n ); auto r = v.erase( v.cbegin( ) + static_cast<ptrdiff_t>( i ), v.cbegin( ) + static_cast<ptrdiff_t>( j ) ); del( i, j ); CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( i ) ); } }
		else if( op == 12 ) { v.clear( ); n = 0; }
		else if( op == 13 ) { size_t c = pick_pos( "c", 0, C ); v.assign( c, x ); n = 0; for( size_t k = 0; k < c; ++k ) ins( x ); }
		else if( op == 14 ) { v.zero( ); for( size_t k = 0; k < n; ++k ) m[k] = 0; }
		else { size_t c = sym_u64( "c" ); CHECK( v.has_room( c ) == ( c <= C - n ) ); V w( v ); same( w, m, n, C ); V z; z = w; same( z, m, n, C ); }
		same( v, m, n, C );
	}
	size_t i = sym_u64( "i" );
	if( i >= n ) { sym_expect_terminate( true ); (void)v.at( i ); CHECK( not "at() past the end returns" ); }
}
//@ q:S=3 t:S=4
//@ bounds: capacity 3, any number of elements pushed and popped first, then S operations of any kind (within capacity); all values, counts and positions
ENTRY seq3( ) { seq<3>( ); sym_reach( "end" ); }
//@ q:S=2 t:S=3
ENTRY seq5( ) { seq<5>( ); sym_reach( "end" ); }
//@ q:S=1 t:S=2
//@ bounds: capacity 33: empty, one, half, nearly and quite full, the same popped, then S operations
ENTRY seq33( ) { seq<33>( ); sym_reach( "end" ); }
//@ bounds: vectors of capacity 3 filled to any size with any number popped off the front
ENTRY swapping( ) {
	using V = daw::bounded_vector_t<uint32_t, 3>;
	V a, b; uint32_t ma[3]{ }, mb[3]{ };
	size_t na = sym_pick( "na", 0, 3 ), nb = sym_pick( "nb", 0, 3 ), pa = sym_pick( "pa", 0, na );
	for( size_t k = 0; k < na; ++k ) { uint32_t x = sym_u32( "x" ); a.push_back( x ); if( k >= pa ) ma[k - pa] = x; }
	for( size_t k = 0; k < nb; ++k ) { mb[k] = sym_u32( "y" ); b.push_back( mb[k] ); }
	a.pop_front( pa );
	a.swap( b );
	same( a, mb, nb, 3 ); same( b, ma, na - pa, 3 );
	sym_reach( "end" );
}
//@ bounds: construction from any count (clipped to the capacity of 3) or from a range
ENTRY construct( ) {
	Arr<uint32_t> a( 5, "a" );
	size_t n = sym_pick( "n", 0, 5 );
	daw::bounded_vector_t<uint32_t, 3> v( a.begin( ), n ); same( v, a.p, n < 3 ? n : 3, 3 );
	if( n <= 3 ) { daw::bounded_vector_t<uint32_t, 3> w( a.begin( ), a.begin( ) + n ); same( w, a.p, n, 3 ); }
	using Z = daw::bounded_vector_t<uint32_t, 0>;
	CHECK( Z::empty( ) and Z::full( ) and Z::size( ) == 0 and Z::capacity( ) == 0 and not Z::has_room( 1 ) and Z::available( ) == 0 and Z::begin( ) == Z::end( ) and Z::data( ) == nullptr );
	sym_reach( "end" );
}
//@ bounds: arrays of 4 elements, all values
ENTRY array4( ) {
	daw::array<uint32_t, 4> a{ sym_u32( "a" ), sym_u32( "b" ), sym_u32( "c" ), sym_u32( "d" ) }, b{ sym_u32( "e" ), sym_u32( "f" ), sym_u32( "g" ), sym_u32( "h" ) };
	auto const &c = a;
	CHECK( a.size( ) == 4 and not a.empty( ) and &a.front( ) == &a[0] and &c.front( ) == &a[0] and &a.back( ) == &a[3] and &c.back( ) == &a[3] and a.data( ) == &a[0] and c.data( ) == &a[0] and a.end( ) - a.begin( ) == 4 and c.end( ) - c.begin( ) == 4 and c.cend( ) - c.cbegin( ) == 4 );
	bool eq = true; for( size_t k = 0; k < 4; ++k ) eq &= a[k] == b[k];
	CHECK( ( a == b ) == eq and ( a != b ) == not eq );
	size_t i = sym_range<uint8_t>( "i", 0, 3 );
	CHECK( &a[i] == a.m_data + i and &c[i] == a.m_data + i );
	uint32_t x = sym_u32( "x" ); a.fill( x ); for( size_t k = 0; k < 4; ++k ) CHECK( a[k] == x );
	sym_reach( "end" );
}
