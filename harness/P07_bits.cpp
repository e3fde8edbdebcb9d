//! variant: rt
//! variant: portable -DPORTABLE
#ifdef PORTABLE
// the branches for compilers without the bit reversal builtins
#include <daw/daw_cpp_feature_check.h>
#undef DAW_HAS_CLANG_VER_LT
#define DAW_HAS_CLANG_VER_LT( ... ) 1
#endif
#include "common.h"
#include <daw/daw_integer_reverse.h>
#include <daw/daw_bit.h>
#include <daw/daw_bitset.h>
#include <daw/daw_bitset_helper.h>
#include <daw/daw_bit_cast.h>
#include <daw/daw_bit_cast_util.h>
#include <daw/daw_endian.h>
#include <vector>
#include <list>
template<typename T> constexpr unsigned W = sizeof( T ) * 8;
template<typename T> T shl( T v, unsigned n ) { return n >= W<T> ? T{ 0 } : static_cast<T>( static_cast<uint64_t>( v ) << n ); }
template<typename T> T shr( T v, unsigned n ) { return n >= W<T> ? T{ 0 } : static_cast<T>( static_cast<uint64_t>( v ) >> n ); }
template<typename T> void masks( ) {
	size_t n = sym<size_t>( "n" );
	unsigned k = n >= W<T> ? W<T> : static_cast<unsigned>( n );
	CHECK( daw::mask_msb<T>( n ) == shr( static_cast<T>( ~T{ 0 } ), k ) );
	CHECK( daw::mask_lsb<T>( n ) == shl( static_cast<T>( ~T{ 0 } ), k ) );
	if( n < W<T> ) {
		CHECK( daw::get_left_mask<T>( n ) == shr( static_cast<T>( ~T{ 0 } ), k ) );
		CHECK( daw::get_right_mask<T>( n ) == shl( static_cast<T>( ~T{ 0 } ), k ) );
	}
	T x = sym<T>( "x" ), y = sym<T>( "y" ), z = sym<T>( "z" ), w = sym<T>( "w" );
	CHECK( daw::make_mask( x ) == x );
	CHECK( daw::make_mask( x, y, z ) == static_cast<T>( x | y | z ) );
	CHECK( daw::are_set( w, x ) == ( ( w & x ) != 0 ) );
	CHECK( daw::are_set( w, x, y, z ) == ( ( w & ( x | y | z ) ) != 0 ) );
	unsigned a = sym_range<uint32_t>( "a", 0, W<T> - 1 ), b = sym_range<uint32_t>( "b", 0, W<T> - 1 ), c = sym_range<uint32_t>( "c", 0, W<T> - 1 );
	T ma = shl( T{ 1 }, a ), mb = shl( T{ 1 }, b ), mc = shl( T{ 1 }, c );
	CHECK( daw::set_bits( x, a ) == static_cast<T>( x | ma ) );
	CHECK( daw::set_bits( x, a, b, c ) == static_cast<T>( x | ma | mb | mc ) );
	CHECK( daw::unset_bits( x, a ) == static_cast<T>( x & ~ma ) );
	CHECK( daw::unset_bits( x, a, b, c ) == static_cast<T>( x & ~( ma | mb | mc ) ) );
	CHECK( daw::get_bits( x, a ) == static_cast<T>( x & ma ) );
	CHECK( daw::get_bits( x, a, b, c ) == static_cast<T>( x & ( ma | mb | mc ) ) );
	CHECK( daw::bit_count_v<T> == W<T> );
}
//@ bounds: all values and bit positions, 8 to 64 bit unsigned types; mask widths over all 64 bit counts
ENTRY masks_narrow( ) { masks<uint8_t>( ); masks<uint16_t>( ); sym_reach( "m" ); }
//@
ENTRY masks_wide( ) { masks<uint32_t>( ); masks<uint64_t>( ); sym_reach( "m" ); }
template<typename T> void rev( ) {
	T x = sym<T>( "x" );
	T e = 0;
	for( unsigned i = 0; i < W<T>; ++i ) e = static_cast<T>( e | static_cast<T>( ( ( static_cast<uint64_t>( x ) >> i ) & 1 ) << ( W<T> - 1 - i ) ) );
	CHECK( daw::integers::reverse_bits( x ) == e );
	CHECK( daw::integers::reverse_bits( daw::integers::reverse_bits( x ) ) == x );
}
//@ bounds: all values of 8, 16, 32 and 64 bits, builtin and portable implementations
ENTRY reverse_bits( ) { rev<uint8_t>( ); rev<uint16_t>( ); rev<uint32_t>( ); rev<uint64_t>( ); sym_reach( "rev" ); }
template<typename T> void end( ) {
	T x = sym<T>( "x" );
	using U = std::make_unsigned_t<T>;
	U e = 0;
	for( unsigned i = 0; i < sizeof( T ); ++i ) e = static_cast<U>( e | static_cast<U>( ( ( static_cast<uint64_t>( static_cast<U>( x ) ) >> ( 8 * i ) ) & 0xFF ) << ( 8 * ( sizeof( T ) - 1 - i ) ) ) );
	T sw = static_cast<T>( e );
	bool le = daw::endian::native == daw::endian::little;
	CHECK( daw::to_little_endian( x ) == ( le ? x : sw ) );
	CHECK( daw::to_big_endian( x ) == ( le ? sw : x ) );
	CHECK( daw::network_to_host_endian( x ) == ( le ? sw : x ) );
	CHECK( daw::to_native_endian<daw::endian::little>( x ) == ( le ? x : sw ) );
	CHECK( daw::to_native_endian<daw::endian::big>( x ) == ( le ? sw : x ) );
	CHECK( daw::network_to_host_endian( daw::to_big_endian( x ) ) == x );
	unsigned char b[sizeof( T )];
	T big = daw::to_big_endian( x );
	std::memcpy( b, &big, sizeof( T ) );
	for( unsigned i = 0; i < sizeof( T ); ++i ) CHECK( b[i] == static_cast<unsigned char>( static_cast<uint64_t>( static_cast<U>( x ) ) >> ( 8 * ( sizeof( T ) - 1 - i ) ) ) );
}
//@ bounds: all values of all builtin integer types
ENTRY endianness( ) { end<uint8_t>( ); end<int8_t>( ); end<uint16_t>( ); end<int16_t>( ); end<uint32_t>( ); end<int32_t>( ); end<uint64_t>( ); end<int64_t>( ); sym_reach( "end" ); }

template<size_t N> void bs( unsigned steps ) {
	daw::bitset<N> s{ };
	CHECK( s.size( ) == N );
	uint32_t j = sym_range<uint32_t>( "j", 0, N - 1 );
	uint32_t e = 0; // expected state of bit j
	for( unsigned k = 0; k < steps; ++k ) {
		uint32_t i = sym_range<uint32_t>( "i", 0, N - 1 );
		unsigned op = sym_range<uint8_t>( "op", 0, 2 );
		uint32_t v = sym_bool( "v" );
		if( op == 0 ) { s.set( i ); v = 1; }
		else if( op == 1 ) { s.unset( i ); v = 0; }
		else s.set( i, v );
		e = sel<uint32_t>( i == j, v, e );
	}
	CHECK( s.test( j ) == ( e != 0 ) );
}
//@ q:S=4 t:S=4
//@ bounds: S operations (set, unset, assign) at any index of bit sets of 3, 32, 40 and 65 bits, any index read back
ENTRY small_bitset( ) { unsigned s = sym_param( "S", 2 ); bs<3>( s ); sym_reach( "bs" ); }
//@ q:S=3 t:S=4
ENTRY bitset_32( ) { bs<32>( sym_param( "S", 2 ) ); sym_reach( "bs" ); }
//@ q:S=3 t:S=3
ENTRY bitset_40( ) { bs<40>( sym_param( "S", 2 ) ); sym_reach( "bs" ); }
//@ q:S=2 t:S=3
ENTRY bitset_65( ) { bs<65>( sym_param( "S", 2 ) ); sym_reach( "bs" ); }

enum class Pos : int16_t {};
//@ q:L=4 t:L=4
//@ bounds: up to 4 positions in 0..N-1, given as arguments, list, array or container of integers or enumerators
ENTRY bitset_from_positions( ) {
	constexpr size_t N = 70;
	size_t n = sym_pick( "n", 0, sym_param( "L", 3 ) );
	std::vector<int> p( n );
	uint32_t hits = 0;
	unsigned q = sym_range<uint32_t>( "q", 0, N - 1 );
	bool e = false;
	for( auto &x : p ) { x = static_cast<int>( sym_range<uint32_t>( "p", 0, N - 1 ) ); e = e | ( static_cast<unsigned>( x ) == q ); }
	std::vector<int> const &cp = p;
	CHECK( daw::create_bitset_from_set_positions<N>( cp ).test( q ) == e );
	if( n == 2 ) {
		auto a = daw::create_bitset_from_set_positions<N>( p[0], p[1] );
		CHECK( a.test( q ) == e );
		auto b = daw::create_bitset_from_set_positions<N>( { static_cast<unsigned char>( p[0] ), static_cast<unsigned char>( p[1] ) } );
		CHECK( b.test( q ) == e );
		auto c = daw::create_bitset_from_set_positions<N>( static_cast<Pos>( p[0] ), static_cast<Pos>( p[1] ) );
		CHECK( c.test( q ) == e );
	}
	sym_reach( "bfp" );
}
struct Pod { uint16_t a; uint8_t b, c; };
//@ q:L=5 t:L=5
//@ bounds: any bytes; runs of up to 5 elements
ENTRY bit_casts( ) {
	float f = sym_f32( "f" );
	uint32_t u = 0; std::memcpy( &u, &f, 4 );
	CHECK( daw::bit_cast<uint32_t>( f ) == u );
	uint32_t v = daw::bit_cast<uint32_t>( daw::bit_cast<Pod>( u ) );
	CHECK( v == u );
	CHECK( DAW_BIT_CAST( uint32_t, f ) == u );
	size_t n = sym_pick( "n", 0, sym_param( "L", 3 ) );
	Arr<uint32_t> s( n, "src" );
	Arr<float> d( n, "dst" ), d2( n, "dst2" );
	Arr<uint32_t> d3( n, "d3" );
	size_t i = 0;
	daw::bit_cast_for_each<float>( s.begin( ), s.end( ), [&]( float x ) { uint32_t y; std::memcpy( &y, &x, 4 ); CHECK( y == s[i] ); ++i; } );
	CHECK( i == n );
	daw::bit_cast_copy( s.begin( ), s.end( ), d.begin( ) );
	daw::bit_cast_transform<Pod>( s.begin( ), s.end( ), d3.begin( ), []( Pod p ) { p.a = static_cast<uint16_t>( p.a + 1 ); return p; } );
	for( size_t k = 0; k < n; ++k ) {
		CHECK( std::memcmp( &d[k], &s[k], 4 ) == 0 );
		CHECK( d3[k] == ( ( s[k] & 0xFFFF0000u ) | ( ( s[k] + 1 ) & 0xFFFFu ) ) );
	}
	sym_reach( "bc" );
}
