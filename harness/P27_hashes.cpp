#include "common.h"
#include <daw/daw_fnv1a_hash.h>
#include <daw/daw_generic_hash.h>
#include <daw/daw_metro_hash.h>
#include <daw/daw_sip_hash.h>
#include <string_view>

using u8 = unsigned char;
using u64 = uint64_t;
// reference definitions, byte by byte
static u64 fnv( u64 h, void const *p, size_t n ) {
	for( size_t i = 0; i < n; ++i ) { h ^= static_cast<u8 const *>( p )[i]; h *= 0x100000001b3ull; }
	return h;
}
static constexpr u64 OFF = 0xcbf29ce484222325ull;
static uint32_t fnv32( void const *p, size_t n ) {
	uint32_t h = 0x811c9dc5u;
	for( size_t i = 0; i < n; ++i ) { h ^= static_cast<u8 const *>( p )[i]; h *= 0x01000193u; }
	return h;
}
//@ bounds: up to 4 bytes (thorough 8), all contents
//@ q:len=8 t:len=8
ENTRY fnv_text( ) {
	size_t n = sym_pick( "n", 0, static_cast<unsigned>( sym_param( "len", 3 ) ) );
	Arr<char> b( n + 1, "b" );
	b[n] = 0;
	u64 want = fnv( OFF, b.p, n );
	CHECK( daw::fnv1a_hash( b.p, n ) == want );
	CHECK( daw::fnv1a_hash( std::string_view( b.p, n ) ) == want and daw::fnv1a_hash_t{ }( std::string_view( b.p, n ) ) == want );
	CHECK( daw::fnv1a_hash( daw::string_view( b.p, n ) ) == want and daw::fnv1a_hash_t{ }( daw::string_view( b.p, n ) ) == want );
	CHECK( daw::fnv1a_hash_t{ }( b.p, b.p + n ) == want );
	for( size_t i = 0; i < n; ++i ) sym_assume( b[i] != 0 );
	char const *z = b.p;
	CHECK( daw::fnv1a_hash( z ) == want and daw::fnv1a_hash_t{ }( z ) == want );
	sym_reach( "end" );
}
template<typename T>
static void ints( T v, T w ) {
	u64 want = fnv( OFF, &v, sizeof( v ) );
	CHECK( daw::fnv1a_hash( v ) == want and daw::fnv1a_hash_t{ }( v ) == want );
	u64 seed = sym_u64( "seed" );
	CHECK( daw::fnv1a_hash_t::append_hash( seed, v ) == fnv( seed, &v, sizeof( v ) ) );
	T a[2] = { v, w };
	u64 two = fnv( OFF, a, sizeof( a ) );
	CHECK( daw::fnv1a_hash_t{ }( a, a + 2 ) == two and daw::fnv1a_hash_t{ }( a ) == two and daw::fnv1a_hash( a, 2 ) == two );
	T const *p = &v;
	if constexpr( sizeof( T ) > 1 ) CHECK( daw::fnv1a_hash_t{ }( p ) == want );
	CHECK( daw::generic_hash( v ) == want and daw::generic_hash<8>( v ) == want and daw::generic_hash<8>( a, a + 2 ) == two and daw::generic_hash<8>( a, size_t{ 2 } ) == two and daw::generic_hash_t<8>{ }( a ) == two and daw::generic_hash_t<8>{ }( p ) == want );
	CHECK( daw::generic_hash<4>( v ) == fnv32( &v, sizeof( v ) ) and daw::generic_hash<4>( a, a + 2 ) == fnv32( a, sizeof( a ) ) and daw::generic_hash_t<4>{ }( a ) == fnv32( a, sizeof( a ) ) and daw::generic_hash_t<4>{ }( a, a + 2 ) == fnv32( a, sizeof( a ) ) );
	CHECK( daw::generic_hash_t<8>::append_hash( seed, v ) == fnv( seed, &v, sizeof( v ) ) );
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY int_u8( ) { ints( sym_u8( "v" ), sym_u8( "w" ) ); }
//@ bounds: all values
ENTRY int_i16( ) { ints( static_cast<int16_t>( sym_u16( "v" ) ), static_cast<int16_t>( sym_u16( "w" ) ) ); }
//@ bounds: all values
ENTRY int_i32( ) { ints( static_cast<int32_t>( sym_u32( "v" ) ), static_cast<int32_t>( sym_u32( "w" ) ) ); }
//@ bounds: all values
ENTRY int_u64( ) { ints( sym_u64( "v" ), sym_u64( "w" ) ); }
//@ bounds: all values
ENTRY int_i8( ) { ints( static_cast<signed char>( sym_u8( "v" ) ), static_cast<signed char>( sym_u8( "w" ) ) ); }
//@ bounds: up to 4 bytes, all contents
ENTRY generic_text( ) {
	size_t n = sym_pick( "n", 0, 4 );
	Arr<char> b( n, "b" );
	CHECK( daw::generic_hash<8>( b.p, n ) == fnv( OFF, b.p, n ) and daw::generic_hash<4>( b.p, n ) == fnv32( b.p, n ) );
	std::string_view const sv( b.p, n );
	CHECK( daw::generic_hash<8>( std::move( sv ) ) == fnv( OFF, b.p, n ) );
	CHECK( daw::generic_hash<4>( b.p, b.p + n ) == fnv32( b.p, n ) );
	sym_reach( "end" );
}
static u64 rd( u8 const *p, unsigned n ) {
	switch( n ) { // little endian host
	case 8: { u64 r; __builtin_memcpy( &r, p, 8 ); return r; }
	case 4: { uint32_t r; __builtin_memcpy( &r, p, 4 ); return r; }
	case 2: { uint16_t r; __builtin_memcpy( &r, p, 2 ); return r; }
	default: return *p;
	}
}
static u64 ror( u64 v, unsigned k ) { return ( v >> k ) | ( v << ( 64 - k ) ); }
static u64 rol( u64 v, unsigned k ) { return ( v << k ) | ( v >> ( 64 - k ) ); }
// MetroHash64 as published
static u64 metro( u8 const *p, size_t len, u64 seed ) {
	u64 const k0 = 0xD6D018F5, k1 = 0xA2AA033B, k2 = 0x62992FC1, k3 = 0x30BC5B29;
	u64 h = ( seed + k2 ) * k0;
	u8 const *end = p + len;
	if( len >= 32 ) {
		u64 v0 = h, v1 = h, v2 = h, v3 = h;
		do {
			v0 += rd( p, 8 ) * k0; p += 8; v0 = ror( v0, 29 ) + v2;
			v1 += rd( p, 8 ) * k1; p += 8; v1 = ror( v1, 29 ) + v3;
			v2 += rd( p, 8 ) * k2; p += 8; v2 = ror( v2, 29 ) + v0;
			v3 += rd( p, 8 ) * k3; p += 8; v3 = ror( v3, 29 ) + v1;
		} while( end - p >= 32 );
		v2 ^= ror( ( ( v0 + v3 ) * k0 ) + v1, 37 ) * k1;
		v3 ^= ror( ( ( v1 + v2 ) * k1 ) + v0, 37 ) * k0;
		v0 ^= ror( ( ( v0 + v2 ) * k0 ) + v3, 37 ) * k1;
		v1 ^= ror( ( ( v1 + v3 ) * k1 ) + v2, 37 ) * k0;
		h += v0 ^ v1;
	}
	if( end - p >= 16 ) {
		u64 v0 = h + rd( p, 8 ) * k2; p += 8; v0 = ror( v0, 29 ) * k3;
		u64 v1 = h + rd( p, 8 ) * k2; p += 8; v1 = ror( v1, 29 ) * k3;
		v0 ^= ror( v0 * k0, 21 ) + v1;
		v1 ^= ror( v1 * k3, 21 ) + v0;
		h += v1;
	}
	if( end - p >= 8 ) { h += rd( p, 8 ) * k3; p += 8; h ^= ror( h, 55 ) * k1; }
	if( end - p >= 4 ) { h += rd( p, 4 ) * k3; p += 4; h ^= ror( h, 26 ) * k1; }
	if( end - p >= 2 ) { h += rd( p, 2 ) * k3; p += 2; h ^= ror( h, 48 ) * k1; }
	if( end - p >= 1 ) { h += rd( p, 1 ) * k3; h ^= ror( h, 37 ) * k1; }
	h ^= ror( h, 28 ); h *= k0; h ^= ror( h, 29 );
	return h;
}
//@ bounds: every length up to 100 bytes, all contents and seeds
//@ q:len=100,time=150 t:len=100,time=800
ENTRY metro_hash( ) {
	size_t n = sym_pick( "n", 0, static_cast<unsigned>( sym_param( "len", 40 ) ) );
	Arr<char> b( n, "b" );
	u64 seed = sym_u64( "seed" );
	CHECK( daw::metro::hash64( daw::string_view( b.p, n ), seed ) == metro( reinterpret_cast<u8 *>( b.p ), n, seed ) );
	sym_reach( "end" );
}
static u64 sip( u8 const *p, size_t len, u8 const *key ) {
	u64 k0 = rd( key, 8 ), k1 = rd( key + 8, 8 );
	u64 v0 = 0x736f6d6570736575ull ^ k0, v1 = 0x646f72616e646f6dull ^ k1, v2 = 0x6c7967656e657261ull ^ k0, v3 = 0x7465646279746573ull ^ k1;
	auto round = [&] {
		v0 += v1; v1 = rol( v1, 13 ); v1 ^= v0; v0 = rol( v0, 32 );
		v2 += v3; v3 = rol( v3, 16 ); v3 ^= v2;
		v0 += v3; v3 = rol( v3, 21 ); v3 ^= v0;
		v2 += v1; v1 = rol( v1, 17 ); v1 ^= v2; v2 = rol( v2, 32 );
	};
	size_t i = 0;
	for( ; i + 8 <= len; i += 8 ) { u64 m = rd( p + i, 8 ); v3 ^= m; round( ); round( ); v0 ^= m; }
	u64 m = static_cast<u64>( len ) << 56;
	for( size_t k = 0; i + k < len; ++k ) m |= static_cast<u64>( p[i + k] ) << ( 8 * k );
	v3 ^= m; round( ); round( ); v0 ^= m;
	v2 ^= 0xff; round( ); round( ); round( ); round( );
	return v0 ^ v1 ^ v2 ^ v3;
}
//@ bounds: every length up to 32 bytes (thorough 40), all contents and keys
//@ q:len=32,time=150 t:len=40,time=800
ENTRY sip_hash( ) {
	size_t n = sym_pick( "n", 0, static_cast<unsigned>( sym_param( "len", 17 ) ) );
	Arr<char> b( n, "b" ), k( 16, "k" );
	CHECK( daw::siphash24( static_cast<char const *>( b.p ), n, static_cast<char const *>( k.p ) ) == sip( reinterpret_cast<u8 *>( b.p ), n, reinterpret_cast<u8 *>( k.p ) ) );
	sym_reach( "end" );
}
