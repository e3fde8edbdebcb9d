#include "common.h"
#include <daw/daw_uint_buffer.h>
#include <limits>
using daw::UInt8; using daw::UInt16; using daw::UInt32; using daw::UInt64;
template<typename T> struct raw { using type = T; };
template<> struct raw<UInt8> { using type = uint8_t; };
template<> struct raw<UInt16> { using type = uint16_t; };
template<> struct raw<UInt32> { using type = uint32_t; };
template<> struct raw<UInt64> { using type = uint64_t; };
template<typename T> using raw_t = typename raw<T>::type;
template<typename T> constexpr uint64_t val( T v ) { return static_cast<raw_t<T>>( v ); }
template<typename T> constexpr uint64_t cut( uint64_t v ) { return static_cast<raw_t<T>>( v ); }

// The values of the two operands are arbitrary; every overload that accepts the two types is checked.
template<typename A, typename B>
struct Pair {
	A a = static_cast<A>( sym<raw_t<A>>( "a" ) );
	B b = static_cast<B>( sym<raw_t<B>>( "b" ) );
	uint64_t x = val( a ), y = val( b );
	static constexpr uint64_t bits_a = sizeof( A ) * 8;
};
#define ARITH( OP, EXPECT, PRE ) \
	if constexpr( requires( A p, B q ) { p OP q; } ) { if( PRE ) { auto r = t.a OP t.b; CHECK( val( r ) == cut<decltype( r )>( EXPECT ) ); } } \
	if constexpr( requires( A p, B q ) { p OP##= q; } ) { if( PRE ) { A c = t.a; auto &r = ( c OP##= t.b ); CHECK( &r == &c ); CHECK( val( c ) == cut<A>( EXPECT ) ); } }
#define REL( OP ) \
	if constexpr( requires( A p, B q ) { p OP q; } ) { CHECK( ( t.a OP t.b ) == ( t.x OP t.y ) ); }
// builtin operands wider than the named type would be narrowed by the implicit conversion first: outside
template<typename A, typename B> constexpr bool fits = ( std::is_enum_v<A> and std::is_enum_v<B> ) or ( std::is_enum_v<A> ? sizeof( B ) <= sizeof( A ) : sizeof( A ) <= sizeof( B ) );
template<typename A, typename B> void arith( ) {
	if constexpr( fits<A, B> ) {
	Pair<A, B> t;
	ARITH( +, t.x + t.y, true )
	ARITH( -, t.x - t.y, true )
	ARITH( &, ( t.x & t.y ), true )
	ARITH( |, ( t.x | t.y ), true )
	ARITH( ^, ( t.x ^ t.y ), true )
	ARITH( <<, t.x << t.y, t.y < t.bits_a )
	ARITH( >>, t.x >> t.y, t.y < t.bits_a )
	REL( == ) REL( != ) REL( < ) REL( > ) REL( <= ) REL( >= )
	}
}
template<typename A, typename B> void muldiv( ) {
	if constexpr( fits<A, B> or sizeof( A ) == 1 ) {
		Pair<A, B> t;
		ARITH( *, t.x * t.y, true )
		ARITH( /, t.x / t.y, t.y != 0 )
	}
}
template<typename A> void rows( ) {
	arith<A, UInt8>( ); arith<A, UInt16>( ); arith<A, UInt32>( ); arith<A, UInt64>( );
	arith<A, uint8_t>( ); arith<A, uint16_t>( ); arith<A, uint32_t>( ); arith<A, uint64_t>( );
}
template<typename A> void rowsm( ) {
	muldiv<A, UInt8>( ); muldiv<A, UInt16>( ); muldiv<A, UInt32>( ); muldiv<A, UInt64>( );
	muldiv<A, uint8_t>( ); muldiv<A, uint16_t>( ); muldiv<A, uint32_t>( ); muldiv<A, uint64_t>( );
}
template<typename B> void cols( ) { arith<uint8_t, B>( ); arith<uint16_t, B>( ); arith<uint32_t, B>( ); arith<uint64_t, B>( ); }
template<typename B> void colsm( ) { muldiv<uint8_t, B>( ); muldiv<uint16_t, B>( ); muldiv<uint32_t, B>( ); muldiv<uint64_t, B>( ); }

//@ bounds: all operand values of every width pair; shift counts below the width
ENTRY ops_8( ) { rows<UInt8>( ); cols<UInt8>( ); sym_reach( "8" ); }
//@
ENTRY ops_16( ) { rows<UInt16>( ); cols<UInt16>( ); sym_reach( "16" ); }
//@
ENTRY ops_32( ) { rows<UInt32>( ); cols<UInt32>( ); sym_reach( "32" ); }
//@
ENTRY ops_64( ) { rows<UInt64>( ); cols<UInt64>( ); sym_reach( "64" ); }
//@
ENTRY muldiv_8( ) { rowsm<UInt8>( ); colsm<UInt8>( ); sym_reach( "m8" ); }
//@
ENTRY muldiv_16( ) { rowsm<UInt16>( ); colsm<UInt16>( ); sym_reach( "m16" ); }
//@
ENTRY muldiv_32( ) { rowsm<UInt32>( ); colsm<UInt32>( ); sym_reach( "m32" ); }
//@
ENTRY muldiv_64( ) { rowsm<UInt64>( ); colsm<UInt64>( ); sym_reach( "m64" ); }

template<typename A> void unary( ) {
	A a = static_cast<A>( sym<raw_t<A>>( "a" ) );
	uint64_t x = val( a );
	CHECK( !a == ( x == 0 ) );
	CHECK( val( ~a ) == cut<A>( ~x ) );
	CHECK( val( +a ) == x );
	CHECK( val( -a ) == cut<A>( 0 - x ) );
	{ A c = a; A &r = ++c; CHECK( &r == &c and val( c ) == cut<A>( x + 1 ) ); }
	{ A c = a; A &r = --c; CHECK( &r == &c and val( c ) == cut<A>( x - 1 ) ); }
	{ A c = a; A r = c++; CHECK( val( r ) == x and val( c ) == cut<A>( x + 1 ) ); }
	{ A c = a; A r = c--; CHECK( val( r ) == x and val( c ) == cut<A>( x - 1 ) ); }
	CHECK( val( daw::to_uint64( static_cast<raw_t<A>>( a ) ) ) == x );
	CHECK( val( daw::to_uint32( static_cast<raw_t<A>>( a ) ) ) == cut<UInt32>( x ) );
	CHECK( val( daw::to_uint16( static_cast<raw_t<A>>( a ) ) ) == cut<UInt16>( x ) );
	CHECK( val( daw::to_uint8( static_cast<raw_t<A>>( a ) ) ) == cut<UInt8>( x ) );
	using L = std::numeric_limits<A>;
	CHECK( val( L::min( ) ) == 0 and val( L::lowest( ) ) == 0 and val( L::max( ) ) == std::numeric_limits<raw_t<A>>::max( ) );
	CHECK( L::is_specialized and !L::is_signed and L::is_integer and L::is_bounded and L::is_modulo and L::digits == sizeof( A ) * 8 and L::radix == 2 );
	CHECK( L::digits10 == std::numeric_limits<raw_t<A>>::digits10 );
}
//@
ENTRY unary_ops( ) { unary<UInt8>( ); unary<UInt16>( ); unary<UInt32>( ); unary<UInt64>( ); sym_reach( "unary" ); }

template<typename A> void rot( ) {
	constexpr unsigned W = sizeof( A ) * 8;
	A a = static_cast<A>( sym<raw_t<A>>( "a" ) );
	uint64_t x = val( a );
	unsigned n = sym_range<uint32_t>( "bits", 0, W );
	unsigned k = n % W;
	uint64_t l = k ? cut<A>( ( x << k ) | ( x >> ( W - k ) ) ) : x, r = k ? cut<A>( ( x >> k ) | ( x << ( W - k ) ) ) : x;
	CHECK( val( rotate_left( a, n ) ) == l );
	CHECK( val( rotate_right( a, n ) ) == r );
}
template<typename A, unsigned N> void rotn( ) {
	constexpr unsigned W = sizeof( A ) * 8;
	A a = static_cast<A>( sym<raw_t<A>>( "a" ) );
	uint64_t x = val( a );
	constexpr unsigned k = N % W;
	uint64_t l = x, r = x;
	if constexpr( k != 0 ) { l = cut<A>( ( x << k ) | ( x >> ( W - k ) ) ); r = cut<A>( ( x >> k ) | ( x << ( W - k ) ) ); }
	CHECK( val( daw::rotate_left<N>( a ) ) == l );
	CHECK( val( daw::rotate_right<N>( a ) ) == r );
}
//@ bounds: rotation counts 0..width, including both ends
ENTRY rotates( ) { rot<UInt8>( ); rot<UInt16>( ); rot<UInt32>( ); rot<UInt64>( ); sym_reach( "rot" ); }
template<typename A, unsigned... N> void rotall( std::integer_sequence<unsigned, N...> ) { ( rotn<A, N>( ), ... ); }
//@
ENTRY rotates_fixed( ) {
	rotall<UInt8>( std::make_integer_sequence<unsigned, 9>{ } );
	rotall<UInt16>( std::make_integer_sequence<unsigned, 17>{ } );
	rotall<UInt32>( std::make_integer_sequence<unsigned, 33>{ } );
	rotall<UInt64>( std::make_integer_sequence<unsigned, 65>{ } );
	sym_reach( "rotn" );
}
template<typename A, unsigned N> void bit1( ) {
	A a = static_cast<A>( sym<raw_t<A>>( "a" ) );
	bool b = sym_bool( "state" );
	uint64_t x = val( a ), m = uint64_t{ 1 } << N;
	CHECK( val( daw::get_bit<N>( a ) ) == ( ( x >> N ) & 1 ) );
	A c = a;
	daw::set_bit<N>( c, b );
	CHECK( val( c ) == ( b ? ( x | m ) : ( x & ~m ) ) );
}
template<typename A, unsigned... N> void bitall( std::integer_sequence<unsigned, N...> ) { ( bit1<A, N>( ), ... ); }
//@
ENTRY bits_8_16( ) { bitall<UInt8>( std::make_integer_sequence<unsigned, 8>{ } ); bitall<UInt16>( std::make_integer_sequence<unsigned, 16>{ } ); sym_reach( "b8" ); }
//@
ENTRY bits_32( ) { bitall<UInt32>( std::make_integer_sequence<unsigned, 32>{ } ); sym_reach( "b32" ); }
//@
ENTRY bits_64( ) { bitall<UInt64>( std::make_integer_sequence<unsigned, 64>{ } ); sym_reach( "b64" ); }

template<typename T, unsigned N> constexpr uint64_t low( ) { return N == 0 ? 0 : cut<T>( ~uint64_t{ 0 } >> ( 64 - N ) ); }
template<unsigned... N> void masks( std::integer_sequence<unsigned, N...> ) {
	( [] { 
		CHECK( val( daw::mask_from_lsb64<N> ) == low<UInt64, N>( ) );
		if constexpr( N <= 32 ) CHECK( val( daw::mask_from_lsb32<N> ) == low<UInt32, N>( ) );
		if constexpr( N <= 16 ) CHECK( val( daw::mask_from_lsb16<N> ) == low<UInt16, N>( ) );
		if constexpr( N <= 8 ) CHECK( val( daw::mask_from_lsb8<N> ) == low<UInt8, N>( ) );
	}( ), ... );
}
//@
ENTRY mask_constants( ) { masks( std::make_integer_sequence<unsigned, 65>{ } ); sym_reach( "masks" ); }

template<typename C> void bufs( ) {
	Arr<unsigned char> b8( 8, "b8" ), b4( 4, "b4" ), b2( 2, "b2" );
	uint64_t e8 = 0, e4 = 0, e2 = 0;
	for( int i = 7; i >= 0; --i ) e8 = ( e8 << 8 ) | b8[i];
	for( int i = 3; i >= 0; --i ) e4 = ( e4 << 8 ) | b4[i];
	for( int i = 1; i >= 0; --i ) e2 = ( e2 << 8 ) | b2[i];
	CHECK( val( daw::to_uint64_buffer( reinterpret_cast<C const *>( b8.p ) ) ) == e8 );
	CHECK( val( daw::to_uint32_buffer( reinterpret_cast<C const *>( b4.p ) ) ) == e4 );
	CHECK( val( daw::to_uint16_buffer( reinterpret_cast<C const *>( b2.p ) ) ) == e2 );
}
//@ bounds: any byte content, buffers of exactly 8, 4 and 2 bytes
ENTRY buffers( ) { bufs<char>( ); bufs<unsigned char>( ); bufs<signed char>( ); sym_reach( "bufs" ); }
//@ bounds: every value the literal's type can hold
ENTRY literals( ) {
	uint64_t v = sym_u64( "v" );
	CHECK( val( daw::operator""_u64( v ) ) == v );
	if( v <= 0xFFFFFFFFu ) CHECK( val( daw::operator""_u32( v ) ) == v );
	if( v <= 0xFFFFu ) CHECK( val( daw::operator""_u16( v ) ) == v );
	if( v <= 0xFFu ) CHECK( val( daw::operator""_u8( v ) ) == v );
	sym_reach( "lits" );
}
