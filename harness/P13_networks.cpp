// compiled so that compare-and-exchange becomes two selects: one path covers every input
//! flags: -finline-functions -mllvm -inline-threshold=100000
#include "common.h"
#include <daw/daw_sort_n.h>
template<unsigned Bits> uint8_t val( size_t ) { if constexpr( Bits == 8 ) return sym_u8( "a" ); else { unsigned v = 0; for( unsigned k = 0; k < Bits; ++k ) v |= static_cast<unsigned>( sym_bool( "a" ) ) << k; return static_cast<uint8_t>( v ); } }
template<unsigned Bits, typename C, typename F, size_t... I> [[gnu::always_inline]] inline void net_( std::index_sequence<I...>, C comp, F f ) {
	constexpr size_t N = sizeof...( I );
	uint8_t const c[N] = { val<Bits>( I )... };
	uint8_t a[N] = { c[I]... };
	f( a, comp );
	uint8_t probe = val<Bits>( 0 );
	CHECK( ( true & ... & not( I + 1 < N and comp( a[I + 1 < N ? I + 1 : I], a[I] ) ) ) );
	CHECK( ( 0U + ... + unsigned( a[I] == probe ) ) == ( 0U + ... + unsigned( c[I] == probe ) ) );
}
#define NET( n, B, comp ) net_<B>( std::make_index_sequence<n>{ }, comp, []( auto *p, auto c ) { daw::sort_##n( p, c ); } )
//@ bounds: sort_3, sort_4: all 8-bit values, ascending and descending
ENTRY net3( ) { NET( 3, 8, std::less<>{ } ); NET( 3, 8, std::greater<>{ } ); sym_reach( "end" ); }
ENTRY net4( ) { NET( 4, 8, std::less<>{ } ); NET( 4, 8, std::greater<>{ } ); sym_reach( "end" ); }
//@ bounds: sort_5, sort_6: all arrangements of 8 distinct values, ascending and descending
ENTRY net5( ) { NET( 5, 3, std::less<>{ } ); NET( 5, 3, std::greater<>{ } ); sym_reach( "end" ); }
ENTRY net6( ) { NET( 6, 3, std::less<>{ } ); NET( 6, 3, std::greater<>{ } ); sym_reach( "end" ); }
//@ bounds: sort_7, sort_8: all arrangements of 4 distinct values, ascending and descending
ENTRY net7( ) { NET( 7, 2, std::less<>{ } ); NET( 7, 2, std::greater<>{ } ); sym_reach( "end" ); }
ENTRY net8( ) { NET( 8, 2, std::less<>{ } ); NET( 8, 2, std::greater<>{ } ); sym_reach( "end" ); }
//@ bounds: sort_16: all arrangements of two distinct values (which decides every input of a compare-and-exchange network)
ENTRY net16( ) { NET( 16, 1, std::less<>{ } ); sym_reach( "end" ); }
ENTRY net16_desc( ) { NET( 16, 1, std::greater<>{ } ); sym_reach( "end" ); }
// sort_32: one half arbitrary, the other half any ordered arrangement of two distinct values
template<bool Upper, bool Desc, size_t... I> [[gnu::always_inline]] inline void net32_( std::index_sequence<I...> ) {
	uint8_t cut = sym_u8( "cut" );
	sym_assume( cut <= 16 );
	uint8_t const c[32] = { ( ( I >= 16 ) == Upper ? static_cast<uint8_t>( sym_bool( "a" ) ) : static_cast<uint8_t>( ( I % 16 >= cut ) != Desc ) )... };
	uint8_t a[32] = { c[I]... };
	auto comp = [] { if constexpr( Desc ) return std::greater<>{ }; else return std::less<>{ }; }( );
	daw::sort_32( a, comp );
	CHECK( ( true & ... & not( I < 31 and comp( a[I < 31 ? I + 1 : I], a[I] ) ) ) );
	CHECK( ( 0U + ... + unsigned( a[I] ) ) == ( 0U + ... + unsigned( c[I] ) ) );
}
//@ bounds: sort_32: one half all arrangements of two distinct values, the other half all ordered arrangements of them
ENTRY net32_lower( ) { net32_<false, false>( std::make_index_sequence<32>{ } ); sym_reach( "end" ); }
ENTRY net32_upper( ) { net32_<true, false>( std::make_index_sequence<32>{ } ); sym_reach( "end" ); }
ENTRY net32_desc( ) { net32_<true, true>( std::make_index_sequence<32>{ } ); sym_reach( "end" ); }
