#include "common.h"
#include <daw/daw_int_cmp.h>
#include <daw/daw_uint_buffer.h>
using i128 = __int128;
// (hi, lo) with sign: exact mathematical comparison for any 64 bit signed/unsigned pair
template<typename T> i128 wide( T v ) { return static_cast<i128>( v ); }
template<typename T, typename U> void cmp( ) {
	T t = sym<T>( "t" );
	U u = sym<U>( "u" );
	i128 a = wide( t ), b = wide( u );
	CHECK( daw::cmp_equal( t, u ) == ( a == b ) );
	CHECK( daw::cmp_not_equal( t, u ) == ( a != b ) );
	CHECK( daw::cmp_less( t, u ) == ( a < b ) );
	CHECK( daw::cmp_greater( t, u ) == ( a > b ) );
	CHECK( daw::cmp_less_equal( t, u ) == ( a <= b ) );
	CHECK( daw::cmp_greater_equal( t, u ) == ( a >= b ) );
	CHECK( daw::in_range<U>( t ) == ( a >= wide( std::numeric_limits<U>::min( ) ) and a <= wide( std::numeric_limits<U>::max( ) ) ) );
	CHECK( daw::signbit( t ) == ( a < 0 ) );
}
template<typename T> void row( ) {
	cmp<T, int8_t>( ); cmp<T, uint8_t>( ); cmp<T, int16_t>( ); cmp<T, uint16_t>( ); cmp<T, int32_t>( ); cmp<T, uint32_t>( );
	cmp<T, int64_t>( ); cmp<T, uint64_t>( ); cmp<T, long long>( ); cmp<T, unsigned long long>( ); cmp<T, char>( ); cmp<T, char16_t>( ); cmp<T, wchar_t>( );
}
//@ bounds: all values of every pair of builtin integer types up to 64 bits
ENTRY from_8( ) { row<int8_t>( ); row<uint8_t>( ); row<char>( ); sym_reach( "8" ); }
//@
ENTRY from_16( ) { row<int16_t>( ); row<uint16_t>( ); row<char16_t>( ); sym_reach( "16" ); }
//@
ENTRY from_32( ) { row<int32_t>( ); row<uint32_t>( ); row<wchar_t>( ); sym_reach( "32" ); }
//@
ENTRY from_64( ) { row<int64_t>( ); row<uint64_t>( ); row<long long>( ); row<unsigned long long>( ); sym_reach( "64" ); }
static unsigned __int128 sym128( char const *n ) { uint64_t h = sym_u64( n ), l = sym_u64( n ); return ( static_cast<unsigned __int128>( h ) << 64 ) | l; }
// order of two 128 bit values, sign known
template<typename T, typename U> int order( T t, U u ) {
	bool nt = t < 0, nu = u < 0;
	if( nt != nu ) return nt ? -1 : 1;
	auto a = static_cast<unsigned __int128>( t ), b = static_cast<unsigned __int128>( u );
	return a < b ? -1 : a > b ? 1 : 0;
}
template<typename T, typename U> void cmp128( T t, U u ) {
	int o = order( t, u );
	CHECK( daw::cmp_equal( t, u ) == ( o == 0 ) );
	CHECK( daw::cmp_not_equal( t, u ) == ( o != 0 ) );
	CHECK( daw::cmp_less( t, u ) == ( o < 0 ) );
	CHECK( daw::cmp_greater( t, u ) == ( o > 0 ) );
	CHECK( daw::cmp_less_equal( t, u ) == ( o <= 0 ) );
	CHECK( daw::cmp_greater_equal( t, u ) == ( o >= 0 ) );
	CHECK( daw::in_range<U>( t ) == ( order( t, daw::numeric_limits<U>::min( ) ) >= 0 and order( t, daw::numeric_limits<U>::max( ) ) <= 0 ) );
	CHECK( daw::in_range<T>( u ) == ( order( u, daw::numeric_limits<T>::min( ) ) >= 0 and order( u, daw::numeric_limits<T>::max( ) ) <= 0 ) );
	CHECK( daw::signbit( t ) == ( t < 0 ) );
}
//@ bounds: all 128 bit values against 128, 64, 32 and 8 bit ones
ENTRY wide_128( ) {
	unsigned __int128 a = sym128( "a" ), b = sym128( "b" );
	i128 sa = static_cast<i128>( a ), sb = static_cast<i128>( b );
	cmp128( a, b ); cmp128( a, sb ); cmp128( sa, b ); cmp128( sa, sb );
	cmp128( a, sym<int64_t>( "i" ) ); cmp128( sa, sym<uint64_t>( "u" ) ); cmp128( sa, sym<int64_t>( "i2" ) ); cmp128( a, sym<uint64_t>( "u2" ) );
	cmp128( sa, sym<uint8_t>( "u8" ) ); cmp128( a, sym<int32_t>( "i32" ) );
	sym_reach( "128" );
}
template<typename T> void traits( bool sg ) {
	CHECK( daw::is_integral_v<T> and daw::is_number_v<T> and !daw::is_floating_point_v<T> and daw::is_arithmetic_v<T> );
	CHECK( daw::is_signed_v<T> == sg and daw::is_unsigned_v<T> == !sg );
	CHECK( daw::max_value<T> == std::numeric_limits<T>::max( ) and daw::min_value<T> == std::numeric_limits<T>::min( ) and daw::lowest_value<T> == std::numeric_limits<T>::lowest( ) );
	CHECK( daw::digits<T> == std::numeric_limits<T>::digits and daw::digits10<T> == std::numeric_limits<T>::digits10 );
	CHECK( sizeof( daw::make_unsigned_t<T> ) == sizeof( T ) and daw::is_unsigned_v<daw::make_unsigned_t<T>> and daw::is_signed_v<daw::make_signed_t<T>> and sizeof( daw::make_signed_t<T> ) == sizeof( T ) );
}
//@ bounds: every builtin integer type and both 128 bit types
ENTRY limits( ) {
	traits<int8_t>( true ); traits<uint8_t>( false ); traits<int16_t>( true ); traits<uint16_t>( false ); traits<int32_t>( true ); traits<uint32_t>( false ); traits<int64_t>( true ); traits<uint64_t>( false );
	unsigned __int128 x = sym128( "x" );
	i128 s = static_cast<i128>( x );
	CHECK( x >= daw::min_value<unsigned __int128> and x <= daw::max_value<unsigned __int128> );
	CHECK( s >= daw::min_value<i128> and s <= daw::max_value<i128> and s >= daw::lowest_value<i128> );
	CHECK( daw::max_value<unsigned __int128> + 1 == 0 and daw::min_value<unsigned __int128> == 0 );
	CHECK( static_cast<unsigned __int128>( daw::max_value<i128> ) + 1 == static_cast<unsigned __int128>( daw::min_value<i128> ) );
	CHECK( daw::digits<i128> == 127 and daw::digits<unsigned __int128> == 128 );
	CHECK( daw::digits10<i128> == 38 and daw::digits10<unsigned __int128> == 38 );
	CHECK( ( std::is_same_v<daw::make_unsigned_t<i128>, unsigned __int128> and std::is_same_v<daw::make_signed_t<unsigned __int128>, i128> ) );
	CHECK( daw::is_signed_v<i128> and daw::is_unsigned_v<unsigned __int128> and daw::is_integral_v<i128> );
	CHECK( sizeof( daw::intN_t<8> ) == 1 and sizeof( daw::intN_t<16> ) == 2 and sizeof( daw::intN_t<32> ) == 4 and sizeof( daw::intN_t<64> ) == 8 );
	CHECK( sizeof( daw::uintN_t<8> ) == 1 and sizeof( daw::uintN_t<16> ) == 2 and sizeof( daw::uintN_t<32> ) == 4 and sizeof( daw::uintN_t<64> ) == 8 );
	CHECK( ( daw::uintN_t<8>( -1 ) > 0 and daw::uintN_t<16>( -1 ) > 0 and daw::uintN_t<32>( -1 ) > 0 and daw::uintN_t<64>( -1 ) > 0 ) );
	CHECK( ( daw::is_floating_point_v<float> and daw::is_floating_point_v<double> and !daw::is_integral_v<double> and daw::is_signed_v<double> ) );
	sym_reach( "limits" );
}
