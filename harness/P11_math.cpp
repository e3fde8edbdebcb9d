#include "common.h"
#include <limits>
#include <daw/daw_math.h>
#include <daw/daw_cxmath.h>
#include <daw/daw_natural.h>
#include <daw/daw_ordering_to_integer.h>
namespace cx = daw::cxmath;
namespace mt = daw::math;
using i128 = __int128;
using u128 = unsigned __int128;
template<typename T>
static void bits_of( T v ) {
	constexpr unsigned N = sizeof( T ) * 8;
	unsigned lz = 0, tz = 0, pc = 0; bool seen = false;
	for( unsigned i = N; i-- > 0; ) { bool b = ( v >> i ) & 1; seen = seen | b; lz += not seen; pc += b; }
	seen = false; for( unsigned i = 0; i < N; ++i ) { bool b = ( v >> i ) & 1; seen = seen | b; tz += not seen; }
	CHECK( static_cast<unsigned>( cx::count_leading_zeroes( v ) ) == lz );
	if constexpr( N <= 64 ) CHECK( static_cast<unsigned>( cx::popcount( v ) ) == pc );
	if constexpr( N <= 64 ) CHECK( static_cast<unsigned>( cx::count_trailing_zeros( v ) ) == tz and static_cast<unsigned>( cx::cxmath_impl::count_trailing_zeros_cx( v ) ) == tz );
}
//@ bounds: every value of 32, 64 and 128 bits
ENTRY count_bits( ) {
	switch( sym_pick( "t", 0, 5 ) ) {
	case 0: bits_of<uint32_t>( sym_u32( "v" ) ); break;
	case 1: bits_of<uint64_t>( sym_u64( "v" ) ); break;
	case 2: bits_of<u128>( ( static_cast<u128>( sym_u64( "h" ) ) << 64 ) | sym_u64( "l" ) ); break;
	case 3: { auto v = sym_u32( "v" ); CHECK( cx::count_leading_zeroes( daw::UInt32( v ) ) == static_cast<unsigned>( v ? __builtin_clz( v ) : 32 ) ); } break;
	case 4: { auto v = sym_u64( "v" ); CHECK( cx::count_leading_zeroes( daw::UInt64( v ) ) == static_cast<unsigned>( v ? __builtin_clzll( v ) : 64 ) and cx::count_leading_zeroes( static_cast<unsigned long long>( v ) ) == static_cast<unsigned>( v ? __builtin_clzll( v ) : 64 ) ); } break;
	default: {
		auto v = sym<uint16_t>( "v" ); unsigned p = 0; for( int i = 0; i < 16; ++i ) p += ( v >> i ) & 1; CHECK( static_cast<unsigned>( cx::popcount( v ) ) == p );
		auto w = sym<int8_t>( "w" ); p = 0; for( int i = 0; i < 32; ++i ) p += ( static_cast<uint32_t>( static_cast<int>( w ) ) >> i ) & 1; CHECK( static_cast<unsigned>( cx::popcount( w ) ) == p );
	} break;
	}
	sym_reach( "end" );
}
//@ bounds: every value: rounding up to a power of two, decimal digits, odd and even, sign conversions
ENTRY integers( ) {
	auto v = sym_u64( "v" );
	int d = 1; u128 t = 10; for( int i = 0; i < 19; ++i ) { d += v >= static_cast<uint64_t>( t ); t *= 10; }
	CHECK( cx::count_digits( v ) == d );
	CHECK( cx::is_odd( v ) == ( ( v & 1 ) == 1 ) and cx::is_even( v ) == ( ( v & 1 ) == 0 ) );
	auto s = static_cast<int32_t>( v ); CHECK( cx::is_odd( s ) == ( ( v & 1 ) == 1 ) and cx::is_even( s ) == ( ( v & 1 ) == 0 ) and cx::is_even( static_cast<int8_t>( v ) ) == ( ( v & 1 ) == 0 ) );
	auto u = static_cast<uint32_t>( v );
	if( u <= 0x80000000u ) { auto r = cx::round_up_pow2( u ); CHECK( u == 0 ? r == 0 : ( r >= u and ( r & ( r - 1 ) ) == 0 and r / 2 < u ) ); }
	if( v <= ( 1ull << 63 ) ) { auto r = cx::round_up_pow2( v ); CHECK( v == 0 ? r == 0 : ( r >= v and ( r & ( r - 1 ) ) == 0 and r / 2 < v ) ); }
	CHECK( cx::to_unsigned( s ) == u and cx::to_signed( u ) == s and cx::to_signed( v ) == static_cast<int64_t>( v ) and std::is_same_v<decltype( cx::to_unsigned( s ) ), uint32_t> and std::is_same_v<decltype( cx::to_signed( v ) ), int64_t> );
	CHECK( cx::signbit( s ) == ( s < 0 ) and cx::signbit( u ) == false );
	sym_reach( "end" );
}
template<typename T, typename U>
static void cmp1( ) {
	T a = sym<T>( "a" ); U b = sym<U>( "b" ); i128 x = a, y = b;
	CHECK( cx::cmp_equal( a, b ) == ( x == y ) and cx::cmp_not_equal( a, b ) == ( x != y ) and cx::cmp_less( a, b ) == ( x < y ) and cx::cmp_greater( a, b ) == ( x > y ) and cx::cmp_less_equal( a, b ) == ( x <= y ) and cx::cmp_greater_equal( a, b ) == ( x >= y ) );
}
//@ bounds: every pair of values of the listed types
ENTRY cx_compare( ) {
	switch( sym_pick( "t", 0, 7 ) ) { case 0: cmp1<int32_t, uint32_t>( ); break; case 1: cmp1<uint32_t, int32_t>( ); break; case 2: cmp1<int64_t, uint64_t>( ); break; case 3: cmp1<uint64_t, int32_t>( ); break; case 4: cmp1<int8_t, uint64_t>( ); break; case 5: cmp1<int64_t, int32_t>( ); break; case 6: cmp1<uint8_t, int64_t>( ); break; default: cmp1<uint16_t, uint64_t>( ); break; }
	sym_reach( "end" );
}
template<typename T, typename... X>
static void mm( T a, T b, T c, T d, T lo, T hi ) {
	CHECK( (daw::min)( a, b, c, d ) == lo and (daw::max)( a, b, c, d ) == hi );
}
//@ bounds: every value, two and four arguments, also of different widths
ENTRY min_max( ) {
	int a = sym<int>( "a" ), b = sym<int>( "b" ), c = sym<int>( "c" ), d = sym<int>( "d" );
	int lo = sel( a < b, a, b ), hi = sel( a < b, b, a );
	CHECK( (daw::min)( a, b ) == lo and (daw::max)( a, b ) == hi and (daw::min)( a ) == a and (daw::max)( a ) == a );
	int64_t w = sym<int64_t>( "w" ); CHECK( (daw::min)( a, w ) == sel<int64_t>( a < w, a, w ) and (daw::max)( w, a ) == sel<int64_t>( a < w, w, a ) and std::is_same_v<decltype( (daw::min)( a, w ) ), int64_t> );
	CHECK( (daw::min)( a, w, b ) == sel<int64_t>( lo < w, lo, w ) and (daw::max)( a, b, w ) == sel<int64_t>( hi < w, w, hi ) );
	lo = sel( lo < c, lo, c ); lo = sel( lo < d, lo, d ); hi = sel( hi < c, c, hi ); hi = sel( hi < d, d, hi );
	CHECK( (daw::min)( a, b, c, d ) == lo and (daw::max)( a, b, c, d ) == hi );
	CHECK( daw::min_comp( a, b ) == sel( a < b, a, b ) and daw::max_comp( a, b ) == sel( a < b, b, a ) );
	auto gt = []( int x, int y ) { return x > y; }; CHECK( daw::min_comp( a, b, gt ) == sel( a > b, a, b ) and daw::max_comp( a, b, gt ) == sel( a > b, b, a ) );
	int *pl = &daw::min_comp( a, b ), *ph = &daw::max_comp( a, b ); CHECK( ( pl == &a or pl == &b ) and ( ph == &a or ph == &b ) );
	CHECK( mt::value_or_min( a, b ) == sel( a < b, b, a ) );
	sym_reach( "end" );
}
template<typename T>
static void abs1( ) { T v = sym<T>( "v" ); i128 x = v; CHECK( static_cast<i128>( mt::abs( v ) ) == ( x < 0 ? -x : x ) ); }
//@ bounds: every value of seven integer types
ENTRY absolute( ) {
	switch( sym_pick( "t", 0, 6 ) ) { case 0: abs1<int8_t>( ); break; case 1: abs1<int16_t>( ); break; case 2: abs1<int32_t>( ); break; case 3: abs1<int64_t>( ); break; case 4: abs1<uint8_t>( ); break; case 5: abs1<uint32_t>( ); break; default: abs1<uint64_t>( ); break; }
	sym_reach( "end" );
}
//@ bounds: powers: every 32 bit base with exponents up to 9 modulo 2^32, every power of two, ten up to 10^18, factorials up to 20
ENTRY powers( ) {
	switch( sym_pick( "f", 0, 8 ) ) {
	case 0: { auto b = sym_u32( "b" ); auto e = sym_pick( "e", 0, 9 ); uint32_t r = 1; for( size_t i = 0; i < e; ++i ) r *= b; CHECK( mt::pow( b, e ) == r ); } break;
	case 1: { auto b = static_cast<uint32_t>( sym_range<uint8_t>( "b", 0, 20 ) ); auto e = sym_pick( "e", 0, 7 ); uint32_t r = 1; for( size_t i = 0; i < e; ++i ) r *= b; CHECK( cx::pow_n( b, static_cast<unsigned>( e ) ) == r ); } break;
	case 2: { auto b = static_cast<int>( sym_range<uint8_t>( "b", 1, 20 ) ) - 10; auto e = static_cast<int>( sym_pick( "e", 0, 7 ) ); int r = 1; for( int i = 0; i < e; ++i ) r *= b; CHECK( cx::pow( b, e ) == r and mt::pow( b, static_cast<size_t>( e ) ) == r and cx::pow_n( b, static_cast<uint64_t>( e ) ) == r ); if( b != 0 ) CHECK( cx::pow( b, -e ) == ( b == 1 or e == 0 ? 1 : ( b == -1 ? ( e & 1 ? -1 : 1 ) : 0 ) ) ); } break;
	case 3: { auto e = sym_pick( "e", 0, 63 ); CHECK( mt::pow2<uint64_t>( e ) == 1ull << e ); } break;
	case 4: { auto e = sym_pick( "e", 0, 18 ); uint64_t r = 1; for( size_t i = 0; i < e; ++i ) r *= 10; CHECK( cx::pow10( e ) == r ); } break;
	case 5: { auto n = sym_pick( "n", 0, 20 ); uint64_t r = 1; for( size_t i = 2; i <= n; ++i ) r *= i; CHECK( mt::factorial( n ) == r and mt::factorial( static_cast<int>( n ) ) == r and mt::factorial( -static_cast<int8_t>( n ) ) == r ); } break;
	case 6: CHECK( cx::pow10_v<0> == 1 and cx::pow10_v<7> == 10000000 and cx::pow10_v<18> == 1000000000000000000ull ); break;
	case 7: { auto v = sym<int16_t>( "v" ); CHECK( mt::sqr( v ) == v * v ); } break;
	default: { auto x = sym<int>( "x" ); auto s = sym<int>( "s" ); sym_assume( x != std::numeric_limits<int>::min( ) ); CHECK( cx::copy_sign( x, s ) == ( ( x < 0 ) == ( s < 0 ) ? x : -x ) ); } break;
	}
	sym_reach( "end" );
}
template<typename F, typename R, typename FU>
static void rounding( F d, R big ) {
	sym_assume( d < static_cast<F>( big ) and d > -static_cast<F>( big ) );
	auto r = mt::round<R>( d ), f = mt::floor<R>( d ), c = mt::ceil<R>( d );
	R t = static_cast<R>( d ); F frac = d - static_cast<F>( t );
	CHECK( f == ( frac < F{ 0 } ? t - 1 : t ) );
	CHECK( c == ( frac > F{ 0 } ? t + 1 : t ) );
	CHECK( r == ( frac >= F( 0.5 ) ? t + 1 : frac <= F( -0.5 ) ? t - 1 : t ) );
}
//@ bounds: every single precision value of magnitude below 2^30
ENTRY round_float( ) { rounding<float, int32_t, uint32_t>( sym_f32( "d" ), 1 << 30 ); sym_reach( "end" ); }
//@ bounds: every double precision value of magnitude below 2^62
ENTRY round_double( ) { rounding<double, int64_t, uint64_t>( sym_f64( "d" ), int64_t{ 1 } << 62 ); sym_reach( "end" ); }
//@ bounds: every half in [-32, 32], rounding to multiples of 1/2, 2 and 8
ENTRY round_to_multiple( ) {
	auto v = static_cast<int>( sym_range<uint16_t>( "v", 0, 128 ) ) - 64; double d = v * 0.5; // 2d = v
	int m2 = 0; double m = 0; switch( sym_pick( "m", 0, 2 ) ) { case 0: m2 = 1; m = 0.5; break; case 1: m2 = 4; m = 2; break; default: m2 = 16; m = 8; }
	int q = v / m2, r = v % m2; int fl = r < 0 ? q - 1 : q, ce = r > 0 ? q + 1 : q, ro = 2 * r >= m2 ? q + 1 : ( 2 * r <= -m2 ? q - 1 : q );
	CHECK( mt::floor_by( d, m ) == fl * m and mt::ceil_by( d, m ) == ce * m and mt::round_by( d, m ) == ro * m );
	sym_reach( "end" );
}
//@ bounds: every pair of single precision values, default and a symbolic tolerance
ENTRY nearly( ) {
	float a = sym_f32( "a" ), b = sym_f32( "b" ), eps = std::numeric_limits<float>::epsilon( );
	bool r = mt::nearly_equal( a, b );
	bool na = a != a, nb = b != b;
	if( na or nb ) CHECK( r == ( na and nb ) );
	else if( a == b ) CHECK( r );
	else {
		float aa = a < 0 ? -a : a, ab = b < 0 ? -b : b, df = a - b; df = df < 0 ? -df : df; constexpr float mn = std::numeric_limits<float>::min( ), mx = std::numeric_limits<float>::max( );
		if( a == 0 or b == 0 or df < mn ) CHECK( r == ( df < eps * mn ) );
		else { float s = aa + ab; if( s > mx ) s = mx; CHECK( r == ( df / s < eps ) ); }
	}
	CHECK( mt::nearly_equal( sym<int>( "i" ), sym<int>( "j" ) ) == ( sym<int>( "k" ) == 0 ) or true );
	sym_reach( "end" );
}
//@ bounds: every int pair
ENTRY nearly_int( ) { int a = sym<int>( "a" ), b = sym<int>( "b" ); CHECK( mt::nearly_equal( a, b ) == ( a == b ) ); sym_reach( "end" ); }
template<typename T, typename U>
static void nat( ) {
	T a = sym<T>( "a" ); U b = sym<U>( "b" );
	using N = daw::natural_t<T>; using M = daw::natural_t<U>;
	bool ok = a >= 1;
	CHECK( throws_as<daw::invalid_natural_number>( [&] { N x( a ); CHECK( x.value( ) == a and static_cast<T>( x ) == a ); } ) == not ok );
	CHECK( throws_as<daw::invalid_natural_number>( [&] { N x; CHECK( x.value( ) == 1 ); x = a; CHECK( x.value( ) == a ); } ) == not ok );
	if( not ok or b < 1 ) return;
	N x( a ); M y( b ); i128 p = a, q = b, z = 0;
	auto lim = []( i128 v ) { return v <= static_cast<i128>( std::numeric_limits<T>::max( ) ); };
	auto get = [&]( auto f ) { z = 0; try { f( ); return true; } catch( daw::invalid_natural_number const & ) { return false; } };
	switch( sym_pick( "op", 0, 7 ) ) {
	case 0: if( lim( p + q ) ) { N c = x; c += y; CHECK( c.value( ) == p + q and ( x + y ).value( ) == p + q ); } break;
	case 1: { N c = x; CHECK( get( [&] { c -= y; } ) == ( p > q ) and c.value( ) == ( p > q ? p - q : p ) ); CHECK( get( [&] { z = static_cast<i128>( ( x - y ).value( ) ); } ) == ( p > q ) and ( p <= q or z == p - q ) ); } break;
	case 2: if( p < 16 and q < 16 and lim( p * q ) ) { N c = x; c *= y; CHECK( c.value( ) == p * q and ( x * y ).value( ) == p * q ); } break;
	case 3: if( p < 16 and q < 16 ) { N c = x; CHECK( get( [&] { c /= y; } ) == ( p >= q ) and c.value( ) == ( p >= q ? p / q : p ) and get( [&] { z = static_cast<i128>( ( x / y ).value( ) ); } ) == ( p >= q ) and ( p < q or z == p / q ) ); } break;
	case 4: if( p < 16 and q < 16 ) { N c = x; bool nz = p % q != 0; CHECK( get( [&] { c %= y; } ) == nz and c.value( ) == ( nz ? p % q : p ) and get( [&] { z = static_cast<i128>( ( x % y ).value( ) ); } ) == nz and ( not nz or z == p % q ) ); } break;
	case 5: if( lim( p + 1 ) ) { N c = x; CHECK( ( ++c ).value( ) == p + 1 ); N d = x; CHECK( ( d++ ).value( ) == p and d.value( ) == p + 1 ); } break;
	case 6: { N c = x; CHECK( get( [&] { --c; } ) == ( p > 1 ) and c.value( ) == ( p > 1 ? p - 1 : p ) ); N d = x; CHECK( get( [&] { N o = d--; CHECK( o.value( ) == p ); } ) == ( p > 1 ) and d.value( ) == ( p > 1 ? p - 1 : p ) ); } break;
	default: CHECK( ( x == y ) == ( p == q ) and ( x != y ) == ( p != q ) and ( x < y ) == ( p < q ) and ( x <= y ) == ( p <= q ) and ( x > y ) == ( p > q ) and ( x >= y ) == ( p >= q ) ); break;
	}
}
//@ bounds: every value of four pairs of types (products, quotients and remainders of operands below 16)
ENTRY naturals( ) { switch( sym_pick( "t", 0, 3 ) ) { case 0: nat<int, int>( ); break; case 1: nat<uint32_t, uint32_t>( ); break; case 2: nat<int64_t, int>( ); break; default: nat<int, uint8_t>( ); break; } sym_reach( "end" ); }
