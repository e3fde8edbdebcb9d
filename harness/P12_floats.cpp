#include "common.h"
#include <limits>
#include <daw/daw_cxmath.h>
namespace cx = daw::cxmath;
static uint32_t B( float f ) { uint32_t u; std::memcpy( &u, &f, 4 ); return u; }
static uint64_t B( double f ) { uint64_t u; std::memcpy( &u, &f, 8 ); return u; }
template<typename R> struct F;
template<> struct F<float> { using U = uint32_t; static constexpr int mb = 23, bias = 127, n = 32; };
template<> struct F<double> { using U = uint64_t; static constexpr int mb = 52, bias = 1023, n = 64; };
template<typename R>
static R mk( typename F<R>::U u ) { R r; std::memcpy( &r, &u, sizeof( R ) ); return r; }
template<typename R>
static void cls( ) {
	using X = F<R>; using U = typename X::U;
	U u = sym<U>( "x" ); R r = mk<R>( u );
	U m = u & ( ( U{ 1 } << X::mb ) - 1 ); int e = static_cast<int>( ( u >> X::mb ) & ( 2 * X::bias + 1 ) );
	bool nan = e == 2 * X::bias + 1 and m != 0, inf = e == 2 * X::bias + 1 and m == 0, zero = e == 0 and m == 0, sub = e == 0 and m != 0;
	auto c = cx::fp_classify( r );
	CHECK( ( c == cx::fp_classes::nan ) == nan and ( c == cx::fp_classes::infinity ) == inf and ( c == cx::fp_classes::zero ) == zero and ( c == cx::fp_classes::subnormal ) == sub and ( c == cx::fp_classes::normal ) == not( nan or inf or zero or sub ) );
	CHECK( cx::is_nan( r ) == nan and cx::is_inf( r ) == inf and cx::is_finite( r ) == not( nan or inf ) );
	CHECK( static_cast<U>( cx::get_significand( r ) ) == m );
	if( not( nan or inf or zero or sub ) ) CHECK( cx::get_exponent( r ) == e - X::bias and *cx::intxp( r ) == e - X::bias );
	CHECK( B( cx::abs( r ) ) == ( u & ~( U{ 1 } << ( X::n - 1 ) ) ) );
	U v = sym<U>( "y" ); R s = mk<R>( v );
	CHECK( B( cx::copy_sign( r, s ) ) == ( ( u & ~( U{ 1 } << ( X::n - 1 ) ) ) | ( v & ( U{ 1 } << ( X::n - 1 ) ) ) ) );
	if( not nan ) CHECK( cx::signbit( r ) == ( not zero and ( u >> ( X::n - 1 ) ) == 1 ) );
	if constexpr( sizeof( R ) == 8 ) CHECK( cx::get_exponent_raw( r ) == static_cast<uint64_t>( e ) );
	sym_reach( "end" );
}
//@ bounds: every single precision value (every sign operand)
ENTRY classify_float( ) { cls<float>( ); }
//@ bounds: every double precision value (every sign operand)
ENTRY classify_double( ) { cls<double>( ); }
template<typename R>
static void expo( ) {
	using X = F<R>; using U = typename X::U;
	U u = sym<U>( "x" ); U m = u & ( ( U{ 1 } << X::mb ) - 1 ), sg = u >> ( X::n - 1 ); int e = static_cast<int>( ( u >> X::mb ) & ( 2 * X::bias + 1 ) ) - X::bias;
	sym_assume( e > -X::bias and e <= X::bias );
	R r = mk<R>( u ); int k = sym<int>( "k" );
	auto with = [&]( int x ) { return ( sg << ( X::n - 1 ) ) | ( static_cast<U>( x + X::bias ) << X::mb ) | m; };
	switch( sym_pick( "f", 0, 3 ) ) {
	case 0: sym_assume( k > -X::bias and k <= X::bias ); CHECK( B( cx::set_exponent( r, k ) ) == with( k ) ); break;
	case 1: { int64_t t = static_cast<int64_t>( e ) + k; sym_assume( t > -X::bias and t <= X::bias and k >= -2 * X::bias and k <= 2 * X::bias ); CHECK( B( cx::adjust_exponent( r, k ) ) == with( static_cast<int>( t ) ) ); } break;
	case 2: { R p = cx::pow2<R>( k ); CHECK( k > X::bias ? B( p ) == static_cast<U>( 2 * X::bias + 1 ) << X::mb : k > -X::bias ? B( p ) == static_cast<U>( k + X::bias ) << X::mb : B( p ) == 0 ); if constexpr( sizeof( R ) == 4 ) CHECK( B( cx::fpow2( k ) ) == B( p ) ); } break;
	default:
		if constexpr( sizeof( R ) == 8 ) { int adj = sym<int>( "adj" ); sym_assume( adj != std::numeric_limits<int>::min( ) ); CHECK( B( cx::adj_ulp( r, adj ) ) == u + static_cast<uint64_t>( static_cast<int64_t>( adj ) ) ); }
		break;
	}
	sym_reach( "end" );
}
//@ bounds: every normal single precision value, every exponent
ENTRY exponent_float( ) { expo<float>( ); }
//@ bounds: every normal double precision value, every exponent
ENTRY exponent_double( ) { expo<double>( ); }
//@ bounds: every normal double whose scaled value is normal, every normal power of two
ENTRY scale( ) {
	using X = F<double>;
	uint64_t u = sym_u64( "x" ); int e = static_cast<int>( ( u >> 52 ) & 2047 ) - 1023, k = sym<int>( "k" );
	sym_assume( e > -1023 and e < 1024 and k > -1023 and k < 1024 and e + k > -1023 and e + k < 1024 );
	sym_assume( ( u & 0xFFFF'FFFFull ) == 0 );
	double r = cx::ldexp( mk<double>( u ), k );
	CHECK( B( r ) == u + ( static_cast<uint64_t>( static_cast<int64_t>( k ) ) << 52 ) );
	sym_reach( "end" );
}
//@ bounds: every tabulated power of two and ten
ENTRY tables( ) {
	if( sym_bool( "two" ) ) {
		int e = static_cast<int>( sym_pick( "e", 0, 614 ) ) - 307;
		CHECK( B( cx::dpow2( e ) ) == static_cast<uint64_t>( e + 1023 ) << 52 );
	} else {
		int e = static_cast<int>( sym_pick( "e", 0, 614 ) ) - 307; double x = 1; int k = e < 0 ? -e : e; for( int i = 0; i < k and i < 22; ++i ) x *= 10; // exact
		for( int i = 22; i < k; ++i ) x *= 10;
		double p = cx::dpow10( e ), y = e < 0 ? 1 / x : x; double d = ( p - y ) / y; 
		if( e >= 0 and e <= 22 ) CHECK( p == y );
		CHECK( d < 1e-13 and d > -1e-13 );
		if( e >= -37 and e <= 38 ) CHECK( cx::fpow10( e ) == static_cast<float>( p ) );
	}
	CHECK( cx::fpow2_v<5> == 32.0f and cx::dpow2_v<-3> == 0.125 and cx::dpow10_v<3> == 1000.0 and cx::fpow10_v<2> == 100.0f );
	sym_reach( "end" );
}
template<typename R>
static void root( R tol ) {
	using X = F<R>; using U = typename X::U;
	unsigned const k = static_cast<unsigned>( sym_param( "bits", 3 ) );
	static constexpr int es[] = { 0, 1, -1, 2, 7, -8, 9 };
	int e; switch( sym_pick( "e", 0, 4 ) ) { case 0: e = es[sym_pick( "small", 0, 6 )]; break; case 1: e = X::bias; break; case 2: e = X::bias - 1; break; case 3: e = 1 - X::bias; break; default: e = 2 - X::bias; break; }
	U m = static_cast<U>( sym_pick( "m", 0, ( size_t{ 1 } << k ) - 1 ) ) << ( X::mb - static_cast<int>( k ) );
	R r = mk<R>( ( static_cast<U>( e + X::bias ) << X::mb ) | m );
	R s = cx::sqrt( r ), t = mk<R>( ( static_cast<U>( ( e & 1 ) + X::bias ) << X::mb ) | m ); // r = t * 4^h, t in [1, 4)
	s = s * mk<R>( static_cast<U>( X::bias - ( e - ( e & 1 ) ) / 2 ) << X::mb ); // exact
	R q = s * s - t;
	CHECK( s >= R{ 1 } - tol and s <= R{ 2 } + tol and q <= t * tol * 2 and -q <= t * tol * 2 );
	sym_reach( "end" );
}
//@ q:bits=8 t:bits=8
//@ bounds: single precision, at points only (symbolic division chains are out of the solver's reach): every significand of `bits` leading bits, exponents around zero and at both ends
ENTRY root_float( ) { root<float>( 2.5e-7f ); }
//@ q:bits=8 t:bits=8
//@ bounds: double precision, at points only (symbolic division chains are out of the solver's reach): every significand of `bits` leading bits, exponents around zero and at both ends
ENTRY root_double( ) { root<double>( 1e-15 ); }
//@ bounds: zeros, infinities, NaNs, every negative value; subnormal powers of two
ENTRY root_special( ) {
	uint32_t u = sym_u32( "x" ); float r = mk<float>( u ); uint64_t v = sym_u64( "y" ); double q = mk<double>( v );
	switch( sym_pick( "k", 0, 3 ) ) {
	case 0: if( r != r or r < 0 or r == 0 or ( u & 0x7FFFFFFF ) == 0x7F800000 ) { float s = cx::sqrt( r ); if( r != r or r < 0 ) CHECK( s != s ); else CHECK( s == r ); } break;
	case 1: if( q != q or q < 0 or q == 0 or ( v & ~( 1ull << 63 ) ) == 0x7FF0'0000'0000'0000ull ) { double s = cx::sqrt( q ); if( q != q or q < 0 ) CHECK( s != s ); else CHECK( s == q ); } break;
	case 2: { auto n = sym_pick( "n", 0, 22 ); r = mk<float>( uint32_t{ 1 } << n ); float s = cx::sqrt( r ), t = __builtin_sqrtf( r ), d = s - t; CHECK( d <= t * 2.5e-7f and -d <= t * 2.5e-7f ); } break;
	default: { auto n = sym_pick( "n", 0, 51 ); q = mk<double>( uint64_t{ 1 } << n ); double s = cx::sqrt( q ), t = __builtin_sqrt( q ), d = s - t; CHECK( d <= t * 1e-15 and -d <= t * 1e-15 ); } break;
	}
	sym_reach( "end" );
}
