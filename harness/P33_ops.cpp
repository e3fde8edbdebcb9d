// atomic<T> used by one thread: every operation gives the result of the plain operation on the value
//! variant: run
//! variant: ce -DCONSTEVAL_PATH
//@ bounds: complete: all values of every integer type of 8..64 bits, bool; double for whole values of magnitude up to 1000
#include "stdrt.h"
#include "common.h"
#include <atomic>
#include <concepts>
#include <limits>
#include <utility>
#include <daw/daw_attributes.h>
#include <type_traits>
#ifdef CONSTEVAL_PATH
#define consteval ( true )
#endif
#include <daw/daw_cx_atomic.h>
#undef consteval

// ---- atomic<T>
namespace {
	template<typename T>
	void atomic_ops( ) {
		T const a = sym<T>( "a" ), b = sym<T>( "b" ), c = sym<T>( "c" );
		using U = std::make_unsigned_t<T>;
		daw::atomic<T> const z{ };
		CHECK( z.load( ) == 0 );
		daw::atomic<T> x( a );
		CHECK( x.load( ) == a and static_cast<T>( x ) == a and x.load( std::memory_order_relaxed ) == a );
		x.store( b );
		CHECK( x.load( ) == b );
		x.store( a, std::memory_order_release );
		CHECK( x.load( std::memory_order_acquire ) == a );
		daw::atomic<T> &r = ( x = b );
		CHECK( &r == &x and x.load( ) == b );
		x = a;
		CHECK( x.exchange( b ) == a and x.load( ) == b );
		CHECK( x.exchange( a, std::memory_order_acq_rel ) == b and x.load( ) == a );
		daw::atomic<T> y( x );
		CHECK( y.load( ) == a and x.load( ) == a );
		daw::atomic<T> w( std::move( y ) );
		CHECK( w.load( ) == a );
		daw::atomic<T> q( c );
		q = w;
		CHECK( q.load( ) == a );
		q = c;
		w = std::move( q );
		CHECK( w.load( ) == c );
		auto &self = w;
		w = self;
		CHECK( w.load( ) == c );
		w = std::move( self );
		CHECK( w.load( ) == c );
		T e = b;
		x = a;
		bool ok = x.compare_exchange_strong( e, c );
		CHECK( ok == ( a == b ) );
		CHECK( e == ( ok ? b : a ) );
		CHECK( x.load( ) == ( ok ? c : a ) );
		x = a;
		e = b;
		ok = x.compare_exchange_weak( e, c );
		CHECK( ok == ( a == b ) and e == ( ok ? b : a ) and x.load( ) == ( ok ? c : a ) );
		x = a;
		e = b;
		ok = x.compare_exchange_strong( e, c, std::memory_order_acq_rel, std::memory_order_acquire );
		CHECK( ok == ( a == b ) and e == ( ok ? b : a ) and x.load( ) == ( ok ? c : a ) );
		x = a;
		e = b;
		ok = x.compare_exchange_weak( e, c, std::memory_order_release, std::memory_order_relaxed );
		CHECK( ok == ( a == b ) and e == ( ok ? b : a ) and x.load( ) == ( ok ? c : a ) );
		T sum, dif;
#ifdef CONSTEVAL_PATH
		sym_assume( not __builtin_add_overflow( a, b, &sum ) and not __builtin_sub_overflow( a, b, &dif ) );
		sym_assume( a < std::numeric_limits<T>::max( ) and a > std::numeric_limits<T>::min( ) );
#else
		sum = static_cast<T>( static_cast<U>( a ) + static_cast<U>( b ) );
		dif = static_cast<T>( static_cast<U>( a ) - static_cast<U>( b ) );
#endif
		T const inc = static_cast<T>( static_cast<U>( a ) + U{ 1 } ), dec = static_cast<T>( static_cast<U>( a ) - U{ 1 } );
		x = a;
		CHECK( x.fetch_add( b ) == a and x.load( ) == sum );
		x = a;
		CHECK( x.fetch_sub( b, std::memory_order_relaxed ) == a and x.load( ) == dif );
		x = a;
		CHECK( ( x += b ) == sum and x.load( ) == sum );
		x = a;
		CHECK( ( x -= b ) == dif and x.load( ) == dif );
		x = a;
		CHECK( ++x == inc and x.load( ) == inc );
		x = a;
		CHECK( x++ == a and x.load( ) == inc );
		x = a;
		CHECK( --x == dec and x.load( ) == dec );
		x = a;
		CHECK( x-- == a and x.load( ) == dec );
		x = a;
		CHECK( x.fetch_and( b ) == a and x.load( ) == static_cast<T>( a & b ) );
		x = a;
		CHECK( x.fetch_or( b ) == a and x.load( ) == static_cast<T>( a | b ) );
		x = a;
		CHECK( x.fetch_xor( b ) == a and x.load( ) == static_cast<T>( a ^ b ) );
		x = a;
		CHECK( ( x &= b ) == static_cast<T>( a & b ) and x.load( ) == static_cast<T>( a & b ) );
		x = a;
		CHECK( ( x |= b ) == static_cast<T>( a | b ) and x.load( ) == static_cast<T>( a | b ) );
		x = a;
		CHECK( ( x ^= b ) == static_cast<T>( a ^ b ) and x.load( ) == static_cast<T>( a ^ b ) );
	}
} // namespace
ENTRY atomic_u8( ) {
	atomic_ops<uint8_t>( );
}
ENTRY atomic_i8( ) {
	atomic_ops<int8_t>( );
}
ENTRY atomic_u16( ) {
	atomic_ops<uint16_t>( );
}
ENTRY atomic_i32( ) {
	atomic_ops<int32_t>( );
}
ENTRY atomic_u32( ) {
	atomic_ops<uint32_t>( );
}
ENTRY atomic_i64( ) {
	atomic_ops<int64_t>( );
}
ENTRY atomic_u64( ) {
	atomic_ops<uint64_t>( );
}
ENTRY atomic_bool( ) {
	bool const a = sym<bool>( "a" ), b = sym<bool>( "b" );
	daw::atomic<bool> x( a );
	CHECK( x.load( ) == a and x.load( ) == a );
	CHECK( x.exchange( b ) == a and x.load( ) == b );
	bool e = a;
	bool const ok = x.compare_exchange_strong( e, not b );
	CHECK( ok == ( a == b ) and e == ( ok ? a : b ) and x.load( ) == ( ok ? not b : b ) );
}
ENTRY atomic_double( ) {
	double const a = sym_range<int32_t>( "a", -1000, 1000 ), b = sym_range<int32_t>( "b", -1000, 1000 );
	daw::atomic<double> x( a );
	CHECK( x.load( ) == a );
	CHECK( x.fetch_add( b ) == a and x.load( ) == a + b );
	x = a;
	CHECK( x.fetch_sub( b ) == a and x.load( ) == a - b );
	x = a;
	CHECK( ( x += b ) == a + b and x.load( ) == a + b );
	x = a;
	CHECK( ( x -= b ) == a - b and x.load( ) == a - b );
	CHECK( x.exchange( a ) == a - b and x.load( ) == a );
}

