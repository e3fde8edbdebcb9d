#include "common.h"
#include <daw/daw_observer_ptr.h>
#include <daw/daw_prop_const_ptr.h>
#include <daw/daw_not_null.h>
#include <daw/daw_safe_pointer.h>
#include <daw/daw_rw_ref.h>
#include <daw/daw_reference.h>
#include <daw/daw_read_only.h>

using U = uint32_t;
struct B { U n; };
struct D : B { U k; };
template<typename P, typename Q, typename X>
static void order( P const &a, Q const &b, X *x, X *y ) {
	std::less<X *> lt;
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) and ( a < b ) == lt( x, y ) and ( a > b ) == lt( y, x ) and ( a <= b ) == not lt( y, x ) and ( a >= b ) == not lt( x, y ) );
}
//@ bounds: null or not, positions in one array of 3, all values
ENTRY observer( ) {
	U x[3]; sym_bytes( x, sizeof( x ), "x" );
	using P = daw::observer_ptr<U>;
	unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 3 ) ), j = static_cast<unsigned>( sym_pick( "j", 0, 3 ) );
	U *p = i == 3 ? nullptr : x + i, *q = j == 3 ? nullptr : x + j;
	P a( p ), b, c( q );
	CHECK( not b and b.get( ) == nullptr and a.get( ) == p and static_cast<bool>( a ) == ( p != nullptr ) and static_cast<U *>( a ) == p );
	order( a, c, p, q );
	CHECK( ( a == q ) == ( p == q ) and ( a != q ) == ( p != q ) and ( a < q ) == std::less<U *>{ }( p, q ) and ( a >= q ) == not std::less<U *>{ }( p, q ) );
	if( p ) { CHECK( &*a == p and &a.value( ) == p and a.operator->( ) == p ); *a = 5; CHECK( x[i] == 5 ); }
	bool called = false;
	CHECK( a.and_then( [&]( auto o ) { called = true; return *o; } ) == ( p ? 5u : 0u ) and called == ( p != nullptr ) );
	auto const &ca = a;
	CHECK( ca.or_else( [&] { return P( x ); } ).get( ) == ( p ? p : x ) and ca.transform( []( auto o ) { return o.get( ); } ) == p and a.transform( []( auto o ) { return o.get( ); } ) == p );
	b = q; CHECK( b.get( ) == q );
	switch( sym_pick( "op", 0, 3 ) ) {
	case 0: CHECK( a.release( ) == p and not a ); break;
	case 1: a.reset( ); CHECK( not a ); break;
	case 2: a.reset( q ); CHECK( a.get( ) == q ); break;
	default: *a.get_out( ) = q; CHECK( a.get( ) == q ); break;
	}
	D d{ }; daw::observer_ptr<D> od( &d ); daw::observer_ptr<B> ob( od ); CHECK( ob.get( ) == &d );
	sym_reach( "end" );
}
//@ bounds: null access refused
ENTRY observer_null( ) {
	daw::observer_ptr<U> const a;
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 2 ) );
	sym_expect_terminate( true );
	if( op == 0 ) (void)*a; else if( op == 1 ) (void)a.value( ); else (void)a.operator->( );
	CHECK( false );
}
//@ bounds: positions in one array of 4
ENTRY prop_const( ) {
	U x[4]; sym_bytes( x, sizeof( x ), "x" );
	using P = daw::prop_const_ptr<U>;
	using C = daw::prop_const_ptr<U const>;
	unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 3 ) ), j = static_cast<unsigned>( sym_pick( "j", 0, 3 ) );
	P a( x + i ), b( x + j );
	P const ca( a );
	static_assert( std::is_same_v<decltype( *a ), U &> and std::is_same_v<decltype( *ca ), U const &> and std::is_same_v<decltype( ca.get( ) ), U const *> and std::is_same_v<decltype( ca[0] ), U const &> and std::is_same_v<decltype( ca.operator->( ) ), U const *> );
	CHECK( &*a == x + i and &*ca == x + i and a.operator->( ) == x + i and ca.operator->( ) == x + i and a.get( ) == x + i and ca.get( ) == x + i );
	CHECK( &a[static_cast<int>( j ) - static_cast<int>( i )] == x + j and &ca[static_cast<int>( j ) - static_cast<int>( i )] == x + j );
	CHECK( b - a == static_cast<int>( j ) - static_cast<int>( i ) );
	order( a, b, x + i, x + j );
	std::ptrdiff_t d = static_cast<int>( j ) - static_cast<int>( i );
	C c( a ); CHECK( c.get( ) == x + i ); c = b; CHECK( c.get( ) == x + j and c - a == d );
	C k = ca; CHECK( k.get( ) == x + i );
	switch( sym_pick( "op", 0, 7 ) ) {
	case 0: CHECK( ( ++a ).get( ) == x + i + 1 and a.get( ) == x + i + 1 ); break;
	case 1: CHECK( ( a++ ).get( ) == x + i and a.get( ) == x + i + 1 ); break;
	case 2: if( i > 0 ) CHECK( ( --a ).get( ) == x + i - 1 and a.get( ) == x + i - 1 ); break;
	case 3: if( i > 0 ) CHECK( ( a-- ).get( ) == x + i and a.get( ) == x + i - 1 ); break;
	case 4: CHECK( ( a += d ).get( ) == x + j and a == b ); break;
	case 5: CHECK( ( b -= d ).get( ) == x + i and a == b ); break;
	case 6: CHECK( ( a + d ).get( ) == x + j and a.get( ) == x + i ); break;
	default: CHECK( ( ca + d ).get( ) == x + j ); break;
	}
	sym_reach( "end" );
}
//@ bounds: a null pointer is refused
ENTRY prop_const_null( ) {
	U x = 0; U *p = sym_bool( "n" ) ? nullptr : &x;
	if( not p ) sym_expect_terminate( true );
	daw::prop_const_ptr<U> a( p );
	CHECK( p != nullptr and a.get( ) == p );
	sym_reach( "ok" );
}
//@ bounds: positions in one array of 4
ENTRY not_null_ops( ) {
	U x[4]; sym_bytes( x, sizeof( x ), "x" );
	using P = daw::not_null<U *>;
	unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 3 ) ), j = static_cast<unsigned>( sym_pick( "j", 0, 3 ) );
	U *p = x + i, *q = x + j;
	P a( p ), b( daw::never_null, q );
	P const ca( a );
	CHECK( a.get( ) == p and ca.get( ) == p and &*a == p and &*ca == p and a.operator->( ) == p and ca.operator->( ) == p and static_cast<U *>( a ) == p and static_cast<U *>( ca ) == p );
	std::ptrdiff_t d = static_cast<int>( j ) - static_cast<int>( i );
	CHECK( &a[d] == q and ca - b == -d and b - a == d );
	order( a, b, p, q ); order( a, q, p, q ); order( p, b, p, q );
	CHECK( std::hash<P>{ }( a ) == std::hash<U *>{ }( p ) );
	switch( sym_pick( "op", 0, 10 ) ) {
	case 0: CHECK( ( ++a ).get( ) == p + 1 and a.get( ) == p + 1 ); break;
	case 1: CHECK( ( a++ ).get( ) == p and a.get( ) == p + 1 ); break;
	case 2: if( i > 0 ) CHECK( ( --a ).get( ) == p - 1 and a.get( ) == p - 1 ); break;
	case 3: if( i > 0 ) CHECK( ( a-- ).get( ) == p and a.get( ) == p - 1 ); break;
	case 4: CHECK( ( a += d ).get( ) == q and a == b ); break;
	case 5: CHECK( ( b -= d ).get( ) == p and a == b ); break;
	case 6: CHECK( ( a + d ).get( ) == q and a.get( ) == p ); break;
	case 7: CHECK( ( d + a ).get( ) == q and a.get( ) == p ); break;
	case 8: CHECK( ( b - d ).get( ) == p and b.get( ) == q ); break;
	case 9: a = q; CHECK( a.get( ) == q ); break;
	default: if( i <= j ) { a += static_cast<unsigned char>( j - i ); CHECK( a == b ); a -= static_cast<unsigned>( j - i ); CHECK( a.get( ) == p ); } break;
	}
	sym_reach( "end" );
}
//@ bounds: null refused however it arrives
ENTRY not_null_null( ) {
	U x = 0;
	U *p = sym_bool( "n" ) ? nullptr : &x;
	bool assign = sym_bool( "assign" );
	if( assign ) {
		daw::not_null<U *> a( &x );
		if( not p ) sym_expect_terminate( true );
		a = p;
		CHECK( p and a.get( ) == p );
	} else {
		if( not p ) sym_expect_terminate( true );
		daw::not_null<U *> a( p );
		CHECK( p and a.get( ) == p );
	}
	sym_reach( "ok" );
}
//@ bounds: array of 3, every position, steps -4..4
ENTRY safe_ops( ) {
	using P = daw::memory::safe_pointer<U>;
	std::size_t n = 3;
	Arr<U> x( n, "x" );
	P a( x.p, n );
	CHECK( a.get( ) == x.p and a.get_base( ) == x.p and a.get_base_size( ) == n and static_cast<bool>( a ) );
	std::ptrdiff_t i = sym_pick( "i", 0, 3 );
	a += i;
	CHECK( a.get( ) == x.p + i and a.get_base( ) == x.p );
	std::ptrdiff_t d = static_cast<std::ptrdiff_t>( sym_pick( "d", 0, 8 ) ) - 4;
	bool ok = i + d >= 0 and i + d <= 3;
	bool in = i + d >= 0 and i + d < 3;
	P const ca( a );
	switch( sym_pick( "op", 0, 11 ) ) {
	case 0: if( not ok ) sym_expect_terminate( true ); a += d; CHECK( ok and a.get( ) == x.p + i + d ); break;
	case 1: if( not ok ) sym_expect_terminate( true ); a -= -d; CHECK( ok and a.get( ) == x.p + i + d ); break;
	case 2: if( not ok ) sym_expect_terminate( true ); { auto b = ca + d; CHECK( ok and b.get( ) == x.p + i + d and ca.get( ) == x.p + i and b - a == d and a - b == -d ); order( a, b, x.p + i, x.p + i + d ); } break;
	case 3: if( not ok ) sym_expect_terminate( true ); { auto b = ca - -d; CHECK( ok and b.get( ) == x.p + i + d ); } break;
	case 4: if( not in ) sym_expect_terminate( true ); { U &r = ca[d]; CHECK( in and &r == x.p + i + d ); } break;
	case 5: if( i == 3 ) sym_expect_terminate( true ); { U &r = *ca; CHECK( i < 3 and &r == x.p + i ); } break;
	case 6: if( i == 3 ) sym_expect_terminate( true ); CHECK( ( ++a ).get( ) == x.p + i + 1 and i < 3 ); break;
	case 7: if( i == 3 ) sym_expect_terminate( true ); { P b = a++; CHECK( b.get( ) == x.p + i and a.get( ) == x.p + i + 1 and i < 3 ); } break;
	case 8: if( i == 0 ) sym_expect_terminate( true ); CHECK( ( --a ).get( ) == x.p + i - 1 and i > 0 ); break;
	case 9: if( i == 0 ) sym_expect_terminate( true ); { P b = a--; CHECK( b.get( ) == x.p + i and a.get( ) == x.p + i - 1 and i > 0 ); } break;
	case 10: if( i == 3 ) sym_expect_terminate( true ); { U v = sym_u32( "v" ); *a = v; CHECK( x[static_cast<std::size_t>( i )] == v and i < 3 ); } break;
	default: CHECK( ca - x.p == i and ca.operator->( ) == x.p + i and ( a == nullptr ) == false and ( nullptr == a ) == false and ( a != nullptr ) and ( nullptr != a ) ); break;
	}
	sym_reach( "end" );
}
//@ bounds: single objects, arrays, void, destroyed and null pointers
ENTRY safe_misc( ) {
	using P = daw::memory::safe_pointer<U>;
	U x[3] = { 1, 2, 3 };
	U y = sym_u32( "y" );
	switch( sym_pick( "op", 0, 7 ) ) {
	case 0: { P a( x ); CHECK( a.get( ) == x and a.get_base_size( ) == 3 and a[2] == 3 ); P b( &y ); CHECK( *b == y and b.operator->( ) == &y and b.get_base( ) == &y ); break; }
	case 1: { P a( nullptr ); P b{ }; CHECK( not a and not b and a == nullptr and a == b ); sym_expect_terminate( true ); (void)*a; CHECK( false ); break; }
	case 2: { P a( x ); CHECK( a.destroy( ) == x and not a ); sym_expect_terminate( true ); (void)*a; CHECK( false ); break; }
	case 3: { P a( x ); ++a; CHECK( a.destroy( ) == x ); sym_expect_terminate( true ); ++a; CHECK( false ); break; }
	case 4: { U *n = nullptr; sym_expect_terminate( true ); P a( n ); CHECK( false ); break; }
	case 5: { P b( &y ); sym_expect_terminate( true ); ++b; CHECK( false ); break; }
	case 6: { daw::memory::safe_pointer<void> v( static_cast<void *>( x ) ); CHECK( v and v.get( ) == x and v == daw::memory::safe_pointer<void>( static_cast<void *>( x ) ) and v != nullptr ); auto c = static_cast<daw::memory::safe_pointer<void>>( P( x ) ); CHECK( c.get( ) == x ); CHECK( v.destroy( ) == x and not v ); break; }
	default: { P a( x ); a += 3; U w[1] = { }; P b( w ); sym_expect_terminate( true ); (void)( a - b ); CHECK( false ); break; }
	}
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY references( ) {
	U x = sym_u32( "x" ), y = sym_u32( "y" );
	U z[3]; sym_bytes( z, sizeof( z ), "z" );
	daw::rw_ref<U> r( x );
	daw::rw_ref<U> const cr( r );
	static_assert( std::is_same_v<decltype( cr.get( ) ), U const &> and std::is_same_v<decltype( cr( ) ), U const &> );
	CHECK( &r.get( ) == &x and &cr.get( ) == &x and &r( ) == &x and &cr( ) == &x and &static_cast<U &>( r ) == &x and &static_cast<U const &>( cr ) == &x );
	r.get( ) = y; CHECK( x == y );
	r = y; CHECK( &r.get( ) == &y and &cr.get( ) == &x );
	daw::Reference<U> a( z[0] ), b( z[1] );
	CHECK( &*a == z and &a.get( ) == z and ( a == b ) == ( z[0] == z[1] ) and ( a != b ) == ( z[0] != z[1] ) and ( a < b ) == ( z[0] < z[1] ) and ( a <= b ) == ( z[0] <= z[1] ) and ( a > b ) == ( z[0] > z[1] ) and ( a >= b ) == ( z[0] >= z[1] ) );
	CHECK( &*daw::ref( static_cast<U const *>( z ) ) == z and &*daw::ref( y ) == &y );
	std::size_t n = sym_pick( "n", 0, 3 );
	auto v = daw::to_reference_vector( z, z + n );
	CHECK( v.size( ) == n );
	for( std::size_t i = 0; i < n; ++i ) CHECK( &*v[i] == z + i );
	daw::read_only<U> o( x ), o2( U{ y } ), o3( o ), o4;
	CHECK( o.get( ) == x and static_cast<U const &>( o2 ) == y and o3.get( ) == x and o4.get( ) == 0 and std::move( o3 ).get( ) == x );
	static_assert( not std::is_assignable_v<daw::read_only<U> &, U> and not std::is_copy_assignable_v<daw::read_only<U>> );
	sym_reach( "end" );
}
