#include "common.h"
#include <daw/daw_tuple_helper.h>
#include <daw/daw_apply.h>
#include <tuple>
//@ bounds: all element values and positions
ENTRY runtime_get( ) {
	int a = sym<int>( "a" );
	long b = sym<long>( "b" );
	char c = static_cast<char>( sym_u8( "c" ) );
	std::tuple<int, long, char> t{ a, b, c };
	size_t i = sym_pick( "i", 0, 2 );
	auto v = daw::get( t, i );
	CHECK( v.index( ) == i );
	if( i == 0 ) CHECK( &std::get<0>( v ).get( ) == &std::get<0>( t ) );
	if( i == 1 ) CHECK( &std::get<1>( v ).get( ) == &std::get<1>( t ) );
	if( i == 2 ) CHECK( &std::get<2>( v ).get( ) == &std::get<2>( t ) );
	auto const &ct = t;
	auto cv = daw::get( ct, i );
	CHECK( cv.index( ) == i );
	if( i == 1 ) CHECK( std::get<1>( cv ).get( ) == b );
	int hits = 0;
	size_t j = sym_pick( "j", 0, 4 );
	daw::tuple::apply_at( ct, j, [&]( int x ) { hits += 1; CHECK( x == a and j == 0 ); }, [&]( long x ) { hits += 10; CHECK( x == b and j == 1 ); }, [&]( char x ) { hits += 100; CHECK( x == c and j == 2 ); } );
	CHECK( hits == ( j == 0 ? 1 : j == 1 ? 10 : j == 2 ? 100 : 0 ) );
	hits = 0;
	daw::tuple::apply_at( t, j, [&]( auto &x ) { ++hits; x = 1; } );
	CHECK( hits == ( j < 3 ) and std::get<0>( t ) == ( j == 0 ? 1 : a ) and std::get<1>( t ) == ( j == 1 ? 1 : b ) and std::get<2>( t ) == ( j == 2 ? 1 : c ) );
	hits = 0;
	daw::tuple::apply_at( std::tuple<int, long>{ a, b }, j, [&]( auto x ) { ++hits; CHECK( x == ( j == 0 ? a : b ) ); } );
	CHECK( hits == ( j < 2 ) );
	sym_reach( "end" );
}
//@ bounds: position past the end
ENTRY runtime_get_past_end( ) {
	std::tuple<int, long> t{ 1, 2 };
	size_t i = sym_u64( "i" );
	sym_assume( i >= 2 );
	sym_reach( "call" );
	sym_expect_terminate( true );
	(void)daw::get( t, i );
	sym_assert( false, "returned an element for a position past the end" );
}
//@ bounds: all element values that do not overflow
ENTRY arithmetic( ) {
	using namespace daw::tuple::operators;
	int a[3], b[3], k = static_cast<int>( sym_range( "k", 1, 9 ) );
	for( int i = 0; i < 3; ++i ) {
		a[i] = static_cast<int>( sym_range( "a", 0, 99 ) );
		b[i] = static_cast<int>( sym_range( "b", 1, 9 ) );
	}
	std::tuple<int, long, int> x{ a[0], a[1], a[2] }, y{ b[0], b[1], b[2] };
	auto is = [&]( auto const &t, auto f ) { CHECK( std::get<0>( t ) == f( 0 ) and std::get<1>( t ) == f( 1 ) and std::get<2>( t ) == f( 2 ) ); };
	is( x + y, [&]( int i ) { return a[i] + b[i]; } );
	is( x - y, [&]( int i ) { return a[i] - b[i]; } );
	is( x * y, [&]( int i ) { return a[i] * b[i]; } );
	is( x / y, [&]( int i ) { return a[i] / b[i]; } );
	is( x + k, [&]( int i ) { return a[i] + k; } );
	is( x - k, [&]( int i ) { return a[i] - k; } );
	is( x * k, [&]( int i ) { return a[i] * k; } );
	is( x / k, [&]( int i ) { return a[i] / k; } );
	is( k + y, [&]( int i ) { return k + b[i]; } );
	is( k - y, [&]( int i ) { return k - b[i]; } );
	is( k * y, [&]( int i ) { return k * b[i]; } );
	is( k / y, [&]( int i ) { return k / b[i]; } );
	is( ( daw::tuple::min )( x, y ), [&]( int i ) { return a[i] < b[i] ? a[i] : b[i]; } );
	is( ( daw::tuple::max )( x, y ), [&]( int i ) { return a[i] < b[i] ? b[i] : a[i]; } );
	sym_reach( "end" );
}
struct Agg {
	int p;
	long q;
};
struct Ctor {
	long s;
	Ctor( int p, long q ) : s( q - p ) {}
	int add( int z ) const { return static_cast<int>( s ) + z; }
	long const &get_s( ) const { return s; }
};
//@ bounds: all element values
ENTRY visiting( ) {
	int a = static_cast<int>( sym_range( "a", 0, 1000 ) );
	long b = static_cast<long>( sym_range( "b", 0, 1000 ) );
	std::tuple<int, long> t{ a, b };
	int n = 0;
	long seen[2] = { };
	daw::tuple::for_each( t, [&]( auto const &v ) { seen[n++] = v; } );
	CHECK( n == 2 and seen[0] == a and seen[1] == b );
	daw::tuple::apply( t, [&]( auto &v ) { v += 1; } );
	CHECK( std::get<0>( t ) == a + 1 and std::get<1>( t ) == b + 1 );
	auto g = daw::make_from_tuple2<Agg>( t );
	CHECK( g.p == a + 1 and g.q == b + 1 );
	CHECK( daw::make_from_tuple2<Ctor>( t ).s == b - a );
	int lv = 4;
	auto f = daw::forward_nontemp_as_tuple( lv, 5, b );
	lv = 8;
	b = 9;
	CHECK( std::get<0>( f ) == 8 and std::get<1>( f ) == 5 and std::get<2>( f ) == 9 and &std::get<0>( f ) == &lv );
	static_assert( daw::tuple_size_v<std::tuple<int, int> const &> == 2 );
	CHECK( daw::apply( []( int p, long q ) { return p * 2 + q; }, std::tuple<int, long>{ 3, 4 } ) == 10 );
	CHECK( daw::apply( []( int p, long q ) { return p * 2 + q; }, t ) == std::get<0>( t ) * 2 + std::get<1>( t ) );
	daw::apply( []( int &p, long & ) { p = 50; }, t );
	CHECK( std::get<0>( t ) == 50 );
	CHECK( daw::apply<false>( []( int p, long q ) { return p - q; }, std::tuple<int, long>{ 30, 4 } ) == 26 );
	CHECK( daw::apply( []( ) { return 6; }, std::tuple<>{ } ) == 6 );
	Ctor c( 2, 12 );
	CHECK( daw::invoke( &Ctor::add, c, 5 ) == 15 and daw::invoke( &Ctor::add, &c, 6 ) == 16 and daw::invoke( &Ctor::s, c ) == 10 and daw::invoke( &Ctor::s, &c ) == 10 );
	auto rc = std::ref( c );
	CHECK( daw::invoke( &Ctor::s, rc ) == 10 and daw::invoke( &Ctor::add, rc, 7 ) == 17 and daw::invoke( &Ctor::get_s, rc ) == 10 );
	daw::invoke( &Ctor::s, c ) = 3;
	CHECK( c.s == 3 and daw::apply( &Ctor::add, std::tuple<Ctor, int>{ c, 4 } ) == 7 );
	sym_reach( "end" );
}
