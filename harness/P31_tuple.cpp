#include "common.h"
#include <daw/daw_fwd_pack_apply.h>
#include <daw/daw_tuple.h>
#include <daw/daw_tuple2.h>
struct Empty {
	friend bool operator==( Empty const &, Empty const & ) { return true; }
	friend bool operator!=( Empty const &, Empty const & ) { return false; }
};
struct Pt {
	int x, y;
};
struct Fin final {
	int x;
};
//@ bounds: all element values; value, empty, class and reference elements
ENTRY tuple_elements( ) {
	int a = sym<int>( "a" );
	unsigned char b = sym_u8( "b" );
	long c = sym<long>( "c" );
	daw::tuple<int, unsigned char, Empty, long> t( a, b, Empty{ }, c );
	CHECK( t.get<0>( ) == a and t.get<1>( ) == b and t.get<3>( ) == c );
	auto const &ct = t;
	CHECK( ct.get<0>( ) == a and daw::get<1>( ct ) == b and daw::get<3>( t ) == c );
	CHECK( daw::get<3>( daw::tuple<int, unsigned char, Empty, long>( a, b, Empty{ }, c ) ) == c );
	t.get<1>( ) = static_cast<unsigned char>( b + 1 );
	daw::get<0>( t ) = a ^ 5;
	CHECK( t.get<0>( ) == ( a ^ 5 ) and t.get<1>( ) == static_cast<unsigned char>( b + 1 ) and t.get<3>( ) == c );
	static_assert( std::tuple_size<decltype( t )>::value == 4 );
	static_assert( std::is_same_v<std::tuple_element<3, decltype( t )>::type, long> );
	auto cp = t;
	CHECK( cp == t and not( cp != t ) );
	cp.get<3>( ) = sym<long>( "c2" );
	CHECK( ( cp == t ) == ( cp.get<3>( ) == c ) and ( cp != t ) == ( cp.get<3>( ) != c ) );
	int k = sym<int>( "k" );
	daw::tuple<int, int> p( a, k ), q( k, a );
	CHECK( ( p == q ) == ( a == k ) and ( p != q ) == ( a != k ) );
	daw::tuple<long, long> pl( a, k );
	CHECK( p == pl and not( p != pl ) );
	CHECK( not( p == daw::tuple<int, int, int>( a, k, k ) ) and p != daw::tuple<int>( a ) );
	daw::tuple<Empty, Empty> ee{ };
	CHECK( ee == ee and &ee.get<0>( ) != nullptr );
	sym_reach( "end" );
}
//@ bounds: all element values
ENTRY tuple_refs( ) {
	int a = sym<int>( "a" ), b = sym<int>( "b" ), x = 0, y = 0;
	int const a0 = a;
	auto t = daw::tie( a, b );
	t.get<1>( ) = 9;
	CHECK( b == 9 and &t.get<0>( ) == &a );
	auto f = daw::forward_as_tuple( a, 7 );
	CHECK( f.get<0>( ) == a0 and f.get<1>( ) == 7 );
	f.get<0>( ) = 3;
	CHECK( a == 3 );
	auto m = daw::make_tuple( a, std::ref( b ), 4L );
	m.get<0>( ) = 100;
	m.get<1>( ) = 200;
	CHECK( a == 3 and b == 200 and m.get<2>( ) == 4 and m.get<0>( ) == 100 );
	int r = daw::apply( []( int p, int &q, long s ) { q = 1; return p + static_cast<int>( s ); }, m );
	CHECK( r == 104 and b == 1 );
	auto const &cm = m;
	CHECK( daw::apply( []( int const &p, int q, long s ) { return p * 2 + q + static_cast<int>( s ); }, cm ) == 205 );
	CHECK( daw::apply( []( int p, int q ) { return p - q; }, daw::make_tuple( 10, 4 ) ) == 6 );
	daw::tuple tt{ 1, 2u };
	tt.get<0>( ) = x + 1;
	CHECK( tt.get<1>( ) == 2 and y == 0 );
	CHECK( daw::apply( []( int p, int q ) { return p ^ q; }, daw::fwd_pack{ a0, 2 } ) == ( a0 ^ 2 ) );
	sym_reach( "end" );
}
//@ bounds: all element values, one to four parts of one to three elements
ENTRY tuple2_cat( ) {
	int a = sym<int>( "a" ), b = sym<int>( "b" );
	long c = sym<long>( "c" );
	Pt p{ sym<int>( "x" ), sym<int>( "y" ) };
	daw::tuple2<int, long> t1{ a, c };
	daw::tuple2<int> t2{ b };
	daw::tuple2<Pt, int, Fin> t3{ p, 5, Fin{ a } };
	CHECK( daw::get<0>( t1 ) == a and daw::get<1>( t1 ) == c and daw::get<0>( t2 ) == b );
	auto const &c3 = t3;
	CHECK( daw::get<0>( c3 ).x == p.x and daw::get<0>( c3 ).y == p.y and daw::get<1>( c3 ) == 5 and daw::get<2>( c3 ).x == a );
	daw::get<0>( t3 ).x = 77;
	daw::get<1>( t3 ) = 6;
	CHECK( daw::get<0>( c3 ).x == 77 and daw::get<1>( c3 ) == 6 and daw::get<0>( c3 ).y == p.y );
	CHECK( daw::get<1>( daw::tuple2<int, long>{ a, c } ) == c and daw::get<0>( daw::tuple2<Pt>{ p } ).y == p.y );
	static_assert( t3.size( ) == 3 and daw::tuple2_size_v<decltype( t3 )> == 3 and daw::tuple2<>::size( ) == 0 );
	auto z = daw::tuple2_cat( t1, t2 );
	static_assert( std::is_same_v<decltype( z ), daw::tuple2<int, long, int>> );
	CHECK( daw::get<0>( z ) == a and daw::get<1>( z ) == c and daw::get<2>( z ) == b );
	auto w = daw::tuple2_cat( t2, t1, t1, t2 );
	CHECK( daw::get<0>( w ) == b and daw::get<1>( w ) == a and daw::get<2>( w ) == c and daw::get<3>( w ) == a and daw::get<4>( w ) == c and daw::get<5>( w ) == b );
	daw::get<3>( w ) = 1;
	CHECK( daw::get<0>( t1 ) == a and daw::get<1>( w ) == a );
	auto one = daw::tuple2_cat( t1 );
	CHECK( daw::get<0>( one ) == a and daw::get<1>( one ) == c );
	auto tmp = daw::tuple2_cat( daw::tuple2<int>{ a }, daw::tuple2<int, long>{ b, c } );
	CHECK( daw::get<0>( tmp ) == a and daw::get<1>( tmp ) == b and daw::get<2>( tmp ) == c );
	int hits = 0;
	CHECK( daw::apply( t1, [&]( int i, long l ) { ++hits; return i == a and l == c; } ) );
	daw::apply( t1, []( int &i, long & ) { i = 3; } );
	CHECK( daw::get<0>( t1 ) == 3 and hits == 1 );
	auto const ct = t1;
	CHECK( daw::apply( ct, []( int const &i, long ) { return i; } ) == 3 );
	CHECK( daw::apply( daw::tuple2<int, long>{ b, c }, []( int i, long l ) { return l ^ i; } ) == ( c ^ b ) );
	auto f = daw::forward_as_tuple2( a, b );
	CHECK( &daw::get<0>( f ) == &a and &daw::get<1>( f ) == &b );
	sym_reach( "end" );
}
