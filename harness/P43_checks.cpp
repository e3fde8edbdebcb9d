#include "common.h"
#include <daw/daw_exception.h>
#include <daw/daw_ensure.h>
#include <daw/daw_contract.h>
#include <daw/daw_check_exceptions.h>
#include <daw/daw_size_literals.h>
#include <daw/daw_any_if.h>
#include <daw/daw_logic.h>
#include <daw/daw_ordering_to_integer.h>
#include <string>
#include <vector>
using U = uint32_t;
namespace ex = daw::exception;
struct Plain { U n = 77; };
struct Val { U n; explicit Val( U x ) : n( x ) {} };
struct Two { U a, b; Two( U x, U y ) : a( x ), b( y ) {} };
struct NoDef { std::string s; explicit NoDef( char const *p ) : s( p ) {} };
struct Flag { bool b; explicit operator bool( ) const { return b; } };
enum class Got { nothing, runtime, val, two, plain, nodef, other };
struct Out { Got g = Got::nothing; U a = 0, b = 0; };
template<typename F> Out run( F f ) {
	try { f( ); } catch( Val const &v ) { return { Got::val, v.n, 0 }; } catch( Two const &t ) { return { Got::two, t.a, t.b }; } catch( Plain const &p ) { return { Got::plain, p.n, 0 }; } catch( NoDef const &p ) { return { Got::nodef, static_cast<U>( p.s.size( ) ), 0 }; }
	catch( std::runtime_error const &e ) { U n = 0; for( char const *p = e.what( ); *p; ++p ) ++n; return { Got::runtime, n, e.what( )[0] == 'm' }; } catch( ... ) { return { Got::other, 0, 0 }; }
	return { };
}
static void is( Out o, bool thrown, Got g, U a = 0, U b = 0 ) {
	if( thrown ) CHECK( o.g == g and o.a == a and o.b == b );
	else CHECK( o.g == Got::nothing );
}
//@ bounds: all conditions and values; every throwing helper
ENTRY throwing( ) {
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	is( run( [&] { ex::daw_throw<Plain>( ); } ), true, Got::plain, 77 );
	is( run( [&] { ex::daw_throw<NoDef>( ); } ), true, Got::nodef, 0 );
	is( run( [&] { ex::daw_throw<Val>( v ); } ), true, Got::val, v );
	is( run( [&] { ex::daw_throw<Two>( v, w ); } ), true, Got::two, v, w );
	is( run( [&] { ex::daw_throw( "message" ); } ), true, Got::runtime, 7, 1 );
	is( run( [&] { ex::daw_throw( ); } ), true, Got::runtime, 0, 0 );
	is( run( [&] { ex::debug_throw<Two>( v, w ); } ), true, Got::two, v, w );
	is( run( [&] { ex::debug_throw( "mess" ); } ), true, Got::runtime, 4, 1 );
	CHECK( run( [&] { ex::daw_throw_not_implemented( ); } ).g == Got::runtime and run( [&] { ex::daw_throw_unexpected_enum( ); } ).g == Got::runtime );
	CHECK( run( [&] { ex::daw_throw_not_implemented<NoDef>( ); } ).g == Got::nodef and run( [&] { ex::daw_throw_unexpected_enum<NoDef>( ); } ).g == Got::nodef );
	CHECK( throws_as<std::length_error>( [&] { ex::throw_length_error( "m" ); } ) and throws_as<std::out_of_range>( [&] { ex::throw_out_of_range( "m" ); } ) );
	is( run( [&] { DAW_THROW_OR_TERMINATE( Two, v, w ); } ), true, Got::two, v, w );
	is( run( [&] { DAW_THROW_OR_TERMINATE_NA( Plain ); } ), true, Got::plain, 77 );
	auto p = ex::make_exception_ptr<Two>( v, w );
	is( run( [&] { std::rethrow_exception( p ); } ), true, Got::two, v, w );
	sym_reach( "end" );
}
//@ bounds: all conditions, given as bool, integer or object convertible to bool
ENTRY conditional( ) {
	U v = sym_u32( "v" ), w = sym_u32( "w" ), i = sym_u32( "i" );
	bool c = i != 0;
	Flag f{ c };
	// throwing on a false condition
	is( run( [&] { ex::daw_throw_on_false( c ); } ), not c, Got::runtime );
	is( run( [&] { ex::daw_throw_on_false<Plain>( f ); } ), not c, Got::plain, 77 );
	is( run( [&] { ex::daw_throw_on_false<Val>( i, v ); } ), not c, Got::val, v );
	is( run( [&] { ex::daw_throw_on_false<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::daw_throw_on_false( f, "msg" ); } ), not c, Got::runtime, 3, 1 );
	is( run( [&] { ex::Assert( c, "msg" ); } ), not c, Got::runtime, 3, 1 );
	is( run( [&] { ex::Assert<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::DebugAssert<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::dbg_throw_on_false<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::dbg_throw_on_false<Val>( c, v ); } ), not c, Got::val, v );
	is( run( [&] { ex::precondition_check<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::precondition_check<Plain>( i ); } ), not c, Got::plain, 77 );
	is( run( [&] { ex::postcondition_check<Two>( f, v, w ); } ), not c, Got::two, v, w );
	is( run( [&] { ex::postcondition_check<Plain>( i ); } ), not c, Got::plain, 77 );
	is( run( [&] { DAW_DBG_PRECONDITION_CHECK( Val, c, v ); } ), not c, Got::val, v );
	// throwing on a true condition
	is( run( [&] { ex::daw_throw_on_true<Val>( f, v ); } ), c, Got::val, v );
	is( run( [&] { ex::daw_throw_on_true<Two>( c, v, w ); } ), c, Got::two, v, w );
	is( run( [&] { ex::daw_throw_on_true( i, "msg" ); } ), c, Got::runtime, 3, 1 );
	is( run( [&] { ex::dbg_throw_on_true<Val>( c, v ); } ), c, Got::val, v );
	is( run( [&] { ex::dbg_throw_on_true<Plain>( c ); } ), c, Got::plain, 77 );
	sym_reach( "end" );
}
//@ bounds: all conditions, values and pointers
ENTRY returning( ) {
	U v = sym_u32( "v" ), w = sym_u32( "w" ), x = sym_u32( "x" ), r = ~x;
	bool c = sym_bool( "c" );
	Flag f{ c };
	is( run( [&] { r = ex::daw_throw_on_false_or_return<Two>( U{ x }, f, v, w ); } ), not c, Got::two, v, w );
	CHECK( r == ( c ? x : ~x ) ); r = ~x;
	is( run( [&] { U const &k = ex::daw_throw_on_false_or_return<Val>( x, c, v ); CHECK( &k == &x ); r = k; } ), not c, Got::val, v );
	CHECK( r == ( c ? x : ~x ) ); r = ~x;
	is( run( [&] { r = ex::dbg_throw_on_false_or_return<Two>( x, c, v, w ); } ), not c, Got::two, v, w );
	CHECK( r == ( c ? x : ~x ) ); r = ~x;
	U z = x;
	is( run( [&] { U &k = ex::dbg_throw_on_true_or_return<Two>( z, c, v, w ); CHECK( &k == &z ); r = k; } ), c, Got::two, v, w );
	CHECK( r == ( c ? ~x : x ) ); r = ~x;
	is( run( [&] { U &k = ex::daw_throw_on_true_or_return<Two>( z, c, v, w ); CHECK( &k == &z ); r = k; } ), c, Got::two, v, w );
	CHECK( r == ( c ? ~x : x ) ); r = ~x;
	is( run( [&] { r = ex::daw_throw_on_true_or_return<Two>( U{ x }, f, v, w ); } ), c, Got::two, v, w );
	CHECK( r == ( c ? ~x : x ) ); r = ~x;
	is( run( [&] { r = ex::daw_throw_on_true_or_return<Plain>( U{ x }, not not c ); } ), c, Got::plain, 77 );
	CHECK( r == ( c ? ~x : x ) );
	// pointers
	U *p = sym_bool( "null" ) ? nullptr : &x; U const *cp = p;
	bool null = p == nullptr;
	is( run( [&] { ex::daw_throw_on_null<Val>( p, v ); } ), null, Got::val, v );
	is( run( [&] { ex::daw_throw_on_null<Two>( cp, v, w ); } ), null, Got::two, v, w );
	is( run( [&] { ex::daw_throw_on_null( p, "msg" ); } ), null, Got::runtime, 3, 1 );
	is( run( [&] { ex::dbg_throw_on_null<Val>( cp, v ); } ), null, Got::val, v );
	U const *q = &v;
	is( run( [&] { q = ex::daw_throw_on_null_or_return<Val>( p, v ); } ), null, Got::val, v );
	CHECK( q == ( null ? &v : p ) ); q = &v;
	is( run( [&] { q = ex::daw_throw_on_null_or_return<Two>( cp, v, w ); } ), null, Got::two, v, w );
	CHECK( q == ( null ? &v : p ) ); q = &v;
	is( run( [&] { q = ex::dbg_throw_on_null_or_return<Val>( p, v ); } ), null, Got::val, v );
	CHECK( q == ( null ? &v : p ) );
	// the condition itself is the value
	bool k = not c;
	is( run( [&] { k = ex::daw_throw_on_false_or_return<Plain>( f ); } ), not c, Got::plain, 77 );
	CHECK( not c or k ); k = not c;
	is( run( [&] { k = ex::dbg_throw_on_false_or_return<Plain>( c ); } ), not c, Got::plain, 77 );
	CHECK( not c or k ); k = true;
	is( run( [&] { k = ex::daw_throw_on_true_or_return<Plain>( f ); } ), c, Got::plain, 77 );
	CHECK( c or not k ); k = true;
	is( run( [&] { k = ex::dbg_throw_on_true_or_return<Plain>( c ); } ), c, Got::plain, 77 );
	CHECK( c or not k );
	sym_reach( "end" );
}
struct Code { U n; explicit operator bool( ) const { return n != 0; } };
//@ bounds: error values; containers of 0..3 elements
ENTRY values_and_containers( ) {
	U v = sym_u32( "v" );
	U got = ~v; bool t = false;
	try { ex::daw_throw_value_on_true( Code{ v } ); } catch( Code const &e ) { got = e.n; t = true; }
	CHECK( t == ( v != 0 ) and ( not t or got == v ) );
	t = false;
	try { ex::daw_throw_value_on_false( Code{ v } ); } catch( Code const &e ) { t = e.n == 0; }
	CHECK( t == ( v == 0 ) );
	size_t n = sym_pick( "n", 0, 3 );
	Arr<U> a( n, "a" );
	std::vector<U> c( a.p, a.p + n );
	bool any = false, all = true; size_t seen = 0, want = n;
	for( size_t i = n; i > 0; --i ) { any |= a[i - 1] == v; all &= a[i - 1] == v; want = a[i - 1] == v ? i : want; }
	is( run( [&] { ex::assert_all_false<Val>( c, v, [&]( U x ) { ++seen; return x == v; } ); } ), any, Got::val, v );
	CHECK( seen == want );
	is( run( [&] { ex::assert_all_true<Val>( c, v, [v]( U x ) { return x == v; } ); } ), not all, Got::val, v );
	is( run( [&] { ex::assert_all_true( c, "msg", [v]( U x ) { return x == v; } ); } ), not all, Got::runtime, 3, 1 );
	U calls = 0, sum = 0; bool th = sym_bool( "throw" );
	ex::no_exception( [&]( U x, U y ) { ++calls; sum = x + y; if( th ) throw Val( 1 ); }, v, 1u );
	CHECK( calls == 1 and sum == v + 1 );
	sym_reach( "end" );
}
//@ bounds: all conditions; every stopping helper
ENTRY stopping( ) {
	U i = sym_u32( "i" ), n = 0;
	Flag f{ i != 0 };
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
	auto go = [&] {
		if( op == 0 ) { daw_ensure( i ); }
		else if( op == 1 ) { daw_dbg_ensure( i != 0, f ); }
		else if( op == 2 ) ex::precondition_check( f, "message" );
		else if( op == 3 ) ex::postcondition_check( i );
		else if( op == 4 ) ex::dbg_precondition_check( f, n );
		else ex::dbg_postcondition_check( i != 0, n );
	};
	if( i != 0 ) { go( ); go( ); sym_reach( "passes" ); return; }
	sym_expect_terminate( true );
	go( );
	sym_assert( false, "a failed check did not stop the program" );
}
struct Even { constexpr bool operator( )( U x ) const { return x % 2 == 0; } };
struct Small { constexpr bool operator( )( U x ) const { return x < 100; } };
struct NotNull { constexpr bool operator( )( U const *x ) const { return x != nullptr; } };
//@ bounds: all values; one or two conditions
ENTRY contracts( ) {
	U v = sym_u32( "v" );
	using E = daw::contract<U, Even>;
	using ES = daw::contract<U, Even, Small>;
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 4 ) );
	bool even = v % 2 == 0, small = v < 100;
	auto bad = []( auto f ) { return throws_as<daw::daw_contract_violation>( f ); };
	if( op == 0 ) {
		CHECK( bad( [&] { E e( v ); CHECK( e.get( ) == v and *e == v and static_cast<U const &>( e ) == v and *e.operator->( ) == v and e.extract( ) == v ); } ) == not even );
	} else if( op == 1 ) {
		CHECK( bad( [&] { ES e( v ); CHECK( e.get( ) == v ); } ) == not( even and small ) );
	} else if( op == 2 ) {
		CHECK( bad( [&] { E e( v ); ES s = e.add_condition( Small{} ); CHECK( s.get( ) == v ); } ) == not( even and small ) );
	} else if( op == 3 ) {
		CHECK( bad( [&] { E e( v ); auto s = static_cast<daw::contract<U, Small>>( e ); CHECK( s.get( ) == v ); } ) == not( even and small ) );
		CHECK( std::is_same_v<E::add_precondition_t<Small>, ES> );
	} else {
		U const *p = sym_bool( "null" ) ? nullptr : &v;
		CHECK( bad( [&] { daw::contract<U const *, NotNull> e( p ); CHECK( e.get( ) == p and **e == v and e.operator->( ) == p ); } ) == ( p == nullptr ) );
	}
	sym_reach( "end" );
}
//@ bounds: all values and orderings
ENTRY small_helpers( ) {
	using namespace daw::size_literals;
	bool a = sym_bool( "a" ), b = sym_bool( "b" ), c = sym_bool( "c" );
	CHECK( daw::nsc_and( a ) == a and daw::nsc_and( a, b ) == ( a and b ) and daw::nsc_and( a, b, c ) == ( a and b and c ) );
	CHECK( daw::nsc_or( a ) == a and daw::nsc_or( a, b ) == ( a or b ) and daw::nsc_or( a, b, c ) == ( a or b or c ) );
	CHECK( daw::nsc_and( 2, 1, 4 ) and not daw::nsc_and( 2, 0 ) and daw::nsc_or( 0, 2 ) and not daw::nsc_or( 0, 0 ) );
	unsigned called = 0;
	CHECK( daw::any_if( a, [&] { ++called; return b; }, c ) == ( a and b and c ) );
	CHECK( called == ( a ? 1u : 0u ) );
	unsigned long long v = sym_u64( "v" );
	CHECK( operator""_KB( v ) == v * 1024 and operator""_MB( v ) == v * ( 1ull << 20 ) and operator""_GB( v ) == v * ( 1ull << 30 ) and operator""_TB( v ) == v * ( 1ull << 40 ) and operator""_PB( v ) == v * ( 1ull << 50 ) );
	int x = sym<int>( "x" ), y = sym<int>( "y" );
	auto o = x <=> y;
	CHECK( daw::order_to_enum( o ) == ( x < y ? daw::strong_ordering::less : x > y ? daw::strong_ordering::greater : daw::strong_ordering::equal ) );
	CHECK( daw::order_to_enum( std::weak_ordering( o ) ) == ( x < y ? daw::weak_ordering::less : x > y ? daw::weak_ordering::greater : daw::weak_ordering::equivalent ) );
	CHECK( daw::order_to_enum( std::partial_ordering( o ) ) == ( x < y ? daw::partial_ordering::less : x > y ? daw::partial_ordering::greater : daw::partial_ordering::equivalent ) );
	CHECK( daw::order_to_enum( std::partial_ordering::unordered ) == daw::partial_ordering::unordered );
	CHECK( daw::equal_or_equivalent( o ) == ( x == y ) and daw::equal_or_equivalent( std::weak_ordering( o ) ) == ( x == y ) and daw::equal_or_equivalent( daw::order_to_enum( o ) ) == ( x == y ) );
	CHECK( not daw::equal_or_equivalent( std::partial_ordering::unordered ) );
	sym_reach( "end" );
}
