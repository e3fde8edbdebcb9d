// keep_n, array makers, simple_array, unique_array_t, uninitialized_storage, move_only, named options, piecewise factories
//@ bounds: keep_n of 1..3 from <=4 (5) insertions, arrays of <=4 elements; values complete
#include "stdrt.h"
#include "common.h"
#include <daw/daw_keep_n.h>
#include <daw/daw_array.h>
#include <daw/daw_simple_array.h>
#include <daw/daw_unique_array.h>
#include <daw/daw_uninitialized_storage.h>
#include <daw/daw_move_only.h>
#include <daw/daw_named_params.h>
#include <daw/daw_piecewise_factory.h>
#include <string>

namespace {
	template<typename T, std::size_t N, daw::keep_n_order O>
	void keep( unsigned count ) {
		T const def = sym<T>( "default" );
		daw::keep_n<T, N, O> k( def );
		T all[N + 8];
		std::size_t n = N;
		for( std::size_t i = 0; i < N; ++i ) {
			all[i] = def;
		}
		CHECK( k.size( ) == N and k.capacity( ) == N );
		for( unsigned i = 0; i < count; ++i ) {
			T v = sym<T>( "v" );
			all[n++] = v;
			if( i & 1u ) {
				k.insert( v );
			} else {
				k.insert( std::move( v ) );
			}
		}
		// ranks: the kept values are in order and are the first N of all offered ones
		auto before = []( T a, T b ) {
			return O == daw::keep_n_order::ascending ? a < b : b < a;
		};
		for( std::size_t i = 1; i < N; ++i ) {
			CHECK( not before( k[i], k[i - 1] ) );
		}
		for( std::size_t i = 0; i < N; ++i ) {
			// k[i] is offered, at most i values come before it, at least i+1 are not after it
			bool in = false;
			std::size_t less = 0, upto = 0;
			for( std::size_t j = 0; j < n; ++j ) {
				in |= all[j] == k[i];
				less += before( all[j], k[i] ) ? 1u : 0u;
				upto += before( k[i], all[j] ) ? 0u : 1u;
			}
			CHECK( in and less <= i and upto >= i + 1 );
		}
		CHECK( &k.front( ) == &k[0] and &k.back( ) == &k[N - 1] and k.begin( ) == k.cbegin( ) and k.end( ) == k.cend( ) and k.end( ) - k.begin( ) == static_cast<std::ptrdiff_t>( N ) and &*k.begin( ) == &k[0] );
	}
} // namespace
//@ q:k=4 t:k=5
ENTRY keep_smallest( ) {
	auto const c = static_cast<unsigned>( sym_pick( "count", 0, static_cast<int>( sym_param( "k", 4 ) ) ) );
	keep<int16_t, 3, daw::keep_n_order::ascending>( c );
}
ENTRY keep_one( ) {
	auto const c = static_cast<unsigned>( sym_pick( "count", 0, 3 ) );
	if( sym<bool>( "up" ) ) {
		keep<uint8_t, 1, daw::keep_n_order::ascending>( c );
	} else {
		keep<uint8_t, 1, daw::keep_n_order::descending>( c );
	}
}
//@ q:k=4 t:k=5
ENTRY keep_largest( ) {
	auto const c = static_cast<unsigned>( sym_pick( "count", 0, static_cast<int>( sym_param( "k", 4 ) ) ) );
	keep<int16_t, 3, daw::keep_n_order::descending>( c );
}
ENTRY keep_objects( ) {
	LeakGuard g;
	{
		daw::keep_n<Track, 2> k( Track( 100 ) );
		uint32_t v[3];
		for( uint32_t &x : v ) {
			x = sym_range<uint8_t>( "v", 0, 99 );
			if( sym<bool>( "by move" ) ) {
				k.insert( Track( x ) );
			} else {
				Track const t( x );
				k.insert( t );
				CHECK( t.v == x );
			}
		}
		uint32_t const lo = std::min( std::min( v[0], v[1] ), v[2] );
		uint32_t const hi = std::max( std::max( v[0], v[1] ), v[2] );
		CHECK( k[0].v == lo and k[1].v == v[0] + v[1] + v[2] - lo - hi );
	}
}
ENTRY array_makers( ) {
	int16_t const a = sym<int16_t>( "a" ), b = sym<int16_t>( "b" ), c = sym<int16_t>( "c" );
	int16_t raw[3] = { a, b, c };
	auto const t = daw::to_array( raw );
	static_assert( std::is_same_v<decltype( t ), std::array<int16_t, 3> const> );
	CHECK( t[0] == a and t[1] == b and t[2] == c );
	int16_t const craw[2] = { b, a };
	auto const ct = daw::to_array( craw );
	CHECK( ct[0] == b and ct[1] == a );
	auto const m = daw::make_array( a, b, c );
	static_assert( std::is_same_v<decltype( m ), std::array<int16_t, 3> const> );
	CHECK( m[0] == a and m[1] == b and m[2] == c );
	auto const w = daw::make_array( a, int64_t{ b } );
	static_assert( std::is_same_v<decltype( w ), std::array<int64_t, 2> const> );
	CHECK( w[0] == a and w[1] == b );
	auto const e = daw::make_array<int64_t>( a, b );
	CHECK( e.size( ) == 2 and e[0] == a and e[1] == b );
	auto const br = daw::make_array( { a, b, c } );
	CHECK( br.size( ) == 3 and br[0] == a and br[1] == b and br[2] == c );
	auto const s = daw::make_string_array( "ab", std::string( "c" ) );
	CHECK( s.size( ) == 2 and s[0] == "ab" and s[1] == "c" );
	daw::md_stdarray_t<int16_t, 2, 3> md{ };
	md[1][2] = a;
	static_assert( sizeof( md ) == 6 * sizeof( int16_t ) );
	CHECK( md.size( ) == 2 and md[0].size( ) == 3 and md[1][2] == a and md[0][2] == 0 );
}
ENTRY simple_arrays( ) {
	int16_t v[4];
	for( auto &x : v ) {
		x = sym<int16_t>( "v" );
	}
	daw::simple_array<int16_t, 4> a{ v[0], v[1], v[2], v[3] };
	auto const &c = a;
	CHECK( a.size( ) == 4 and a.end( ) - a.begin( ) == 4 and a.data( ) == a.begin( ) and a.date_end( ) == a.end( ) );
	CHECK( c.begin( ) == a.begin( ) and c.end( ) == a.end( ) and c.data( ) == a.data( ) and c.date_end( ) == a.end( ) );
	std::size_t const i = sym_range<uint8_t>( "i", 0, 3 );
	CHECK( &a[i] == a.begin( ) + i and &c[i] == &a[i] and a[i] == v[i] );
	a[i] = 3;
	unsigned n = 0;
	for( auto x : c ) {
		CHECK( x == ( n == i ? 3 : v[n] ) );
		++n;
	}
	CHECK( n == 4 );
	int16_t l = v[0];
	daw::simple_array d = { l, v[1] };
	static_assert( std::is_same_v<decltype( d ), daw::simple_array<int16_t, 2>> );
	CHECK( d[0] == v[0] and d[1] == v[1] and d.values + 0 == d.data( ) );
	daw::simple_array<int16_t, 0> z{ };
	auto const &cz = z;
	CHECK( z.size( ) == 0 and z.begin( ) == z.end( ) and z.data( ) == z.date_end( ) and cz.begin( ) == cz.end( ) and cz.data( ) == cz.date_end( ) );
}
ENTRY unique_arrays( ) {
	LeakGuard g;
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	uint32_t const x = sym<uint32_t>( "x" ), y = sym<uint32_t>( "y" );
	{
		daw::unique_array_t<Track> e;
		CHECK( e.size( ) == 0 and e.empty( ) and e.begin( ) == e.end( ) );
		daw::unique_array_t<Track> a( n, x );
		auto const &c = a;
		CHECK( a.size( ) == n and a.capacity( ) == n and a.empty( ) == ( n == 0 ) and a.end( ) - a.begin( ) == static_cast<std::ptrdiff_t>( n ) and c.begin( ) == a.begin( ) and c.end( ) == a.end( ) and c.cbegin( ) == a.begin( ) and c.cend( ) == a.end( ) );
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK( a[i].v == x and &c[i] == a.begin( ) + i );
		}
		std::size_t const p = sym<std::size_t>( "p" );
		bool in = true;
		try {
			CHECK( a.at( p ).v == x and &c.at( p ) == &a[p] );
		} catch( std::out_of_range const & ) { in = false; }
		CHECK( in == ( p < n ) );
		in = true;
		try {
			(void)c.at( p );
		} catch( std::out_of_range const & ) { in = false; }
		CHECK( in == ( p < n ) );
		if( n ) {
			CHECK( &a.front( ) == &a[0] and &a.back( ) == &a[n - 1] and &c.front( ) == &a[0] and &c.back( ) == &a[n - 1] );
			a[n - 1] = Track( 7 );
		}
		auto const *at = a.begin( );
		daw::unique_array_t<Track> b( std::move( a ) );
		CHECK( a.empty( ) and a.size( ) == 0 and b.begin( ) == at and b.size( ) == n );
		daw::unique_array_t<Track> d( 2u );
		d = std::move( b );
		CHECK( b.empty( ) and b.size( ) == 0 and d.size( ) == n and d.begin( ) == at );
		auto &self = d;
		d = std::move( self );
		CHECK( d.size( ) == n and d.begin( ) == at );
		if( n ) {
			CHECK( d[n - 1].v == 7 );
		}
		d = std::move( e );
		CHECK( d.empty( ) and d.size( ) == 0 and e.empty( ) );
	}
	CHECK( not std::is_copy_constructible_v<daw::unique_array_t<Track>> and not std::is_copy_assignable_v<daw::unique_array_t<Track>> );
	{
		daw::unique_array_t<Track> held( n, y );
		daw::unique_array_t<Track> over( 2u, x );
		over = std::move( held );
		CHECK( over.size( ) == n and held.size( ) == 0 );
	}
	daw::unique_array_t<uint32_t> ints( n );
	for( std::size_t i = 0; i < n; ++i ) {
		ints[i] = x;
	}
	CHECK( ints.size( ) == n );
}
ENTRY raw_storage( ) {
	LeakGuard g;
	uint32_t const x = sym<uint32_t>( "x" );
	daw::uninitialized_storage<Track> s{ };
	auto const &c = s;
	static_assert( sizeof( s ) == sizeof( Track ) and alignof( decltype( s ) ) == alignof( Track ) );
	s.construct( x );
	CHECK( s->v == x and c->v == x and ( *s ).v == x and ( *c ).v == x );
	CHECK( s.ptr( ) == &s.ref( ) and c.ptr( ) == s.ptr( ) and s.cptr( ) == s.ptr( ) and &c.cref( ) == s.ptr( ) );
	CHECK( static_cast<void *>( s.raw_data( ) ) == static_cast<void *>( s.ptr( ) ) and c.raw_data( ) == s.raw_data( ) );
	{
		Track const t = s.rref( );
		CHECK( t.v == x );
	}
	s.destruct( );
	struct Agg {
		int8_t a;
		int64_t b;
	};
	daw::uninitialized_storage<Agg> q{ };
	q.construct( static_cast<int8_t>( x ), int64_t{ x } );
	CHECK( q->a == static_cast<int8_t>( x ) and q->b == x );
	q.destruct( );
	daw::uninitialized_storage<uint32_t> i{ };
	i.construct( x );
	CHECK( *i == x );
	*i = 4;
	CHECK( i.cref( ) == 4 );
}
ENTRY move_only_values( ) {
	LeakGuard g;
	uint32_t const x = sym<uint32_t>( "x" ), y = sym<uint32_t>( "y" );
	using M = daw::move_only<Track>;
	CHECK( not std::is_copy_constructible_v<M> and not std::is_copy_assignable_v<M> and std::is_move_constructible_v<M> and std::is_move_assignable_v<M> and std::is_default_constructible_v<M> );
	using MV = daw::move_only<void>;
	CHECK( not std::is_copy_constructible_v<MV> and not std::is_copy_assignable_v<MV> and std::is_move_constructible_v<MV> and std::is_move_assignable_v<MV> and std::is_default_constructible_v<MV> );
	M def;
	CHECK( def.get( ).get( ) == 0 );
	Track const t( x );
	M a( t );
	M b( Track{ y } );
	CHECK( a.get( ).v == x and b->v == y and static_cast<Track &>( a ).v == x );
	M c( std::move( a ) );
	auto const &cc = c;
	CHECK( c.get( ).v == x and cc.get( ).v == x and cc->v == x and static_cast<Track const &>( cc ).v == x );
	c = std::move( b );
	CHECK( c.get( ).v == y );
	daw::move_only m( x ), n( y );
	CHECK( ( m == n ) == ( x == y ) and ( m < n ) == ( x < y ) and ( m >= n ) == ( x >= y ) );
}
namespace {
	auto const first = DAW_MAKE_NAMED_OPTION( int, first, 11 );
	auto const second = DAW_MAKE_NAMED_OPTION( int, second, 22 );
	auto const third = DAW_MAKE_NAMED_OPTION( long, third, 33 );
	auto const owned = DAW_MAKE_NAMED_UNIQUE_OPTION( std::unique_ptr<int>, owned, nullptr );
	template<daw::nparam::Options... O>
	void options( int f, int s, long t, O &&...o ) {
		CHECK( daw::nparam::get_opt( first, o... ) == f );
		CHECK( daw::nparam::get_opt( second, o... ) == s );
		CHECK( daw::nparam::get_opt( third, o... ) == t );
	}
} // namespace
ENTRY named_options( ) {
	LeakGuard g;
	int const x = sym<int>( "x" ), y = sym<int>( "y" );
	long const z = sym<long>( "z" );
	options( 11, 22, 33 );
	options( x, 22, 33, first = x );
	options( 11, x, 33, second = x );
	options( x, y, 33, second = y, first = x );
	options( x, y, 33, first = x, second = y );
	options( x, y, z, third = z, second = y, first = x );
	options( 11, y, z, second = y, third = z );
	CHECK( first.value == 11 and second.value == 22 );
	auto const f1 = ( first = x ), f2 = ( first = y );
	CHECK( ( f1 == f2 ) == ( x == y ) and ( f1 < f2 ) == ( x < y ) );
	auto o = ( owned = std::make_unique<int>( x ) );
	CHECK( *o.value == x and owned.value == nullptr );
}
namespace {
	struct Made {
		int8_t a;
		int64_t b;
		uint16_t c;
	};
} // namespace
ENTRY factories( ) {
	int8_t const a = sym<int8_t>( "a" ), a2 = sym<int8_t>( "a2" );
	int64_t const b = sym<int64_t>( "b" );
	uint16_t const c = sym<uint16_t>( "c" );
	daw::piecewise_factory_t<Made, int8_t, int64_t, uint16_t> f;
	unsigned const order = static_cast<unsigned>( sym_pick( "order", 0, 2 ) );
	for( unsigned i = 0; i < 3; ++i ) {
		switch( ( order + i ) % 3 ) {
		case 0:
			f.set<0>( a );
			break;
		case 1:
			f.set( 1, b );
			break;
		default:
			f.set<2>( c );
		}
	}
	Made m = f( );
	CHECK( m.a == a and m.b == b and m.c == c );
	f.set( 0, a2 );
	auto const &cf = f;
	m = cf( );
	CHECK( m.a == a2 and m.b == b and m.c == c );
	std::size_t const far = sym<std::size_t>( "far" );
	sym_assume( far >= 3 );
	CHECK( throws_as<std::out_of_range>( [&] { f.set( far, a ); } ) );
	m = std::move( f )( );
	CHECK( m.a == a2 and m.b == b and m.c == c );
}
ENTRY late_factories( ) {
	LeakGuard g;
	int const a = sym<int>( "a" ), b = sym<int>( "b" ), d = sym<int>( "d" );
	int x = a;
	int calls = 0;
	daw::piecewise_factory_late_t<std::pair<int, int>, int, int> f;
	f.set<0>( [&] { ++calls; return x; } );
	f.set<1>( b );
	CHECK( calls == 0 );
	auto p = f( );
	CHECK( calls == 1 and p.first == a and p.second == b );
	x = d;
	p = f( );
	CHECK( calls == 2 and p.first == d and p.second == b );
	f.set<0>( b );
	p = f( );
	CHECK( calls == 2 and p.first == b and p.second == b );
}
