#include "common.h"
#include <daw/daw_poly_value.h>
#include <daw/daw_poly_var.h>
#include <daw/daw_union_pair.h>
#include <daw/daw_variant_cast.h>
#include <daw/daw_visit.h>
#include <daw/daw_visit_as.h>
#include <string>
template<typename... Fs>
struct overload_s : Fs... {
	using Fs::operator( )...;
};
template<typename... Fs>
static overload_s<Fs...> overload_of( Fs... fs ) { return { fs... }; }
template<size_t I>
struct T {
	int v;
};
template<size_t... Is>
static std::variant<T<Is>...> mk_variant( std::index_sequence<Is...> );
template<size_t N, size_t I = 0>
static void fill( auto &v, size_t w, int x ) {
	if constexpr( I < N ) {
		if( w == I ) v.template emplace<I>( T<I>{ x } );
		else fill<N, I + 1>( v, w, x );
	}
}
struct Which {
	template<size_t I>
	int operator( )( T<I> const &t ) const { return static_cast<int>( I ) * 1000 + t.v; }
};
struct Bump {
	template<size_t I>
	void operator( )( T<I> &t ) const { t.v += static_cast<int>( I ) + 1; }
};
template<size_t N>
static void visit_all( ) {
	using V = decltype( mk_variant( std::make_index_sequence<N>{ } ) );
	V v{ };
	size_t w = sym_pick( "w", 0, N - 1 );
	int x = static_cast<int>( sym_range( "x", 0, 900 ) );
	fill<N>( v, w, x );
	V const &cv = v;
	int const expect = static_cast<int>( w ) * 1000 + x;
	CHECK( daw::visit_nt( v, Which{ } ) == expect and daw::visit_nt( cv, Which{ } ) == expect );
	CHECK( daw::visit( v, Which{ } ) == expect and daw::visit( cv, Which{ } ) == expect );
	CHECK( ( daw::visit_nt<long>( cv, Which{ } ) ) == expect and ( daw::visit<long>( cv, Which{ } ) ) == expect );
	daw::visit_nt( v, Bump{ } );
	CHECK( v.index( ) == w and daw::visit_nt( cv, Which{ } ) == expect + static_cast<int>( w ) + 1 );
}
//@ bounds: variants of 1..12 alternatives, every alternative, all values
ENTRY visit_small( ) {
	switch( sym_pick( "size", 1, 12 ) ) {
	case 1: visit_all<1>( ); break;
	case 2: visit_all<2>( ); break;
	case 3: visit_all<3>( ); break;
	case 4: visit_all<4>( ); break;
	case 5: visit_all<5>( ); break;
	case 6: visit_all<6>( ); break;
	case 7: visit_all<7>( ); break;
	case 8: visit_all<8>( ); break;
	case 9: visit_all<9>( ); break;
	case 10: visit_all<10>( ); break;
	case 11: visit_all<11>( ); break;
	default: visit_all<12>( );
	}
	sym_reach( "end" );
}
//@ bounds: variants of 13..18, 26, 33 alternatives, every alternative, all values
ENTRY visit_large( ) {
	switch( sym_pick( "size", 13, 20 ) ) {
	case 13: visit_all<13>( ); break;
	case 14: visit_all<14>( ); break;
	case 15: visit_all<15>( ); break;
	case 16: visit_all<16>( ); break;
	case 17: visit_all<17>( ); break;
	case 18: visit_all<18>( ); break;
	case 19: visit_all<26>( ); break;
	default: visit_all<33>( );
	}
	sym_reach( "end" );
}
struct Bad {
	Bad( ) = default;
	Bad( Bad const & ) { throw 5; }
	Bad &operator=( Bad const & ) = default;
};
//@ bounds: a variant that lost its value
ENTRY visit_empty( ) {
	std::variant<int, Bad> v{ 4 };
	int fn = 0;
	CHECK( daw::visit( v, [&]( int x ) { return x; }, []( Bad const & ) { return 9; } ) == 4 );
	try {
		Bad b;
		v.emplace<1>( b );
	} catch( int ) {}
	CHECK( v.valueless_by_exception( ) );
	CHECK( throws_as<std::bad_variant_access>( [&] { (void)daw::visit( v, [&]( int ) { ++fn; return 1; }, [&]( Bad const & ) { ++fn; return 9; } ); } ) );
	CHECK( throws_as<std::bad_variant_access>( [&] { (void)daw::visit<int>( v, [&]( int ) { ++fn; return 1; }, [&]( Bad const & ) { ++fn; return 9; } ); } ) );
	CHECK( fn == 0 );
	sym_reach( "end" );
}
static int twice( int x ) { return x * 2; }
//@ bounds: all values and alternatives
ENTRY casts( ) {
	int x = static_cast<int>( sym_range( "x", 0, 60000 ) );
	unsigned char c = sym_u8( "c" );
	std::variant<int, unsigned char, std::string> v;
	size_t w = sym_pick( "w", 0, 2 );
	if( w == 0 ) v = x;
	else if( w == 1 ) v = c;
	else v = std::string( "hi" );
	long const e = w == 0 ? x : c;
	auto const &cv = v;
	if( w < 2 ) {
		CHECK( daw::variant_cast<long>( v ) == e and daw::variant_cast<long>( cv ) == e and daw::variant_cast<unsigned short>( std::variant<int, unsigned char, std::string>( v ) ) == static_cast<unsigned short>( e ) );
		CHECK( throws_as<std::bad_variant_access>( [&] { (void)daw::variant_cast<std::string>( cv ); } ) );
	} else {
		CHECK( throws_as<std::bad_variant_access>( [&] { (void)daw::variant_cast<long>( v ); } ) );
		CHECK( throws_as<std::bad_variant_access>( [&] { (void)daw::variant_cast<long>( cv ); } ) );
		CHECK( daw::variant_cast<std::string>( v ) == "hi" );
	}
	CHECK( daw::can_extract<int>( cv ) == ( w == 0 ) and daw::can_extract<unsigned char>( cv ) == ( w == 1 ) and daw::can_extract<std::string>( v ) == ( w == 2 ) );
	CHECK( not daw::can_extract<long>( cv ) );
	{
		using V = std::variant<int, unsigned char, std::string>;
		CHECK( daw::can_extract<int>( V( v ) ) == ( w == 0 ) and daw::can_extract<unsigned char>( V( v ) ) == ( w == 1 ) and daw::can_extract<std::string>( V( v ) ) == ( w == 2 ) and not daw::can_extract<long>( V( v ) ) );
	}
	CHECK( daw::visit_nt( v, twice, []( unsigned char q ) { return q + 1; }, []( std::string const &s ) { return static_cast<int>( s.size( ) ); } ) == ( w == 0 ? 2 * x : w == 1 ? c + 1 : 2 ) );
	sym_reach( "end" );
}
struct Two {
	unsigned short lo, hi;
};
//@ bounds: all values
ENTRY reinterpret( ) {
	unsigned int u = sym_u32( "u" ), add = sym_u32( "add" );
	unsigned int v = u;
	CHECK( daw::visit_as<Two>( v, []( Two &t ) { t.hi ^= 1; return t.lo; } ) == static_cast<unsigned short>( u ) );
	CHECK( v == ( u ^ 0x10000u ) );
	daw::visit_as<Two>( v, []( Two &t ) { std::swap( t.lo, t.hi ); } );
	CHECK( v == ( ( u ^ 0x10000u ) >> 16 | u << 16 ) );
	unsigned int const cu = u;
	CHECK( daw::visit_as<int>( cu, []( int s ) { return s < 0; } ) == ( u >> 31 != 0 ) );
	int s = static_cast<int>( u );
	CHECK( daw::visit_as<unsigned>( s, [&]( unsigned &q ) { q += add; return q; } ) == u + add and static_cast<unsigned>( s ) == u + add );
	sym_reach( "end" );
}
struct Base {
	Track t;
	Base( uint32_t x = 7 ) : t( x ) {}
	Base( Base const & ) = default;
	Base( Base && ) = default;
	Base &operator=( Base const & ) = default;
	virtual ~Base( ) = default;
	virtual uint32_t id( ) const { return t.v; }
};
struct D1 : Base {
	uint32_t z;
	D1( uint32_t x, uint32_t zz ) : Base( x ), z( zz ) {}
	uint32_t id( ) const override { return t.v * 10 + z; }
};
struct D2 : Base {
	Track u{ 50 };
	using Base::Base;
	uint32_t id( ) const override { return t.v + u.v; }
};
static daw::poly_value<Base> mk_poly( unsigned w, uint32_t x ) {
	if( w == 0 ) return daw::poly_value<Base>( Base( x ) );
	if( w == 1 ) return daw::poly_value<Base>( D1( x, 3 ) );
	return daw::poly_value<Base>( daw::construct_emplace<D2>, x );
}
static uint32_t mk_id( unsigned w, uint32_t x ) { return w == 0 ? x : w == 1 ? x * 10 + 3 : x + 50; }
//@ bounds: every pair of stored types, all values, sequences of 3 copies, moves and assignments
//@ t:len=3
//@ q:len=3
ENTRY poly_values( ) {
	{
		LeakGuard lg;
		uint32_t x = static_cast<uint32_t>( sym_range( "x", 0, 100 ) ), y = static_cast<uint32_t>( sym_range( "y", 0, 100 ) );
		unsigned w = sym_pick( "w", 0, 2 ), q = sym_pick( "q", 0, 2 );
		auto a = mk_poly( w, x );
		auto b = mk_poly( q, y );
		CHECK( a->id( ) == mk_id( w, x ) and ( *b ).id( ) == mk_id( q, y ) );
		uint32_t ea = mk_id( w, x ), eb = mk_id( q, y );
		for( size_t k = 0; k < sym_param( "len", 2 ); ++k ) {
			switch( sym_pick( "op", 0, 4 ) ) {
			case 0: a = b; ea = eb; break;
			case 1: {
				daw::poly_value<Base> c( a );
				CHECK( c->id( ) == ea and &*c != &*a );
				b = std::move( c );
				eb = ea;
				break;
			}
			case 2: {
				daw::poly_value<Base> c( std::move( b ) );
				CHECK( c->id( ) == eb );
				b = c;
				break;
			}
			case 3: {
				auto &alias = a;
				a = alias;
				break;
			}
			default: b = daw::poly_value<Base>( D1( 1, 2 ) ); eb = 12;
			}
			CHECK( a->id( ) == ea and b->id( ) == eb );
			CHECK( &*a != &*b );
		}
		a->t.v = 9;
		CHECK( b->id( ) == eb );
		auto const &ca = a;
		Base const &r = ca;
		Base &m = a;
		CHECK( &r == ca.get( ) and &m == a.get( ) and ca->id( ) == ( *ca ).id( ) );
		daw::poly_value<Base> dflt;
		CHECK( dflt->id( ) == 7 );
	}
	sym_reach( "end" );
}
//@ bounds: both alternatives, all values
ENTRY poly_vars( ) {
	{
		LeakGuard lg;
		uint32_t x = static_cast<uint32_t>( sym_range( "x", 0, 100 ) );
		daw::poly_var<Base, D1, D2> v( D1( x, 4 ) );
		CHECK( v->id( ) == x * 10 + 4 );
		bool second = sym_pick( "second", 0, 1 );
		if( second ) v = D2( x );
		uint32_t const e = second ? x + 50 : x * 10 + 4;
		auto const &cv = v;
		CHECK( v->id( ) == e and cv->id( ) == e and ( *v ).id( ) == e and ( *cv ).id( ) == e );
		CHECK( &*v == v.operator->( ) and &*cv == cv.operator->( ) and &*cv == &*v );
		auto c = v;
		( *v ).t.v = 1;
		CHECK( cv->t.v == 1 and c->id( ) == e );
	}
	sym_reach( "end" );
}
using UP = daw::union_pair_t<Track, std::string>;
//@ bounds: every sequence of 4 assignments, copies and moves; values of both types
//@ q:time=150 t:len=4
//@ q:len=4
ENTRY union_pairs( ) {
	{
		LeakGuard lg;
		UP p, o( Track( 5 ) );
		CHECK( p.which( ) == 2 and o.which( ) == 0 );
		int wp = 2, wo = 0;
		uint32_t vp = 0, vo = 5;
		auto ok = []( UP const &u, int w, uint32_t v ) {
			CHECK( u.which( ) == w );
			if( w == 2 ) {
				CHECK( throws_as<daw::visit_null_union_pair_exception>( [&] { u.visit( []( auto const & ) {} ); } ) );
				return;
			}
			int hit = 0;
			u.visit( overload_of( [&]( Track const &t ) { hit = 1; CHECK( w == 0 and t.state == Track::alive and t.v == v ); },
			                      [&]( std::string const &s ) { hit = 2; CHECK( w == 1 and s.size( ) == v and ( v == 0 or s[v - 1] == 'x' ) ); } ) );
			CHECK( hit == w + 1 );
		};
		for( size_t k = 0; k < sym_param( "len", 3 ); ++k ) {
			uint32_t x = static_cast<uint32_t>( sym_pick( "x", 0, 1 ) ) * 20 + 1;
			switch( sym_pick( "op", 0, 7 ) ) {
			case 0: { Track t( x ); p = t; wp = 0; vp = x; break; }
			case 1: p = Track( x ); wp = 0; vp = x; break;
			case 2: { std::string s( x, 'x' ); p = s; wp = 1; vp = x; break; }
			case 3: p = std::string( x, 'x' ); wp = 1; vp = x; break;
			case 4: p = o; wp = wo; vp = vo; break;
			case 5: o = p; wo = wp; vo = vp; break;
			case 6: { UP c( p ); ok( c, wp, vp ); UP d( std::move( c ) ); ok( d, wp, vp ); o = std::move( d ); wo = wp; vo = vp; break; }
			default: { auto &al = p; p = al; }
			}
			ok( p, wp, vp );
			ok( o, wo, vo );
		}
	}
	sym_reach( "end" );
}
