#include "common.h"
#include <daw/daw_function.h>
#include <daw/daw_function_ref.h>
#include <daw/daw_function_view.h>
#include <daw/daw_stack_function.h>
#include <daw/daw_shared_function.h>
#include <daw/daw_function_table.h>
#include <daw/daw_bind_args_at.h>
#include <daw/daw_bind_front.h>
#include <daw/daw_mutable_capture.h>
#include <daw/daw_overload.h>
#include <daw/daw_lift.h>
#include <daw/daw_sbo.h>
#include <daw/daw_fwd_pack_apply.h>
#include <memory>

using U = uint32_t;
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;
static U ff( U a, U b ) { return a - 2u * b; }
static U gg( U a, U b ) { return a ^ ( b + 7u ); }
struct Obj {
	U k;
	U operator( )( U a, U b ) const { return ( a ^ k ) - b; }
};
struct Empty {
	U operator( )( U a, U b ) const { return a + 3u * b; }
};
static U out, calls;
static void vf( U a, U b ) { out = a * 3u + b; ++calls; }
static void vg( U a, U b ) { out = a - b; ++calls; }
struct VObj {
	U k;
	void operator( )( U a, U b ) const { out = a + k - b; ++calls; }
};
static void incr( U &r ) { r += 5u; }
// which: 0 function, 1 other function, 2 object, 3 other object, 4 empty object
struct Targets {
	Obj o, p;
	Empty e;
	U want( unsigned w, U a, U b ) const {
		return w == 0 ? ff( a, b ) : w == 1 ? gg( a, b ) : w == 2 ? ( a ^ o.k ) - b : w == 3 ? ( a ^ p.k ) - b : a + 3u * b;
	}
};
template<typename R>
static R make( Targets const &t, unsigned w ) {
	switch( w ) {
	case 0: return R( &ff );
	case 1: return R( &gg );
	case 2: return R( t.o );
	case 3: return R( t.p );
	default: return R( t.e );
	}
}
//@ bounds: every pair of five kinds of target, all arguments and states
ENTRY reference( ) {
	Targets t{ { sym_u32( "k" ) }, { sym_u32( "l" ) }, { } };
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	using R = daw::function_ref<U( U, U )>;
	unsigned w = static_cast<unsigned>( sym_pick( "w", 0, 4 ) ), x = static_cast<unsigned>( sym_pick( "x", 0, 4 ) );
	R r = make<R>( t, w ), s = make<R>( t, x );
	R const c = r;
	CHECK( r( a, b ) == t.want( w, a, b ) and s( a, b ) == t.want( x, a, b ) and c( a, b ) == t.want( w, a, b ) );
	switch( sym_pick( "op", 0, 2 ) ) {
	case 0: r = s; break;
	case 1:
		switch( x ) {
		case 0: r = &ff; break;
		case 1: r = &gg; break;
		case 2: r = t.o; break;
		case 3: r = t.p; break;
		default: r = t.e; break;
		}
		break;
	default: r = R( s ); break;
	}
	CHECK( r( a, b ) == t.want( x, a, b ) and s( a, b ) == t.want( x, a, b ) and c( a, b ) == t.want( w, a, b ) );
	t.o.k = a; t.p.k = b; // refers to, does not copy
	CHECK( r( b, a ) == t.want( x, b, a ) );
	sym_reach( "end" );
}
//@ bounds: void results, all arguments
ENTRY reference_void( ) {
	VObj o{ sym_u32( "k" ) };
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	using R = daw::function_ref<void( U, U )>;
	R r( &vf ), s( o );
	calls = 0; r( a, b ); CHECK( out == a * 3u + b and calls == 1 );
	s( a, b ); CHECK( out == a + o.k - b and calls == 2 );
	R q = s; q( b, a ); CHECK( out == b + o.k - a and calls == 3 );
	q = &vg; q( a, b ); CHECK( out == a - b and calls == 4 );
	q = r; q( a, b ); CHECK( out == a * 3u + b and calls == 5 );
	q = o; q( a, b ); CHECK( out == a + o.k - b and calls == 6 );
	daw::function_ref<void( U & )> m( &incr ); U z = a; m( z ); CHECK( z == a + 5u );
	auto l = []( U &v ) { v -= 3u; }; m = l; m( z ); CHECK( z == a + 2u );
	sym_reach( "end" );
}
//@ bounds: every pair of five kinds of target, all arguments and states
ENTRY view( ) {
	Targets t{ { sym_u32( "k" ) }, { sym_u32( "l" ) }, { } };
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	using R = daw::function_view<U( U, U )>;
	unsigned w = static_cast<unsigned>( sym_pick( "w", 0, 4 ) ), x = static_cast<unsigned>( sym_pick( "x", 0, 4 ) );
	R r = make<R>( t, w ), s = make<R>( t, x );
	R const c = r;
	R d( r );
	CHECK( r( a, b ) == t.want( w, a, b ) and s( a, b ) == t.want( x, a, b ) and c( a, b ) == t.want( w, a, b ) and d( a, b ) == t.want( w, a, b ) );
	switch( sym_pick( "op", 0, 1 ) ) {
	case 0: r = s; break;
	default: r = std::move( s ); break;
	}
	t.o.k ^= 1u;
	CHECK( r( a, b ) == t.want( x, a, b ) and c( a, b ) == t.want( w, a, b ) and d( a, b ) == t.want( w, a, b ) );
	R f( ff ); CHECK( f( a, b ) == ff( a, b ) );
	sym_reach( "end" );
}
//@ bounds: void results, reference and move-only parameters
ENTRY view_void( ) {
	VObj o{ sym_u32( "k" ) };
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	using R = daw::function_view<void( U, U )>;
	R r( &vf ), s( o );
	calls = 0; r( a, b ); CHECK( out == a * 3u + b and calls == 1 );
	s( a, b ); CHECK( out == a + o.k - b and calls == 2 );
	R q( s ); s = r; q( b, a ); CHECK( out == b + o.k - a and calls == 3 );
	s( a, b ); CHECK( out == a * 3u + b );
	auto l = []( U x, U y ) { out = x ^ y; }; R e( l ); e( a, b ); CHECK( out == ( a ^ b ) );
	daw::function_view<void( U & )> m( &incr ); U z = a; m( z ); CHECK( z == a + 5u );
	auto dec = [&]( U &v ) { v -= b; }; daw::function_view<void( U & )> n( dec ); n( z ); CHECK( z == a + 5u - b );
	auto tk = [a]( std::unique_ptr<U> p ) { return *p + a; };
	daw::function_view<U( std::unique_ptr<U> )> u( tk ); CHECK( u( std::make_unique<U>( b ) ) == a + b );
	sym_reach( "end" );
}
struct Held {
	Track t;
	U operator( )( U a ) const { return t.get( ) + a; }
};
struct Heap {
	std::shared_ptr<U> p;
	U operator( )( U a ) const { return *p - a; }
};
static U one( U a ) { return a * 5u; }
//@ bounds: three kinds of target with resources, copy, move, assignment, reset, all values
ENTRY stack( ) {
	U k = sym_u32( "k" ), l = sym_u32( "l" ), a = sym_u32( "a" );
	LeakGuard g;
	{
		using F = daw::function<80, U( U )>;
		unsigned w = static_cast<unsigned>( sym_pick( "w", 0, 3 ) );
		auto want = [&]( unsigned i ) { return i == 0 ? k + a : i == 1 ? l - a : a * 5u; };
		auto mk = [&]( unsigned i ) -> F {
			switch( i ) {
			case 0: return F( Held{ k } );
			case 1: return F( Heap{ std::make_shared<U>( l ) } );
			case 2: return F( &one );
			default: return F( );
			}
		};
		auto same = [&]( F &f, unsigned i ) {
			F const &c = f;
			CHECK( f.empty( ) == ( i == 3 ) and static_cast<bool>( f ) == ( i != 3 ) );
			if( i != 3 ) CHECK( f( a ) == want( i ) and c( a ) == want( i ) );
			else CHECK( throws_as<std::bad_function_call>( [&] { (void)f( a ); } ) and throws_as<std::bad_function_call>( [&] { (void)c( a ); } ) );
		};
		F f = mk( w );
		same( f, w );
		switch( sym_pick( "op", 0, 7 ) ) {
		case 0: { F h( f ); same( h, w ); same( f, w ); break; }
		case 1: { F h( std::move( f ) ); same( h, w ); break; }
		case 2: { unsigned x = static_cast<unsigned>( sym_pick( "x", 0, 3 ) ); F h = mk( x ); f = h; same( h, x ); same( f, x ); break; }
		case 3: { unsigned x = static_cast<unsigned>( sym_pick( "x", 0, 3 ) ); F h = mk( x ); f = std::move( h ); same( f, x ); break; }
		case 4: f = Held{ k }; same( f, 0 ); f = Heap{ std::make_shared<U>( l ) }; same( f, 1 ); f = one; same( f, 2 ); break;
		case 5: { Held h{ k }; f = h; h.t = Track( k + 1u ); same( f, 0 ); break; } // keeps its own copy
		case 6: { F const &c = f; F h( c ); f = F( ); same( h, w ); same( f, 3 ); F &r = h; h = r; same( h, w ); break; }
		default: { F const &c = f; daw::function<160, U( U )> h( c ); CHECK( h.empty( ) == ( w == 3 ) ); if( w != 3 ) CHECK( h( a ) == want( w ) ); h = c; if( w != 3 ) CHECK( h( a ) == want( w ) ); break; }
		}
	}
	sym_reach( "end" );
}
//@ bounds: no result, empty sources, all values
ENTRY stack_void( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	using F = daw::function<64, void( U, U )>;
	F f, n( nullptr );
	CHECK( not f and not n and f.empty( ) );
	CHECK( throws_as<std::bad_function_call>( [&] { f( a, b ); } ) );
	calls = 0; f = &vf; f( a, b ); CHECK( out == a * 3u + b and calls == 1 );
	f = VObj{ a }; f( a, b ); CHECK( out == a + a - b and calls == 2 );
	void ( *np )( U, U ) = nullptr; f = np; CHECK( not f and throws_as<std::bad_function_call>( [&] { f( a, b ); } ) and calls == 2 );
	F g = np; CHECK( g.empty( ) );
	U cnt = 0; F h = [&]( U x, U y ) { cnt += x - y; }; h( a, b ); h( a, b ); CHECK( cnt == 2u * ( a - b ) );
	sym_reach( "end" );
}
//@ bounds: two owners and an observer, histories of 5 operations, all values
//@ q:n=5,time=150 t:n=5,time=600
ENTRY shared( ) {
	U k = sym_u32( "k" ), l = sym_u32( "l" );
	LeakGuard g;
	{
		struct Cnt { Track t; U operator( )( U d ) { t.v += d; return t.get( ); } };
		using F = daw::shared_function<U( U )>;
		int64_t base = Track::live;
		U val[2] = { k, l };
		F f[2] = { F( Cnt{ k } ), F( Cnt{ l } ) };
		int who[2] = { 0, 1 }; // -1 empty
		auto w = f[0].get_weak( );
		CHECK( Track::live == base + 2 );
		unsigned n = static_cast<unsigned>( sym_param( "n", 3 ) );
		for( unsigned s = 0; s < n; ++s ) {
			unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 1 ) );
			switch( sym_pick( "op", 0, 4 ) ) {
			case 0: f[i] = f[1 - i]; who[i] = who[1 - i]; break;
			case 1: f[i] = std::move( f[1 - i] ); who[i] = who[1 - i]; who[1 - i] = -1; break;
			case 2: f[i] = F( nullptr ); who[i] = -1; break;
			case 3: { F t( f[i] ); CHECK( static_cast<bool>( t ) == ( who[i] >= 0 ) ); if( who[i] >= 0 ) { U d = sym_u32( "d" ); val[who[i]] += d; CHECK( t( d ) == val[who[i]] ); } break; }
			default: if( who[i] >= 0 ) { U d = sym_u32( "d" ); val[who[i]] += d; CHECK( f[i]( d ) == val[who[i]] ); } break;
			}
			bool a0 = who[0] == 0 or who[1] == 0, a1 = who[0] == 1 or who[1] == 1;
			CHECK( Track::live == base + a0 + a1 and static_cast<bool>( f[0] ) == ( who[0] >= 0 ) and static_cast<bool>( f[1] ) == ( who[1] >= 0 ) );
			auto w2 = w;
			F q = w2.lock( );
			CHECK( static_cast<bool>( q ) == a0 );
			if( a0 ) CHECK( q( 0 ) == val[0] );
		}
	}
	sym_reach( "end" );
}
//@ bounds: every qualifier of the signature, all values
ENTRY shared_forms( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	LeakGuard g;
	{
		auto add = [b]( U x ) noexcept { return x + b; };
		daw::shared_function<U( U )> f0( add );
		daw::shared_function<U( U ) const &&> const f7( add ); CHECK( std::move( f7 )( a ) == a + b );
		daw::shared_function<U( U ) const> const f1( add );
		daw::shared_function<U( U ) &> f2( add );
		daw::shared_function<U( U ) const &> const f3( add );
		daw::shared_function<U( U ) noexcept> f4( add );
		daw::shared_function<U( U ) const noexcept> const f5( add );
		CHECK( f0( a ) == a + b and f1( a ) == a + b and f2( a ) == a + b and f3( a ) == a + b and f4( a ) == a + b and f5( a ) == a + b );
		daw::shared_function<U( U ) &&> f6( add ); CHECK( std::move( f6 )( a ) == a + b );
		daw::shared_function<U( U, U )> p( &ff ); CHECK( p( a, b ) == ff( a, b ) );
		U ( *np )( U, U ) = nullptr; daw::shared_function<U( U, U )> z( np ), y; CHECK( not z and not y );
		daw::shared_function<void( U & )> r( &incr ); U t = a; r( t ); CHECK( t == a + 5u );
		daw::shared_function<U( std::unique_ptr<U> )> u( [b]( std::unique_ptr<U> q ) { return *q - b; } ); CHECK( u( std::make_unique<U>( a ) ) == a - b );
		auto w = p.get_weak( ); auto w2( std::move( w ) ); CHECK( w2.lock( )( a, b ) == ff( a, b ) and not w.lock( ) );
		w = w2; { auto o = w.lock( ); CHECK( o( b, a ) == ff( b, a ) ); }
		p = daw::shared_function<U( U, U )>( &gg ); CHECK( not w.lock( ) and not w2.lock( ) and p( a, b ) == gg( a, b ) );
		w = p.get_weak( ); CHECK( w.lock( )( a, b ) == gg( a, b ) );
		auto s = p; CHECK( s( a, b ) == gg( a, b ) );
	}
	sym_reach( "end" );
}
//@ bounds: calls through an empty wrapper are refused
ENTRY shared_empty( ) {
	daw::shared_function<U( U )> f( nullptr ), g( [held = Track( 1 )]( U x ) { return x + held.get( ); } );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 1 ) );
	if( op ) { auto h = std::move( g ); CHECK( h( 1 ) == 2 and not g ); }
	sym_expect_terminate( true );
	(void)( op ? g( 1 ) : f( 1 ) );
	CHECK( false );
}
//@ bounds: tables of 3, equal and different callable types, every index
ENTRY table( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" ), k = sym_u32( "k" );
	auto t = daw::make_function_table<U>( &ff, &gg, &ff );
	unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 2 ) );
	CHECK( t.size( ) == 3 and t.call( i, a, b ) == ( i == 1 ? gg( a, b ) : ff( a, b ) ) and t( i, a, b ) == t.call( i, a, b ) );
	t.set( i, &gg );
	CHECK( t( 0, a, b ) == ( i == 0 ? gg( a, b ) : ff( a, b ) ) and t( 1, a, b ) == gg( a, b ) and t( 2, a, b ) == ( i == 2 ? gg( a, b ) : ff( a, b ) ) );
	auto m = daw::make_function_table<U>( &ff, Obj{ k }, Empty{ } );
	auto wanted = [&]( unsigned q, U x, U y ) { return q == 0 ? ff( x, y ) : q == 1 ? ( x ^ k ) - y : x + 3u * y; };
	CHECK( m.size( ) == 3 and m.call( i, a, b ) == wanted( i, a, b ) and m( i, b, a ) == wanted( i, b, a ) );
	m.set( 1, Obj{ b } ); m.set( 0, &gg );
	CHECK( m( 0, a, b ) == gg( a, b ) and m( 1, a, b ) == ( a ^ b ) - b and m( 2, a, b ) == a + 3u * b );
	auto e = daw::make_function_table<U>( [k] { return k; }, Obj{ k } );
	CHECK( e.call<true>( 0, a, b ) == k and e.call<true>( 1, a, b ) == ( a ^ k ) - b and e.template operator( )<true>( 0, a, b ) == k );
	calls = 0; auto v = daw::make_function_table( &vf, VObj{ k } );
	v( 0, a, b ); CHECK( out == a * 3u + b and calls == 1 ); v( 1, a, b ); CHECK( out == a + k - b and calls == 2 );
	sym_reach( "end" );
}
//@ bounds: an index beyond a mixed table is refused
ENTRY table_range( ) {
	auto m = daw::make_function_table<U>( &ff, Obj{ 1 }, Empty{ } );
	size_t i = sym_u64( "i" ); sym_assume( i >= 3 );
	sym_expect_terminate( true );
	(void)m( i, 1u, 2u );
	CHECK( false );
}
static U four( U a, U b, U c, U d ) { return a + ( b ^ 5u ) * 3u + c * 7u - ( d ^ 11u ); }
//@ bounds: binding at every position of four arguments, all values
ENTRY binding( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" ), c = sym_u32( "c" ), d = sym_u32( "d" );
	auto b0 = daw::bind_args_at<0>( &four, a, b ), b0c = b0;
	CHECK( b0( c, d ) == four( a, b, c, d ) and b0c( d, c ) == four( a, b, d, c ) );
	auto const b1 = daw::bind_args_at<1>( &four, a, b ); CHECK( b1( c, d ) == four( c, a, b, d ) );
	auto b2 = daw::bind_args_at<2>( &four, a, b ); CHECK( b2( c, d ) == four( c, d, a, b ) );
	auto b3 = daw::bind_args_at<3>( &four, a ); CHECK( b3( b, c, d ) == four( b, c, d, a ) );
	auto b4 = daw::bind_args_at<0>( &four, a, b, c, d ); CHECK( b4( ) == four( a, b, c, d ) );
	auto b5 = daw::bind_args_at<1>( [k = a]( U x, U y, U z ) { return four( x, y, z, k ); }, b ); CHECK( b5( c, d ) == four( c, b, d, a ) );
	auto f2 = daw::bind_front( &four, a, b ); auto const f3 = daw::bind_front( four, a, b, c ); auto f1 = daw::bind_front( []( U x, U &y ) { y += x; return y; }, a );
	CHECK( f2( c, d ) == four( a, b, c, d ) and f3( d ) == four( a, b, c, d ) and f3( a ) == four( a, b, c, a ) );
	U r = b; CHECK( f1( r ) == a + b and r == a + b );
	sym_reach( "end" );
}
static U lifted( U x ) { return x * 9u; }
//@ bounds: overload sets, lifted functions, captures, all values
ENTRY adapters( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" );
	auto o = daw::overload( [b]( U x ) { return x + b; }, []( U x, U y ) { return x - y; }, []( char const * ) { return 77u; } );
	CHECK( o( a ) == a + b and o( a, b ) == a - b and o( "x" ) == 77u );
	auto q = daw::overload( &ff, [a]( U x ) { return x ^ a; }, lifted, Obj{ a } ) ; (void)q;
	auto q2 = daw::overload( &ff, [a]( unsigned long long x ) { return static_cast<U>( x ) ^ a; } );
	CHECK( q2( a, b ) == ff( a, b ) and q2( 5ull ) == ( 5u ^ a ) );
	CHECK( daw::lift<&lifted>( a ) == a * 9u and DAW_LIFT( lifted )( a ) == a * 9u );
	daw::mutable_capture<U> const m( a );
	CHECK( m.get( ) == a and *m == a and m.ptr( ) == &m.get( ) and m.operator->( ) == m.ptr( ) and static_cast<U &>( m ) == a );
	*m = b; CHECK( m.get( ) == b and m.move_out( ) == b );
	auto l = [c = daw::mutable_capture( a )]( U d ) { c.get( ) += d; return *c; };
	CHECK( l( b ) == a + b and l( 1 ) == a + b + 1u );
	auto p = daw::make_callable( &ff ); CHECK( p( a, b ) == ff( a, b ) ); auto ob = daw::make_callable( Obj{ b } ); CHECK( ob( a, a ) == ( a ^ b ) - a );
	auto pv = daw::make_callable( &incr ); U z = a; pv( z ); CHECK( z == a + 5u );
	U x = a; auto pk = daw::fwd_pack( x, U( b ) ); CHECK( &daw::get<0>( pk ) == &x and daw::get<1>( pk ) == b );
	CHECK( daw::apply( []( U &r, U &&s ) { r += 1u; return r - s; }, daw::fwd_pack( x, U( b ) ) ) == a + 1u - b and x == a + 1u );
	sym_reach( "end" );
}
struct Small { Track t; };
struct Big { Track t; U pad[20]; };
//@ bounds: values inside and outside the buffer, all values
ENTRY small_buffer( ) {
	U a = sym_u32( "a" );
	LeakGuard g;
	{
		daw::sbo_storage<sizeof( Small )> s{ };
		using E = decltype( s )::engaged_types;
		CHECK( s.engaged == E::none );
		for( int i = 0; i < 2; ++i ) {
			if( sym_pick( "big", 0, 1 ) ) {
				Big *p = s.allocate( Big{ Track( a ), { 1, 2, 3 } } );
				CHECK( s.engaged == E::allocated and p->t.get( ) == a and p->pad[2] == 3 and s.get<Big>( ) == p );
				auto const &c = s; CHECK( c.get<Big>( ) == p );
				s.deallocate<Big>( );
			} else {
				Small *p = s.allocate( Small{ Track( a ) } );
				CHECK( s.engaged == E::local and p->t.get( ) == a and s.get<Small>( ) == p and static_cast<void *>( p ) == &s.data );
				auto const &c = s; CHECK( c.get<Small>( ) == p );
				s.deallocate<Small>( );
			}
			CHECK( s.engaged == E::none );
		}
	}
	sym_reach( "end" );
}
