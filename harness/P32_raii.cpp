// scope guards, unique_resource, take / take_t: every clean-up runs exactly once, at the right time
//@ bounds: complete over values and flags; up to 4 steps of resource handover
#include "stdrt.h"
#include "common.h"
#include <daw/daw_scope_guard.h>
#include <daw/daw_unique_resource.h>
#include <daw/daw_take.h>
#include <daw/daw_do_n.h>
#include <memory>

namespace {
	struct Count {
		int *n;
		int add;
		Count( int *p, int a )
		  : n( p )
		  , add( a ) {}
		void operator( )( ) const {
			*n += add;
		}
		bool operator==( Count const &o ) const {
			return n == o.n and add == o.add;
		}
	};
} // namespace

//@ q:time=60 t:time=200
ENTRY guard_runs_once( ) {
	int n = 0;
	bool const cancelled = sym<bool>( "cancel" );
	bool const now = sym<bool>( "now" );
	bool const mv = sym<bool>( "move" );
	{
		auto g = daw::on_scope_exit( Count( &n, 1 ) );
		CHECK( n == 0 );
		if( mv ) {
			{
				auto g2 = std::move( g );
				CHECK( n == 0 );
				if( cancelled ) {
					g2.cancel( );
				} else if( now ) {
					g2.run_now( );
					CHECK( n == 1 );
				}
			}
			CHECK( n == ( cancelled ? 0 : 1 ) ); // the new owner ran it when its scope ended
		} else if( cancelled ) {
			g.cancel( );
		} else if( now ) {
			g.run_now( );
			CHECK( n == 1 );
		}
	}
	CHECK( n == ( cancelled ? 0 : 1 ) );
	sym_reach( "done" );
}

//@ q:time=60 t:time=200
ENTRY guard_copy_of_handler( ) {
	int n = 0;
	Count const c( &n, 4 );
	{
		daw::ScopeGuard<Count> g( c );
		daw::ScopeGuard<Count> h( c );
		CHECK( n == 0 );
		CHECK( g == h );
		h.cancel( );
		CHECK( not( g == h ) );
	}
	CHECK( n == 4 );
	{
		daw::ScopeGuard<Count> g( c );
		g.dismiss( );
	}
	CHECK( n == 4 );
}

//@ q:time=60 t:time=200
ENTRY guard_on_exception( ) {
	int n = 0, s = 0;
	bool const boom = sym<bool>( "throw" );
	bool caught = false;
	try {
		auto g = daw::on_scope_exit( [&]( ) { ++n; } );
		auto const ok = daw::on_exit_success( [&]( ) { ++s; } );
		CHECK( n == 0 and s == 0 );
		if( boom ) {
			throw 5;
		}
	} catch( int v ) {
		caught = true;
		CHECK( v == 5 );
	}
	CHECK( caught == boom );
	CHECK( n == 1 );
	CHECK( s == ( boom ? 0 : 1 ) );
}

//@ q:time=60 t:time=200
ENTRY guards_nest_in_reverse_order( ) {
	uint32_t log = 0;
	bool const boom = sym<bool>( "throw" );
	try {
		auto a = daw::on_scope_exit( [&]( ) noexcept { log = log * 10 + 1; } );
		auto b = daw::on_scope_exit( [&]( ) noexcept { log = log * 10 + 2; } );
		auto h = [&]( ) noexcept { log = log * 10 + 3; };
		daw::on_exit_success c( h );
		if( boom ) {
			throw 1;
		}
	} catch( ... ) {}
	CHECK( log == ( boom ? 21u : 321u ) );
}

//@ q:time=60 t:time=200
ENTRY guard_assign( ) {
	int n = 0, m = 0;
	{
		auto a = daw::on_scope_exit( Count( &n, 1 ) );
		a.cancel( );
		{
			auto b = daw::on_scope_exit( Count( &m, 10 ) );
			// std::function-like handlers are assignable
			a = std::move( b );
		}
		CHECK( m == 0 );
	}
	CHECK( n == 0 );
	CHECK( m == 10 );
	{
		auto a = daw::on_scope_exit( Count( &n, 1 ) );
		auto b = daw::on_scope_exit( Count( &m, 10 ) );
		a = std::move( b );
		CHECK( m == 10 );
	}
	CHECK( n <= 1 );
	CHECK( m == 20 );
}

// a handler that fails while it is run ahead of time has been run; leaving the scope does not run
// it once more
ENTRY guard_run_now_throws( ) {
	int n = 0;
	bool const fails = sym<bool>( "fails" );
	bool const mv = sym<bool>( "move" );
	auto handler = [&n, fails] {
		++n;
		if( fails and n == 1 ) {
			throw 5;
		}
	};
	bool thrown = false;
	try {
		auto g = daw::on_scope_exit( handler );
		if( mv ) {
			auto g2 = std::move( g );
			g2.run_now( );
		} else {
			g.run_now( );
		}
	} catch( int ) { thrown = true; }
	CHECK( thrown == fails );
	CHECK( n == 1 );
	sym_reach( "done" );
}

ENTRY guard_run_now_empty( ) {
	int n = 0;
	auto a = daw::on_scope_exit( Count( &n, 1 ) );
	a.cancel( );
	sym_expect_terminate( true );
	a.run_now( );
	sym_assert( false, "running a cancelled guard went on" );
}

namespace {
	struct Log {
		static inline int64_t closed[4];
		static inline int64_t total;
		static void clear( ) {
			for( auto &c : closed ) {
				c = 0;
			}
			total = 0;
		}
	};
	struct Closer {
		void operator( )( uint8_t &h ) const noexcept {
			sym_assert( h < 4, "the deleter was handed something that was never a resource" );
			++Log::closed[h];
			++Log::total;
		}
	};
	using UR = daw::unique_resource<uint8_t, Closer>;
} // namespace

//@ q:time=60 t:time=200
ENTRY resource_closed_once( ) {
	Log::clear( );
	{
		UR a( uint8_t{ 1 } );
		CHECK( a.get( ) == 1 and *a == 1 );
		CHECK( std::as_const( a ).get( ) == 1 and *std::as_const( a ) == 1 );
		CHECK( a.operator->( ) == &a.get( ) );
		CHECK( std::as_const( a ).operator->( ) == &a.get( ) );
		CHECK( Log::total == 0 );
	}
	CHECK( Log::closed[1] == 1 and Log::total == 1 );
	{
		UR e;
	}
	CHECK( Log::total == 1 );
}

//@ q:time=60 t:time=200
ENTRY resource_reset( ) {
	Log::clear( );
	bool const full = sym<bool>( "full" );
	{
		UR a;
		if( full ) {
			a.reset( uint8_t{ 0 } );
			CHECK( Log::total == 0 );
		}
		a.reset( );
		CHECK( Log::closed[0] == full );
		a.reset( );
		CHECK( Log::closed[0] == full );
		a.reset( uint8_t{ 2 } );
		CHECK( Log::total == full );
		CHECK( *a == 2 );
		a.reset( uint8_t{ 3 } );
		CHECK( Log::closed[2] == 1 );
		CHECK( *a == 3 );
		CHECK( Log::closed[3] == 0 );
	}
	CHECK( Log::closed[0] == full and Log::closed[1] == 0 and Log::closed[2] == 1 and Log::closed[3] == 1 );
}

//@ q:time=60 t:time=200
ENTRY resource_release( ) {
	Log::clear( );
	{
		UR a( uint8_t{ 1 } );
		uint8_t r = a.release( );
		CHECK( r == 1 );
		CHECK( Log::total == 0 );
		a.emplace( uint8_t{ 2 } );
		CHECK( *a == 2 and Log::total == 0 );
		uint8_t &q = a.emplace( uint8_t{ 3 } );
		CHECK( &q == &a.get( ) );
		CHECK( q == 3 and Log::closed[2] == 1 );
	}
	CHECK( Log::closed[1] == 0 and Log::closed[2] == 1 and Log::closed[3] == 1 );
}

//@ q:time=60 t:time=200
ENTRY resource_move( ) {
	Log::clear( );
	bool const af = sym<bool>( "a full" ), bf = sym<bool>( "b full" );
	{
		UR a, b;
		if( af ) {
			a.reset( uint8_t{ 0 } );
		}
		if( bf ) {
			b.reset( uint8_t{ 1 } );
		}
		{
			UR c( std::move( a ) );
			if( af ) {
				CHECK( *c == 0 );
			}
			CHECK( Log::total == 0 );
			c = std::move( b );
			CHECK( Log::closed[0] == af );
			CHECK( Log::closed[1] == 0 );
			if( bf ) {
				CHECK( *c == 1 );
			}
		}
		CHECK( Log::closed[0] == af and Log::closed[1] == bf );
	}
	CHECK( Log::closed[0] == af and Log::closed[1] == bf );
	CHECK( Log::total == af + bf );
}

// self move keeps the resource, and never closes it twice
ENTRY resource_self_move( ) {
	Log::clear( );
	{
		UR a( uint8_t{ 1 } );
		UR &r = a;
		a = std::move( r );
		CHECK( Log::total <= 1 );
	}
	CHECK( Log::total == 1 and Log::closed[1] == 1 );
}

// arbitrary histories over two owners and four resources: each resource given is closed or released exactly once
//@ q:k=4,time=150 t:k=4,time=600
ENTRY resource_history( ) {
	Log::clear( );
	unsigned const k = static_cast<unsigned>( sym_param( "k", 3 ) );
	int released[4] = { }, given = 0;
	{
		UR o[2];
		int held[2] = { -1, -1 };
		for( unsigned i = 0; i < k; ++i ) {
			unsigned const w = sym_pick( "who", 0, 1 );
			switch( sym_pick( "op", 0, 5 ) ) {
			case 0:
				o[w].reset( );
				held[w] = -1;
				break;
			case 1:
				if( given < 4 ) {
					o[w].reset( static_cast<uint8_t>( given ) );
					held[w] = given++;
				}
				break;
			case 2:
				if( given < 4 ) {
					o[w].emplace( static_cast<uint8_t>( given ) );
					held[w] = given++;
				}
				break;
			case 3:
				if( held[w] >= 0 ) {
					uint8_t r = o[w].release( );
					CHECK( r == held[w] );
					++released[r];
					held[w] = -1;
				}
				break;
			case 4:
				o[w] = std::move( o[1 - w] );
				held[w] = held[1 - w];
				held[1 - w] = -1;
				break;
			default: {
				UR t( std::move( o[w] ) );
				held[w] = -1;
			} break;
			}
			for( int x = 0; x < 2; ++x ) {
				if( held[x] >= 0 ) {
					CHECK( *o[x] == held[x] );
				}
			}
			for( int r = 0; r < 4; ++r ) {
				bool const alive = held[0] == r or held[1] == r;
				CHECK( Log::closed[r] == ( ( r < given and not alive and not released[r] ) ? 1 : 0 ) );
			}
		}
	}
	for( int r = 0; r < 4; ++r ) {
		CHECK( Log::closed[r] + released[r] == ( r < given ? 1 : 0 ) );
	}
	sym_reach( "history" );
}

ENTRY resource_get_empty( ) {
	UR a;
	unsigned const w = sym_pick( "which", 0, 3 );
	sym_expect_terminate( true );
	switch( w ) {
	case 0:
		(void)a.get( );
		break;
	case 1:
		(void)*a;
		break;
	case 2:
		(void)a.operator->( );
		break;
	default:
		(void)std::as_const( a ).get( );
		break;
	}
	sym_assert( false, "access to an empty resource went on" );
}

namespace {
	struct NoReset {
		uint32_t v = 7;
		bool moved = false;
		NoReset( ) = default;
		NoReset( uint32_t x )
		  : v( x ) {}
		NoReset( NoReset &&o ) noexcept
		  : v( o.v ) {
			o.moved = true;
		}
		NoReset &operator=( NoReset &&o ) noexcept {
			v = o.v;
			moved = false;
			o.moved = true;
			return *this;
		}
	};
} // namespace
template<>
inline constexpr bool daw::reset_on_take<NoReset> = false;

//@ q:time=60 t:time=200
ENTRY take_value( ) {
	uint32_t x = sym<uint32_t>( "x" );
	uint32_t const was = x;
	CHECK( daw::take( x ) == was );
	CHECK( x == 0 );
	auto p = std::make_unique<uint32_t>( was );
	auto *raw = p.get( );
	auto q = daw::take( p );
	CHECK( q.get( ) == raw and p == nullptr );
	NoReset n( was );
	auto m = daw::take( n );
	CHECK( m.v == was );
	CHECK( n.moved and n.v == was ); // only moved from, not reset
	{
		Track t( was );
		auto u = daw::take( t );
		CHECK( u.v == was and t.v == 0 and t.state == Track::alive );
	}
	CHECK( Track::live == 0 );
}

//@ q:time=60 t:time=200
ENTRY take_holder( ) {
	uint32_t const x = sym<uint32_t>( "x" ), y = sym<uint32_t>( "y" );
	daw::take_t<uint32_t> a( x );
	CHECK( *a == x and a.get( ) == x and *a.operator->( ) == x );
	CHECK( *std::as_const( a ) == x and std::as_const( a ).get( ) == x and *std::as_const( a ).operator->( ) == x );
	CHECK( &*a == a.operator->( ) and &a.get( ) == a.operator->( ) );
	daw::take_t<uint32_t> b( std::move( a ) );
	CHECK( *b == x and *a == 0 );
	a = std::move( b );
	CHECK( *a == x and *b == 0 );
	daw::take_t<uint32_t> c( a );
	CHECK( *c == x and *a == x );
	*c = y;
	CHECK( *a == x );
	a = c;
	CHECK( *a == y and *c == y );
	CHECK( ( a == c ) );
	CHECK( ( a == daw::take_t<uint32_t>( x ) ) == ( x == y ) );
	CHECK( ( a < daw::take_t<uint32_t>( x ) ) == ( y < x ) );
	CHECK( ( a > daw::take_t<uint32_t>( x ) ) == ( y > x ) );
	CHECK( *std::move( a ) == y );
	CHECK( *a == 0 );
	CHECK( std::move( c ).get( ) == y );
	CHECK( *c == 0 );
	*c = x;
	c.reset( );
	CHECK( *c == 0 );
}

//@ q:time=60 t:time=200
ENTRY take_self( ) {
	uint32_t const x = sym<uint32_t>( "x" );
	daw::take_t<uint32_t> a( x );
	auto &r = a;
	a = std::move( r );
	CHECK( *a == x );
	{
		daw::take_t<Track> t( Track{ x } );
		daw::take_t<Track> u( std::move( t ) );
		CHECK( u->v == x and t->v == 0 );
		t = std::move( u );
		CHECK( t->v == x and u->v == 0 );
		auto v = t;
		CHECK( v->v == x and t->v == x );
		Track w = *std::move( v );
		CHECK( w.v == x and v->v == 0 );
	}
	CHECK( Track::live == 0 );
}

//@ q:time=60 t:time=200
ENTRY repeat_n( ) {
	unsigned const n = sym_range<unsigned>( "n", 0, 5 );
	unsigned cnt = 0;
	daw::algorithm::do_n( n, [&]( unsigned a ) { cnt += a; }, 1u );
	CHECK( cnt == n );
	unsigned seen = 0, next = 0;
	daw::algorithm::do_n_arg( n, [&]( std::size_t i ) {
		CHECK( i == next );
		++next;
		++seen;
	} );
	CHECK( seen == n );
	cnt = 0;
	daw::algorithm::do_n<5>( [&] { ++cnt; } );
	CHECK( cnt == 5 );
	daw::algorithm::do_n<1>( [&] { ++cnt; } );
	CHECK( cnt == 6 );
	cnt = 5;
	daw::algorithm::do_n<0>( [&] { ++cnt; } );
	CHECK( cnt == 5 );
	daw::algorithm::do_n<3>( [&]( unsigned a, unsigned b ) { cnt += a + b; }, n, 2u );
	CHECK( cnt == 5 + 3 * ( n + 2 ) );
	next = 0;
	daw::algorithm::do_n_arg<4>( [&]( std::size_t i ) {
		CHECK( i == next );
		++next;
	} );
	CHECK( next == 4 );
	next = 0;
	daw::algorithm::do_n_arg<7, 2>( [&]( std::size_t i ) {
		CHECK( i == 2 * next );
		++next;
	} );
	CHECK( next == 3 );
	daw::algorithm::do_n_arg<1>( [&]( std::size_t i ) { next += static_cast<unsigned>( i ) + 1; } );
	CHECK( next == 4 );
	next = 3;
	daw::algorithm::do_n_arg<0>( [&]( std::size_t ) { ++next; } );
	CHECK( next == 3 );
}
