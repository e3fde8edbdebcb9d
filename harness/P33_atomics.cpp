// allow_once, countable_resource, atomic<T>: no lost update, no second winner, whatever the interleaving
//! flags: -DSYM_THREADS=1
//@ bounds: 2..3 threads of 1..2 operations, 4..5 preemptions, sequentially consistent interleavings with happens-before race detection; values complete
#include "stdrt.h"
#include "common.h"
#include <daw/daw_allow_once.h>
#include <daw/daw_countable_resource.h>
#include <daw/daw_cx_atomic.h>

namespace {
	struct Once {
		daw::allow_once_t once;
		uint32_t payload[3] = { };
		int winners = 0;
		bool was[3] = { };
		uint32_t seen[3] = { };
	};
	Once *o;
	struct OnceArg {
		int id;
	} args[3] = { { 0 }, { 1 }, { 2 } };
	void once_thread( void *p ) {
		int const id = static_cast<OnceArg *>( p )->id;
		o->was[id] = o->once.check( );
	}
	// the first one through publishes, the ones turned away rely on it
	void publish_thread( void *p ) {
		int const id = static_cast<OnceArg *>( p )->id;
		o->payload[id] = 7;
		if( o->once.check( ) ) {
			o->seen[id] = o->payload[1 - id];
			o->was[id] = true;
		}
	}
	void bool_thread( void *p ) {
		int const id = static_cast<OnceArg *>( p )->id;
		o->was[id] = static_cast<bool>( o->once );
	}
} // namespace

//@ q:preempt=4,time=150 t:preempt=4,time=300
ENTRY once_three_threads( ) {
	Once obj;
	o = &obj;
	sym_shared( &obj.once, sizeof obj.once );
	for( auto &a : args ) {
		sym_spawn( once_thread, &a );
	}
	sym_join( );
	CHECK( obj.was[0] + obj.was[1] + obj.was[2] == 2 ); // exactly one was let through
	CHECK( obj.once.check( ) );
	obj.once.reset( );
	CHECK( not obj.once.check( ) );
	sym_reach( "joined" );
}

//@ q:preempt=4,time=150 t:preempt=4,time=300
ENTRY once_three_threads_bool( ) {
	Once obj;
	o = &obj;
	sym_shared( &obj.once, sizeof obj.once );
	for( auto &a : args ) {
		sym_spawn( bool_thread, &a );
	}
	sym_join( );
	CHECK( obj.was[0] + obj.was[1] + obj.was[2] == 2 );
	sym_reach( "joined" );
}

//@ q:preempt=5,time=150 t:preempt=5,time=300
ENTRY once_publishes( ) {
	Once obj;
	o = &obj;
	sym_shared( &obj.once, sizeof obj.once );
	sym_shared( obj.payload, sizeof obj.payload );
	sym_spawn( publish_thread, &args[0] );
	sym_spawn( publish_thread, &args[1] );
	sym_join( );
	CHECK( obj.was[0] + obj.was[1] == 1 );
	CHECK( obj.seen[0] + obj.seen[1] == 7 );
	sym_reach( "joined" );
}

namespace {
	void reset_thread( void * ) {
		o->once.reset( );
	}
} // namespace
//@ q:preempt=5,time=150 t:preempt=5,time=300
ENTRY once_reset_races( ) {
	Once obj;
	o = &obj;
	sym_shared( &obj.once, sizeof obj.once );
	bool const first = obj.once.check( );
	CHECK( not first );
	sym_spawn( once_thread, &args[0] );
	sym_spawn( once_thread, &args[1] );
	sym_spawn( reset_thread, nullptr );
	sym_join( );
	int const let = not obj.was[0] + not obj.was[1];
	CHECK( let <= 1 );                             // one more per reset, at most
	CHECK( obj.once.check( ) == ( let == 1 ) ); // and none is lost
	sym_reach( "joined" );
}

//@ q:time=60 t:time=100
ENTRY once_history( ) {
	daw::allow_once_t a;
	bool done = false;
	for( int i = 0; i < 4; ++i ) {
		switch( sym_pick( "op", 0, 2 ) ) {
		case 0:
			CHECK( a.check( ) == done );
			done = true;
			break;
		case 1:
			CHECK( static_cast<bool>( std::as_const( a ) ) == done );
			done = true;
			break;
		default:
			a.reset( );
			done = false;
		}
	}
}

// ---- counted resources
namespace {
	struct ResA : daw::countable_resource_t<int32_t> {};
	using Res = daw::countable_resource_t<int32_t>;
	using ResU = daw::countable_resource_t<uint64_t>;
	int32_t kept[2];
	alignas( Res ) unsigned char store[2][sizeof( Res )];
	void res_thread( void *p ) {
		int const id = static_cast<OnceArg *>( p )->id;
		Res a;
		kept[id] = Res::value( );
		new( store[id] ) Res( a );
	}
} // namespace
//@ q:preempt=4,time=150 t:preempt=4,time=300
ENTRY resources_counted_by_threads( ) {
	CHECK( Res::value( ) == 0 );
	{
		Res const mine;
		sym_spawn( res_thread, &args[0] );
		sym_spawn( res_thread, &args[1] );
		sym_join( );
		for( int32_t k : kept ) {
			CHECK( k >= 2 and k <= 5 );
		}
		CHECK( Res::value( ) == 3 );
		for( auto &s : store ) {
			reinterpret_cast<Res *>( s )->~Res( );
		}
		CHECK( Res::value( ) == 1 );
	}
	CHECK( Res::value( ) == 0 );
	sym_reach( "joined" );
}

//@ q:k=4,time=150 t:k=4,time=300
ENTRY resource_history( ) {
	CHECK( ResU::value( ) == 0 );
	{
		ResU a;
		ResU *p[3] = { };
		uint64_t n = 1;
		for( unsigned i = 0; i < sym_param( "k", 3 ); ++i ) {
			unsigned const w = static_cast<unsigned>( sym_pick( "slot", 0, 2 ) );
			switch( sym_pick( "op", 0, 3 ) ) {
			case 0:
				if( not p[w] ) {
					p[w] = new ResU;
					++n;
				}
				break;
			case 1:
				if( not p[w] ) {
					p[w] = new ResU( a );
					++n;
				}
				break;
			case 2:
				if( p[w] ) {
					delete p[w];
					p[w] = nullptr;
					--n;
				}
				break;
			default:
				if( p[w] ) {
					ResU &r = ( *p[w] = a );
					CHECK( &r == p[w] );
				}
			}
			CHECK( ResU::value( ) == n );
		}
		for( auto *x : p ) {
			delete x;
		}
		CHECK( ResU::value( ) == 1 );
	}
	CHECK( ResU::value( ) == 0 );
}

// concurrent updates: none is lost
namespace {
	daw::atomic<uint8_t> *at;
	uint8_t got[3];
	unsigned kind[2];
	uint8_t opnd[2];
	uint8_t apply( unsigned k, uint8_t v, uint8_t a ) {
		switch( k ) {
		case 0:
		case 1:
			return static_cast<uint8_t>( v + a );
		case 2:
		case 3:
			return static_cast<uint8_t>( v - a );
		case 4:
		case 5:
			return v | a;
		case 6:
		case 7:
			return v & a;
		case 8:
		case 9:
			return v ^ a;
		case 10:
		case 11:
			return static_cast<uint8_t>( v + 1 );
		case 12:
		case 13:
			return static_cast<uint8_t>( v - 1 );
		default:
			return a;
		}
	}
	// returns the value before
	uint8_t run( unsigned k, uint8_t a ) {
		switch( k ) {
		case 0:
			return at->fetch_add( a );
		case 1:
			return ( *at += a ) - a;
		case 2:
			return at->fetch_sub( a );
		case 3:
			return ( *at -= a ) + a;
		case 4:
			return at->fetch_or( a );
		case 5:
			return ( *at |= a );
		case 6:
			return at->fetch_and( a );
		case 7:
			return ( *at &= a );
		case 8:
			return at->fetch_xor( a );
		case 9:
			return ( *at ^= a ) ^ a;
		case 10:
			return ++*at - 1;
		case 11:
			return ( *at )++;
		case 12:
			return --*at + 1;
		case 13:
			return ( *at )--;
		case 14:
			return at->exchange( a );
		case 15: {
			uint8_t e = at->load( );
			while( not at->compare_exchange_strong( e, a ) ) {}
			return e;
		}
		default: {
			uint8_t e = at->load( std::memory_order_relaxed );
			while( not at->compare_exchange_weak( e, a, std::memory_order_acq_rel, std::memory_order_relaxed ) ) {}
			return e;
		}
		}
	}
	void at_thread( void *p ) {
		int const id = static_cast<OnceArg *>( p )->id;
		got[id] = run( kind[id], opnd[id] );
	}
} // namespace
//@ q:preempt=4,time=150 t:preempt=4,time=600
ENTRY atomic_no_lost_update( ) {
	uint8_t const v = sym<uint8_t>( "v" );
	daw::atomic<uint8_t> x( v );
	at = &x;
	sym_shared( &x, sizeof x );
	for( int i = 0; i < 2; ++i ) {
		kind[i] = static_cast<unsigned>( sym_pick( "kind", 0, 16 ) );
		opnd[i] = sym<uint8_t>( "operand" );
	}
	sym_spawn( at_thread, &args[0] );
	sym_spawn( at_thread, &args[1] );
	sym_join( );
	uint8_t const a0 = apply( kind[0], v, opnd[0] ), a01 = apply( kind[1], a0, opnd[1] );
	uint8_t const a1 = apply( kind[1], v, opnd[1] ), a10 = apply( kind[0], a1, opnd[0] );
	auto result = [&]( unsigned k, uint8_t before, uint8_t after ) { return k == 5 or k == 7 ? after : before; };
	bool const first = x.load( ) == a01 and got[0] == result( kind[0], v, a0 ) and got[1] == result( kind[1], a0, a01 );
	bool const second = x.load( ) == a10 and got[1] == result( kind[1], v, a1 ) and got[0] == result( kind[0], a1, a10 );
	CHECK( first or second );
	sym_reach( "joined" );
}

namespace {
	struct Msg {
		daw::atomic<uint32_t> flag{ 0 };
		uint32_t data = 0;
		bool read = false;
		uint32_t got = 0;
	};
	Msg *msg;
	void send( void *p ) {
		msg->data = 42;
		switch( static_cast<OnceArg *>( p )->id ) {
		case 0:
			msg->flag.store( 1, std::memory_order_release );
			break;
		case 1:
			msg->flag = 1;
			break;
		default: {
			uint32_t e = 0;
			(void)msg->flag.compare_exchange_strong( e, 1, std::memory_order_release, std::memory_order_relaxed );
		} break;
		}
	}
	void receive( void *p ) {
		uint32_t f = 0;
		switch( static_cast<OnceArg *>( p )->id ) {
		case 0:
			f = msg->flag.load( std::memory_order_acquire );
			break;
		case 1:
			f = msg->flag;
			break;
		default:
			f = msg->flag.fetch_add( 0, std::memory_order_acquire );
			break;
		}
		if( f == 1 ) {
			msg->read = true;
			msg->got = msg->data;
		}
	}
} // namespace
//@ q:preempt=5,time=150 t:preempt=5,time=300
ENTRY atomic_publishes( ) {
	Msg m;
	msg = &m;
	sym_shared( &m.flag, sizeof m.flag );
	sym_shared( &m.data, sizeof m.data );
	sym_spawn( send, &args[sym_pick( "send", 0, 2 )] );
	sym_spawn( receive, &args[sym_pick( "receive", 0, 2 )] );
	sym_join( );
	if( m.read ) {
		CHECK( m.got == 42 );
		sym_reach( "received" );
	}
}

// what was done before a reset is visible to the next one let through
namespace {
	void work_then_reset( void * ) {
		o->payload[0] = 9;
		o->once.reset( );
	}
	void check_then_read( void * ) {
		if( not o->once.check( ) ) {
			o->was[1] = true;
			o->seen[1] = o->payload[0];
		}
	}
} // namespace
//@ q:preempt=5,time=150 t:preempt=5,time=300
ENTRY once_reset_publishes( ) {
	Once obj;
	o = &obj;
	sym_shared( &obj.once, sizeof obj.once );
	sym_shared( obj.payload, sizeof obj.payload );
	CHECK( not obj.once.check( ) );
	sym_spawn( work_then_reset, nullptr );
	sym_spawn( check_then_read, nullptr );
	sym_join( );
	CHECK( obj.seen[1] == ( obj.was[1] ? 9 : 0 ) );
	sym_reach( "joined" );
}
