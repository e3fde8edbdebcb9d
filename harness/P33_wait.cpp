// waiting for an atomic with and without a deadline, against a writer that runs at any point and a clock that advances by any amount
//! flags: -DSYM_THREADS=1
//@ bounds: one writer of 1..2 stores, 3 preemptions; the clock advances by any amount at 4 readings (the first or after standing still for 67), then past every deadline
#include "stdrt.h"
#include "common.h"
#include <daw/daw_atomic_wait.h>

namespace {
	int64_t clk = 0;
	unsigned reads = 0, free_reads = 4, still = 0; // the clock stands still for the first readings
	bool frozen = false;
	int64_t const far = 4'000'000'000'000;
} // namespace
extern "C" {
uint64_t sym_env_now( ) {
	if( not frozen ) {
		if( still > 0 ) {
			--still;
		} else if( reads < free_reads ) {
			++reads;
			clk += static_cast<int64_t>( sym_range<uint32_t>( "tick", 0, 2'000'000'000u ) );
		} else {
			clk += far;
		}
	}
	return static_cast<uint64_t>( clk );
}
void sym_env_yield( ) {
	sym_sched_yield( );
}
uint64_t sym_env_syscall( ) {
	sym_sched_yield( );
	return 0;
}
}

namespace {
	using ns = std::chrono::nanoseconds;
	using us = std::chrono::microseconds;
	using Clk = std::chrono::system_clock;
	std::atomic<uint32_t> *ob;
	uint32_t v1, v2;
	bool two;
	bool wrote1, wrote2;
	void writer( void * ) {
		ob->store( v1, std::memory_order_release );
		wrote1 = true;
		if( two ) {
			ob->store( v2, std::memory_order_release );
			wrote2 = true;
		}
	}
	daw::wait_status st;
	int64_t started, ended;
	template<typename F>
	void scenario( std::atomic<uint32_t> &a, F waiting ) {
		ob = &a;
		v1 = sym<uint32_t>( "v1" );
		v2 = sym<uint32_t>( "v2" );
		two = sym<bool>( "two" );
		sym_spawn( writer, nullptr );
		started = clk;
		waiting( );
		ended = clk;
		sym_join( );
	}
} // namespace

//@ q:preempt=3,time=200 t:preempt=3,time=900
ENTRY wait_for_change( ) {
	uint32_t const v0 = sym<uint32_t>( "v0" ), old = sym<uint32_t>( "old" );
	std::atomic<uint32_t> a( v0 );
	uint32_t const rel = sym<uint32_t>( "timeout" );
	bool seen1 = false, seen2 = false;
	scenario( a, [&] {
		st = daw::atomic_wait_for( &a, old, us( rel ) );
		seen1 = wrote1;
		seen2 = wrote2;
	} );
	if( st == daw::wait_status::found ) {
		// some value it could have read differs
		CHECK( v0 != old or v1 != old or ( two and v2 != old ) );
		sym_reach( "found" );
	} else {
		CHECK( ended - started >= 1000ll * rel );
		CHECK( v0 == old or seen1 or seen2 or v1 == old or ( two and v2 == old ) );
		sym_reach( "timeout" );
	}
}

// a value that differs from the start is found at once, whatever the timeout
ENTRY wait_for_already( ) {
	uint32_t const v0 = sym<uint32_t>( "v0" ), old = sym<uint32_t>( "old" );
	std::atomic<uint32_t> a( v0 );
	int32_t const rel = sym<int32_t>( "timeout" );
	bool const changed = v0 != old;
	unsigned const which = static_cast<unsigned>( sym_pick( "which", 0, 5 ) );
	int64_t const t0 = clk;
	if( sym<bool>( "slow clock" ) ) {
		still = 67;
	}
	bool const even = v0 % 2 == 0;
	auto const until = Clk::time_point( ns( clk ) + us( rel ) );
	auto const is_even = []( uint32_t x ) { return x % 2 == 0; };
	bool expect = changed;
	switch( which ) {
	case 0:
		st = daw::atomic_wait_for( &a, old, us( rel ) );
		break;
	case 1:
		st = daw::atomic_wait_until( &a, old, until );
		break;
	case 2:
		st = daw::atomic_wait_if_for( &a, is_even, us( rel ) );
		expect = even;
		break;
	case 3:
		st = daw::atomic_wait_if_until( &a, is_even, until );
		expect = even;
		break;
	case 4:
		st = daw::atomic_wait_value_equal_for( &a, old, us( rel ) );
		expect = not changed;
		break;
	default:
		st = daw::atomic_wait_value_equal_until( &a, old, until );
		expect = not changed;
	}
	CHECK( ( st == daw::wait_status::found ) == expect );
	if( not expect ) {
		CHECK( clk - t0 >= 1000ll * rel );
		sym_reach( "timeout" );
	}
	CHECK( a.load( ) == v0 );
}

//@ q:preempt=2,time=200 t:preempt=3,time=900
ENTRY wait_for_predicate( ) {
	std::atomic<uint32_t> a( sym<uint32_t>( "v0" ) );
	uint32_t const v0 = a.load( );
	uint32_t const rel = sym<uint32_t>( "timeout" ), want = sym<uint32_t>( "want" );
	unsigned const which = static_cast<unsigned>( sym_pick( "which", 0, 3 ) );
	uint32_t last = v0;
	scenario( a, [&] {
		auto const pred = [&]( uint32_t x ) {
			last = x;
			return x == want;
		};
		switch( which ) {
		case 0:
			st = daw::atomic_wait_if_for( &a, pred, us( rel ) );
			break;
		case 1:
			st = daw::atomic_wait_if_until( &a, pred, Clk::time_point( ns( clk ) + us( rel ) ) );
			break;
		case 2:
			st = daw::atomic_wait_value_equal_for( &a, want, us( rel ) );
			break;
		default:
			st = daw::atomic_wait_value_equal_until( &a, want, Clk::time_point( ns( clk ) + us( rel ) ) );
		}
	} );
	if( st == daw::wait_status::found ) {
		CHECK( v0 == want or v1 == want or ( two and v2 == want ) );
		if( which < 2 ) {
			CHECK( last == want );
		}
		sym_reach( "found" );
	} else {
		CHECK( ended - started >= 1000ll * rel );
		if( which < 2 ) {
			CHECK( last != want );
		}
		sym_reach( "timeout" );
	}
}

// waiting without a deadline returns only with the condition met, and does return when it is; what was written before the value is visible
namespace {
	uint32_t data[2];
	uint32_t got;
	void steps( void * ) {
		data[0] = 5;
		ob->store( 1, std::memory_order_release );
		ob->notify_all( );
		data[1] = 6;
		ob->store( 2, std::memory_order_release );
		ob->notify_all( );
	}
} // namespace
//@ q:preempt=3,time=200 t:preempt=3,time=900
ENTRY wait_without_deadline( ) {
	std::atomic<uint32_t> a( 0 );
	ob = &a;
	sym_shared( data, sizeof data );
	unsigned const which = static_cast<unsigned>( sym_pick( "which", 0, 2 ) );
	sym_spawn( steps, nullptr );
	uint32_t last = 0;
	switch( which ) {
	case 0:
		daw::atomic_wait_value_equal( &a, 2u );
		last = 2;
		break;
	case 1:
		daw::atomic_wait_if( &a, [&]( uint32_t x ) {
			last = x;
			return x >= 1;
		} );
		break;
	default:
		daw::atomic_wait_if( &a, [&]( uint32_t x ) {
			last = x;
			return x == 2;
		} );
	}
	CHECK( last >= 1 );
	if( which != 1 ) {
		CHECK( last == 2 );
	}
	got = data[0];
	CHECK( got == 5 );
	if( last == 2 ) {
		got = data[1];
		CHECK( got == 6 );
	}
	sym_join( );
	sym_reach( "returned" );
}

// the timed forms hand over what was written before the value they found
//@ q:preempt=3,time=200 t:preempt=3,time=900
ENTRY wait_timed_publishes( ) {
	std::atomic<uint32_t> a( 0 );
	ob = &a;
	sym_shared( data, sizeof data );
	unsigned const which = static_cast<unsigned>( sym_pick( "which", 0, 3 ) );
	sym_spawn( steps, nullptr );
	uint32_t last = 0;
	auto const pred = [&]( uint32_t x ) {
		last = x;
		return x >= 1;
	};
	switch( which ) {
	case 0:
		st = daw::atomic_wait_for( &a, 0u, us( 20 ) );
		last = 1;
		break;
	case 1:
		st = daw::atomic_wait_if_for( &a, pred, us( 20 ) );
		break;
	case 2:
		st = daw::atomic_wait_value_equal_for( &a, 2u, us( 20 ) );
		last = 2;
		break;
	default:
		st = daw::atomic_wait_if_until( &a, pred, Clk::time_point( ns( clk ) + us( 20 ) ) );
	}
	if( st == daw::wait_status::found ) {
		got = data[0];
		CHECK( got == 5 );
		if( last == 2 ) {
			got = data[1];
			CHECK( got == 6 );
		}
		sym_reach( "found" );
	}
	sym_join( );
}
