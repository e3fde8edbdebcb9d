// the stack based quick sort
#include "stdrt.h"
#include "common.h"
#include <functional>
#include <daw/deprecated/daw_stack_quick_sort.h>

namespace {
	template<typename T>
	void same_values( T const *a, T const *o, size_t n ) {
		// a permutation: every value is there as often as before
		T const v = sym<T>( "v" );
		size_t x = 0, y = 0;
		for( size_t i = 0; i < n; ++i ) {
			x += a[i] == v ? 1 : 0;
			y += o[i] == v ? 1 : 0;
		}
		CHECK( x == y );
	}

	template<typename T, typename Cmp>
	void check_sorted( T const *a, T const *o, size_t n, Cmp cmp ) {
		for( size_t i = 1; i < n; ++i ) {
			CHECK( not cmp( a[i], a[i - 1] ) );
		}
		same_values( a, o, n );
	}
} // namespace

//@ q:N=3 t:N=3
//@ bounds: every n <= N 16-bit values, any values, ascending and descending
ENTRY quick_sort_any( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "N", 3 ) );
	Arr<int16_t> a( n, "a" );
	int16_t o[8];
	for( size_t i = 0; i < n; ++i ) o[i] = a[i];
	if( sym_bool( "down" ) ) {
		daw::quick_sort( a.p, a.p + n, std::greater<>{ } );
		check_sorted( a.p, o, n, std::greater<>{ } );
	} else {
		daw::quick_sort( a.p, a.p + n );
		check_sorted( a.p, o, n, std::less<>{ } );
	}
}

//@ q:N=8 t:N=12 t:time=500
//@ bounds: every n <= N values out of two distinct ones, any arrangement
ENTRY quick_sort_two_values( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "N", 8 ) );
	Arr<uint8_t> a( n, "a" );
	uint8_t o[16];
	for( size_t i = 0; i < n; ++i ) {
		a[i] = a[i] & 1u;
		o[i] = a[i];
	}
	daw::quick_sort( a.p, a.p + n );
	check_sorted( a.p, o, n, std::less<>{ } );
}

//@ q:N=6 t:N=9
//@ bounds: every n <= N values that are in order already
ENTRY quick_sort_in_order( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "N", 6 ) );
	Arr<int16_t> a( n, "a" );
	int16_t o[16];
	for( size_t i = 0; i < n; ++i ) o[i] = a[i];
	for( size_t i = 1; i < n; ++i ) sym_assume( a[i - 1] <= a[i] );
	daw::quick_sort( a.p, a.p + n );
	check_sorted( a.p, o, n, std::less<>{ } );
}

//@ q:N=5,time=120 t:N=6,time=500
//@ bounds: every n <= N 16-bit values, any values: a permutation, nothing outside the range touched
ENTRY quick_sort_permutes( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "N", 5 ) );
	Arr<int16_t> a( n, "a" );
	int16_t o[8];
	for( size_t i = 0; i < n; ++i ) o[i] = a[i];
	daw::quick_sort( a.p, a.p + n );
	same_values( a.p, o, n );
}

//@ known=F-P13-1
//@ q:N=4 t:N=4
//@ bounds: four values, at least three distinct ones and not in order
ENTRY quick_sort_waiting_parts( ) {
	size_t const n = 4;
	Arr<int16_t> a( n, "a" );
	int16_t o[8];
	for( size_t i = 0; i < n; ++i ) o[i] = a[i];
	// at least three distinct values
	bool three = false;
	for( size_t i = 0; i < n; ++i )
		for( size_t j = 0; j < i; ++j )
			for( size_t k = 0; k < j; ++k )
				three = three | ( ( o[i] != o[j] ) & ( o[i] != o[k] ) & ( o[j] != o[k] ) );
	sym_assume( three );
	sym_assume( not( ( o[0] <= o[1] ) & ( o[1] <= o[2] ) & ( o[2] <= o[3] ) ) );
	daw::quick_sort( a.p, a.p + n );
	for( size_t i = 1; i < n; ++i ) {
		sym_assert( not( a[i] < a[i - 1] ), "quick sort left a part unsorted" );
	}
}
