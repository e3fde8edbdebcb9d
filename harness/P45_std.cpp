// iterator stepping, swapping, exchanging, forwarding and other helpers that stand in for standard ones
//@ bounds: values complete; sequences of <=6 elements, every start and every distance that stays inside
#include "stdrt.h"
#include "common.h"
#include <array>
#include <compare>
#include <iterator>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <daw/algorithms/daw_algorithm_accumulate.h>
#include <daw/compressed_pair.h>
#include <daw/cpp_17.h>
#include <daw/cpp_17_iterator.h>
#include <daw/cpp_20.h>
#include <daw/daw_exchange.h>
#include <daw/daw_forward_like.h>
#include <daw/daw_iterator_traits.h>
#include <daw/daw_monadic_pointer_ops.h>
#include <daw/daw_nth_pack_element.h>
#include <daw/daw_ordering_to_integer.h>
#include <daw/daw_swap.h>

namespace {
	// an iterator over an array that offers no more than its category and never leaves the array
	template<typename Cat>
	struct It {
		using iterator_category = Cat;
		using value_type = uint32_t;
		using difference_type = std::ptrdiff_t;
		using pointer = uint32_t *;
		using reference = uint32_t &;
		uint32_t *p = nullptr, *lo = nullptr, *hi = nullptr;
		uint32_t &operator*( ) const {
			CHECK( p >= lo and p < hi );
			return *p;
		}
		It &operator++( ) {
			CHECK( p < hi );
			++p;
			return *this;
		}
		It operator++( int ) {
			It r = *this;
			++*this;
			return r;
		}
		It &operator--( )
		  requires( std::is_base_of_v<std::bidirectional_iterator_tag, Cat> ) {
			CHECK( p > lo );
			--p;
			return *this;
		}
		friend bool operator==( It const &a, It const &b ) {
			return a.p == b.p;
		}
	};
	// an object that knows how often each way of swapping it was used
	struct MemberSwap {
		std::unique_ptr<uint32_t> v;
		static inline int swaps = 0;
		void swap( MemberSwap &o ) {
			++swaps;
			v.swap( o.v );
		}
	};
	struct AdlSwap {
		std::unique_ptr<uint32_t> v;
		static inline int swaps = 0;
		friend void swap( AdlSwap &a, AdlSwap &b ) {
			++swaps;
			std::swap( a.v, b.v );
		}
	};

	template<typename Cat>
	void stepping( ) {
		size_t const n = sym_pick( "n", 0, sym_param( "k", 5 ) );
		Arr<uint32_t> a( n, "a" );
		size_t const i = sym_pick( "i", 0, n ), j = sym_pick( "j", 0, n );
		std::ptrdiff_t const d = static_cast<std::ptrdiff_t>( j ) - static_cast<std::ptrdiff_t>( i );
		bool const back = std::is_base_of_v<std::bidirectional_iterator_tag, Cat>;
		using I = std::conditional_t<std::is_same_v<Cat, std::random_access_iterator_tag>, uint32_t *, It<Cat>>;
		auto mk = [&]( size_t at ) -> I {
			if constexpr( std::is_pointer_v<I> ) return a.p + at;
			else return I{ a.p + at, a.p, a.p + n };
		};
		I const it = mk( i ), to = mk( j );
		if( d >= 0 or std::is_pointer_v<I> ) {
			CHECK( daw::distance( it, to ) == d );
		}
		if( d >= 0 or back ) {
			I x = it;
			daw::advance( x, d );
			CHECK( x == to );
			I y = it;
			daw::advance( y, static_cast<int>( d ) );
			CHECK( y == to );
			CHECK( daw::next( it, d ) == to );
			CHECK( daw::prev( it, -d ) == to );
		}
		if( i < n ) {
			CHECK( daw::next( it ) == mk( i + 1 ) );
		}
		if constexpr( std::is_base_of_v<std::bidirectional_iterator_tag, Cat> ) {
			if( i > 0 ) {
				CHECK( daw::prev( it ) == mk( i - 1 ) );
			}
		}
	}
} // namespace

//@ q:k=5 t:k=8
ENTRY step_input( ) {
	stepping<std::input_iterator_tag>( );
}
//@ q:k=5 t:k=8
ENTRY step_forward( ) {
	stepping<std::forward_iterator_tag>( );
}
//@ q:k=5 t:k=8
ENTRY step_bidirectional( ) {
	stepping<std::bidirectional_iterator_tag>( );
}
//@ q:k=5 t:k=8
ENTRY step_random( ) {
	stepping<std::random_access_iterator_tag>( );
}
ENTRY step_output( ) {
	struct Out {
		using iterator_category = std::output_iterator_tag;
		using value_type = void;
		using difference_type = std::ptrdiff_t;
		using pointer = void;
		using reference = void;
		int steps = 0;
		Out &operator++( ) {
			++steps;
			return *this;
		}
	};
	int const n = static_cast<int>( sym_pick( "n", 0, 4 ) );
	Out o;
	daw::advance( o, n );
	CHECK( o.steps == n );
	CHECK( daw::next( Out{ }, n ).steps == n );
}

// ---- swapping
ENTRY swap_values( ) {
	{
		uint64_t const a = sym_u64( "a" ), b = sym_u64( "b" );
		uint64_t x = a, y = b;
		daw::cswap( x, y );
		CHECK( x == b and y == a );
		daw::cswap( x, x );
		CHECK( x == b );
		uint64_t *px = &x, *py = &y;
		daw::cswap( px, py );
		CHECK( px == &y and py == &x );
		daw::iter_swap( px, py );
		CHECK( x == a and y == b );
		daw::iter_swap( px, px );
		CHECK( y == b );
		struct S {
			uint64_t v;
			uint8_t w;
		} s{ a, 1 }, t{ b, 2 };
		daw::cswap( s, t );
		CHECK( s.v == b and s.w == 2 and t.v == a and t.w == 1 );
	}
	{
		uint32_t const a = sym_u32( "c" ), b = sym_u32( "d" );
		LeakGuard g;
		Track x( a ), y( b );
		daw::cswap( x, y );
		CHECK( x.get( ) == b and y.get( ) == a );
		daw::iter_swap( &x, &y );
		CHECK( x.get( ) == a and y.get( ) == b );
		std::string s( "a string too long for the small buffer" ), t( "t" );
		daw::cswap( s, t );
		CHECK( s == "t" and t == "a string too long for the small buffer" );
		MemberSwap m{ std::make_unique<uint32_t>( a ) }, n{ std::make_unique<uint32_t>( b ) };
		daw::cswap( m, n );
		CHECK( *m.v == b and *n.v == a and MemberSwap::swaps == 1 );
		AdlSwap p{ std::make_unique<uint32_t>( a ) }, q{ std::make_unique<uint32_t>( b ) };
		daw::cswap( p, q );
		CHECK( *p.v == b and *q.v == a and AdlSwap::swaps == 1 );
	}
}

//@ q:k=4 t:k=6
ENTRY swap_sequences( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "k", 4 ) ), m = n + sym_pick( "more", 0, 1 );
	Arr<uint32_t> a( n, "a" ), b( m, "b" );
	std::vector<uint32_t> const oa( a.p, a.p + n ), ob( b.p, b.p + m );
	auto *r = daw::swap_ranges( a.p, a.p + n, b.p );
	CHECK( r == b.p + n );
	for( size_t i = 0; i < n; ++i ) {
		CHECK( a[i] == ob[i] and b[i] == oa[i] );
	}
	if( m > n ) {
		CHECK( b[n] == ob[n] );
	}
	std::array<uint32_t, 3> x{ sym_u32( "x0" ), sym_u32( "x1" ), sym_u32( "x2" ) }, y{ sym_u32( "y0" ), sym_u32( "y1" ), sym_u32( "y2" ) };
	auto const ox = x, oy = y;
	daw::cswap( x, y );
	CHECK( x == oy and y == ox );
	std::array<Track, 2> u{ Track( ox[0] ), Track( ox[1] ) }, v{ Track( oy[0] ), Track( oy[1] ) };
	daw::cswap( u, v );
	CHECK( u[0].get( ) == oy[0] and u[1].get( ) == oy[1] and v[0].get( ) == ox[0] and v[1].get( ) == ox[1] );
}

// ---- values handed on
ENTRY values( ) {
	uint32_t const a = sym_u32( "a" ), b = sym_u32( "b" );
	{
		uint32_t x = a;
		CHECK( daw::exchange( x, b ) == a and x == b );
		LeakGuard g;
		Track t( a );
		Track const old = daw::exchange( t, Track( b ) );
		CHECK( old.get( ) == a and t.get( ) == b );
		std::string s( "a string too long for the small buffer" );
		std::string const so = daw::exchange( s, "x" );
		CHECK( so == "a string too long for the small buffer" and s == "x" );
	}
	{
		uint32_t x = a;
		auto &c = daw::as_const( x );
		static_assert( std::is_same_v<decltype( daw::as_const( x ) ), uint32_t const &> );
		CHECK( &c == &x );
		std::vector<uint32_t> const v( sym_pick( "n", 0, 2 ), a );
		CHECK( daw::size( v ) == v.size( ) );
		auto d = daw::decay_copy( c );
		static_assert( std::is_same_v<decltype( d ), uint32_t> );
		d = b;
		CHECK( x == a );
		char const lit[] = "abc";
		char const *p = daw::decay_copy( lit );
		CHECK( p == lit );
		LeakGuard g;
		Track t( a );
		Track u = daw::decay_copy( t );
		CHECK( t.get( ) == a and u.get( ) == a );
		Track w = daw::decay_copy( std::move( t ) );
		CHECK( w.get( ) == a and t.state == Track::moved );
	}
	{
		auto is_odd = []( uint32_t v ) { return v % 2 == 1; };
		auto n = daw::not_fn( is_odd );
		CHECK( n( a ) == ( a % 2 == 0 ) );
		auto const &cn = n;
		CHECK( cn( b ) == ( b % 2 == 0 ) );
		CHECK( daw::not_fn( []( uint32_t x, uint32_t y ) { return x < y; } )( a, b ) == ( a >= b ) );
		struct Less {
			bool operator( )( uint32_t x, uint32_t y ) const {
				return x < y;
			}
		};
		CHECK( daw::not_fn<Less>( )( a, b ) == ( a >= b ) );
		int calls = 0;
		auto counting = daw::not_fn( [&calls, k = 0u]( ) mutable { ++calls; return ++k > 1; } );
		CHECK( counting( ) and not counting( ) and calls == 2 );
	}
	{
		uint32_t arr[2] = { a, b };
		CHECK( daw::to_address( arr + 1 ) == arr + 1 );
		auto const up = std::make_unique<uint32_t>( a );
		CHECK( daw::to_address( up ) == up.get( ) );
		std::vector<uint32_t> v{ a, b };
		CHECK( daw::to_address( v.begin( ) + 1 ) == v.data( ) + 1 );
	}
}

ENTRY packs( ) {
	uint32_t const a = sym_u32( "a" );
	uint64_t const b = sym_u64( "b" );
	uint8_t const c = sym_u8( "c" );
	LeakGuard g;
	CHECK( daw::nth_pack_element<0>( a, b, c ) == a );
	CHECK( daw::nth_pack_element<1>( a, b, c ) == b );
	CHECK( daw::nth_pack_element<2>( a, b, c ) == c );
	static_assert( std::is_same_v<decltype( daw::nth_pack_element<1>( a, b, c ) ), uint64_t> );
	uint32_t x = a;
	uint64_t y = b;
	static_assert( std::is_same_v<decltype( daw::forward_nth_pack_element<0>( x, y ) ), uint32_t &> );
	static_assert( std::is_same_v<decltype( daw::forward_nth_pack_element<1>( x, std::move( y ) ) ), uint64_t &&> );
	CHECK( &daw::forward_nth_pack_element<0>( x, y ) == &x );
	CHECK( &daw::forward_nth_pack_element<1>( x, y ) == &y );
	Track t( a ), u( c );
	Track v = daw::nth_pack_element<1>( t, std::move( u ) );
	CHECK( v.get( ) == c and u.state == Track::moved and t.get( ) == a );
	// forwarding a part the way its owner is
	static_assert( std::is_same_v<decltype( daw::forward_like<int &>( x ) ), uint32_t &> );
	static_assert( std::is_same_v<decltype( daw::forward_like<int const &>( x ) ), uint32_t const &> );
	static_assert( std::is_same_v<decltype( daw::forward_like<int>( x ) ), uint32_t &&> );
	static_assert( std::is_same_v<decltype( daw::forward_like<int const>( x ) ), uint32_t const &&> );
	CHECK( &daw::forward_like<int &>( x ) == &x );
	CHECK( &daw::forward_like<int const &>( x ) == &x );
	Track w = daw::forward_like<int &>( t );
	CHECK( w.get( ) == a and t.get( ) == a );
	Track z = daw::forward_like<int>( t );
	CHECK( z.get( ) == a and t.state == Track::moved );
}

ENTRY pointers_in_chains( ) {
	uint32_t const a = sym_u32( "a" ), b = sym_u32( "b" );
	bool const null = sym_bool( "null" );
	uint32_t x = a, y = b;
	uint32_t *p = null ? nullptr : &x;
	int calls = 0;
	auto r = daw::monadic_ptr::and_then( p, [&]( uint32_t *q ) {
		++calls;
		return *q + 1u;
	} );
	CHECK( calls == ( null ? 0 : 1 ) );
	CHECK( r == ( null ? 0u : a + 1u ) );
	auto *e = daw::monadic_ptr::or_else( p, [&] {
		++calls;
		return &y;
	} );
	CHECK( calls == 1 );
	CHECK( e == ( null ? &y : &x ) );
	auto const t = daw::monadic_ptr::transform( p, [&]( uint32_t *q ) { return q == nullptr ? b : *q; } );
	CHECK( t == ( null ? b : a ) );
	auto up = null ? nullptr : std::make_unique<uint32_t>( a );
	auto moved = daw::monadic_ptr::or_else( std::move( up ), [&] { return std::make_unique<uint32_t>( b ); } );
	CHECK( *moved == ( null ? b : a ) and not up );
}

//@ q:k=5 t:k=10
ENTRY sums( ) {
	size_t const n = sym_pick( "n", 0, sym_param( "k", 5 ) );
	Arr<uint32_t> a( n, "a" );
	uint32_t const init = sym_u32( "init" );
	uint32_t sum = init, fold = init;
	for( size_t i = 0; i < n; ++i ) {
		sum += a[i];
		fold = fold * 31u - a[i];
	}
	CHECK( daw::algorithm::accumulate( a.p, a.p + n, init ) == sum );
	CHECK( daw::algorithm::accumulate( a.p, a.p + n, init, []( uint32_t x, uint32_t y ) { return x + y; } ) == sum );
	CHECK( daw::algorithm::accumulate( a.p, a.p + n, init, []( uint32_t x, uint32_t y ) { return x * 31u - y; } ) == fold );
	using I = It<std::input_iterator_tag>;
	CHECK( daw::algorithm::accumulate( I{ a.p, a.p, a.p + n }, I{ a.p + n, a.p, a.p + n }, init, []( uint32_t x, uint32_t y ) { return x * 31u - y; } ) == fold );
	// the last and the first of a sequence
	std::vector<uint32_t> v( a.p, a.p + n );
	CHECK( daw::empty_range( v ) == ( n == 0 ) );
	CHECK( daw::iter_last( v ) == ( n == 0 ? v.begin( ) : v.end( ) - 1 ) );
}

// ---- two values where an empty one takes no room
namespace {
	struct Empty {
		uint32_t operator( )( uint32_t x ) const {
			return x + 1u;
		}
	};
} // namespace
ENTRY pairs( ) {
	uint32_t const a = sym_u32( "a" ), b = sym_u32( "b" ), c = sym_u32( "c" );
	LeakGuard g;
	using P = daw::compressed_pair<uint32_t, Empty>;
	static_assert( sizeof( P ) == sizeof( uint32_t ) );
	P p( a, Empty{ } );
	CHECK( p.first( ) == a and p.second( )( a ) == a + 1u );
	P z;
	CHECK( z.first( ) == 0 );
	using Q = daw::compressed_pair<uint32_t, Track>;
	Q q( a, b ), r( b, c );
	auto const &cq = q;
	CHECK( cq.first( ) == a and cq.second( ).get( ) == b );
	q.swap( r );
	CHECK( q.first( ) == b and q.second( ).get( ) == c and r.first( ) == a and r.second( ).get( ) == b );
	swap( q, r );
	CHECK( q.first( ) == a and q.second( ).get( ) == b );
	q.first( ) = c;
	q.second( ) = Track( a );
	CHECK( cq.first( ) == c and cq.second( ).get( ) == a );
	Q pw( std::piecewise_construct, std::tuple<uint32_t>( a ), std::tuple<uint32_t>( b ) );
	CHECK( pw.first( ) == a and pw.second( ).get( ) == b );
	CHECK( &Q::get_first_base( &pw )->get( ) == &pw.first( ) and &Q::get_second_base( &pw )->get( ) == &pw.second( ) );
}

// ---- three-way results as integers
ENTRY orderings( ) {
	uint32_t const a = sym_u32( "a" ), b = sym_u32( "b" );
	auto const o = a <=> b;
	auto const e = daw::order_to_enum( o );
	CHECK( ( e == daw::strong_ordering::less ) == ( a < b ) );
	CHECK( ( e == daw::strong_ordering::greater ) == ( a > b ) );
	CHECK( ( e == daw::strong_ordering::equal ) == ( a == b ) );
	CHECK( daw::strong_ordering::equal == daw::strong_ordering::equivalent );
	CHECK( daw::equal_or_equivalent( o ) == ( a == b ) );
	CHECK( daw::equal_or_equivalent( e ) == ( a == b ) );
	std::weak_ordering const w = o;
	auto const we = daw::order_to_enum( w );
	CHECK( ( we == daw::weak_ordering::less ) == ( a < b ) and ( we == daw::weak_ordering::greater ) == ( a > b ) );
	CHECK( daw::equal_or_equivalent( w ) == ( a == b ) and daw::equal_or_equivalent( we ) == ( a == b ) );
	bool const un = sym_bool( "un" );
	std::partial_ordering const po = un ? std::partial_ordering::unordered : std::partial_ordering( o );
	auto const pe = daw::order_to_enum( po );
	CHECK( ( pe == daw::partial_ordering::unordered ) == un );
	CHECK( ( pe == daw::partial_ordering::less ) == ( not un and a < b ) and ( pe == daw::partial_ordering::greater ) == ( not un and a > b ) );
	CHECK( daw::equal_or_equivalent( po ) == ( not un and a == b ) and daw::equal_or_equivalent( pe ) == ( not un and a == b ) );
}
