#include "common.h"
#include "stdrt.h"
#include <array>
#include <deque>
#include <functional>
#include <vector>
#include <stdexcept>
#include <daw/iterator/InputIterator.h>
#include <daw/iterator/daw_argument_iterator.h>
#include <daw/iterator/daw_back_inserter.h>
#include <daw/iterator/daw_checked_iterator_proxy.h>
#include <daw/iterator/daw_chunk_iterator.h>
#include <daw/iterator/daw_circular_iterator.h>
#include <daw/iterator/daw_counting_iterators.h>
#include <daw/iterator/daw_end_inserter.h>
#include <daw/iterator/daw_find_iterator.h>
#include <daw/iterator/daw_find_one_iterator.h>
#include <daw/iterator/daw_function_iterator.h>
#include <daw/iterator/daw_indexed_iterator.h>
#include <daw/iterator/daw_inserter.h>
#include <daw/iterator/daw_integer_iterator.h>
#include <daw/iterator/daw_iota_iterator.h>
#include <daw/iterator/daw_output_stream_iterator.h>
#include <daw/iterator/daw_pointer_iterator.h>
#include <daw/iterator/daw_random_iterator.h>
#include <daw/iterator/daw_repeat_n_char_iterator.h>
#include <daw/iterator/daw_reverse_iterator.h>
#include <daw/iterator/daw_sorted_insert_iterator.h>
#include <daw/daw_zipcontainer.h>
#include <daw/wrap_iter.h>

using U = uint32_t;
using DT = std::ptrdiff_t;
template<typename It>
static void order( It const &a, It const &b, DT x, DT y ) {
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) );
	CHECK( ( a < b ) == ( x < y ) and ( a > b ) == ( x > y ) and ( a <= b ) == ( x <= y ) and ( a >= b ) == ( x >= y ) );
}
static DT pos( char const *n, DT hi ) { return static_cast<DT>( sym_pick( n, 0, static_cast<size_t>( hi ) ) ); }
// steps of an iterator `mk( k )` that denotes position k of 0..N; at( it ) recovers the position
template<DT N, typename Mk, typename At>
static void walk( Mk mk, At at ) {
	DT const i = pos( "i", N ), j = pos( "j", N ), d = j - i;
	auto a = mk( i );
	switch( sym_pick( "step", 0, 5 ) ) {
	case 0: sym_assume( i < N ); { auto &r = ++a; CHECK( at( a ) == i + 1 and &r == &a ); } break;
	case 1: sym_assume( i < N ); { auto o = a++; CHECK( at( a ) == i + 1 and at( o ) == i ); } break;
	case 2: sym_assume( i > 0 ); { --a; CHECK( at( a ) == i - 1 ); } break;
	case 3: sym_assume( i > 0 ); { auto o = a--; CHECK( at( a ) == i - 1 and at( o ) == i ); } break;
	case 4: a += d; CHECK( at( a ) == j ); break;
	default: a -= -d; CHECK( at( a ) == j ); break;
	}
}
template<DT N, typename Mk, typename At>
static void jump( Mk mk, At at ) {
	DT const i = pos( "i", N ), j = pos( "j", N ), d = j - i;
	auto a = mk( i ); auto const b = mk( j );
	auto p = a + d; auto q = a - -d;
	CHECK( at( p ) == j and at( q ) == j and at( a ) == i );
	CHECK( b - a == d and a - b == -d );
	order( a, b, i, j );
}
//@ bounds: arrays of 4, all positions, steps and values
ENTRY chunk( ) {
	U x[12]; sym_bytes( x, sizeof( x ), "x" );
	using I = daw::chunk_iterator<U *>;
	auto mk = [&]( DT k ) { return I( x + k * 3, 3 ); };
	auto at = [&]( I const &it ) { DT d = &*it - x; CHECK( d % 3 == 0 ); return d / 3; };
	if( sym_bool( "w" ) ) walk<4>( mk, at ); else jump<4>( mk, at );
	DT k = pos( "k", 3 ); I it = mk( k ); I const ci = it; size_t e = sym_pick( "e", 0, 2 );
	CHECK( &it[e] == x + k * 3 + e and &ci[e] == x + k * 3 + e and &*it == x + k * 3 );
	I z = k + mk( 0 ); CHECK( at( z ) == k );
	sym_reach( "end" );
}
struct Pt { U a, b; };
//@ bounds: arrays of 3
ENTRY arrows( ) {
	Pt x[3]; sym_bytes( x, sizeof( x ), "x" ); U v = sym_u32( "v" );
	size_t k = sym_pick( "k", 0, 2 );
	DT s = static_cast<DT>( k );
	{ daw::chunk_iterator<Pt *> it( x + k, 1 ); it->b = v; CHECK( x[k].b == v and std::as_const( it )->a == x[k].a ); }
	{ daw::circular_iterator<Pt[3]> it( x, x + k ); it->a = v; CHECK( x[k].a == v ); }
	{ daw::pointer_iterator<Pt> it( x + k ); it->a = v + 1; CHECK( x[k].a == v + 1 and &it[ -s ] == x and &*it == x + k and it.get( ) == x + k ); }
	{ daw::RandomIterator<Pt> it( x + k ); it->a = v + 2; CHECK( x[k].a == v + 2 and &*it == x + k and it.ptr( ) == x + k and &*std::as_const( it ) == x + k ); }
	{ daw::reverse_iterator<Pt *> it( x + k + 1 ); it->a = v + 3; CHECK( x[k].a == v + 3 and &std::as_const( it )->a == &x[k].a ); }
	{ daw::forward_counting_iterator<Pt *> it( x + k ); it->a = v + 4; CHECK( x[k].a == v + 4 ); }
	{ daw::bidirectional_counting_iterator<Pt *> it( x + k ); it->a = v + 5; CHECK( x[k].a == v + 5 ); }
	{ auto it = daw::make_checked_iterator_proxy( x + k, x + 3 ); it->a = v + 6; CHECK( x[k].a == v + 6 and &std::as_const( it )->a == &x[k].a and &*std::as_const( it ) == x + k ); }
	{ std::array<Pt, 3> y{ }; daw::indexed_iterator it( &y, k ); it->a = v; CHECK( y[k].a == v and &*it == &y[k] and &std::as_const( it )->a == &y[k].a and &*std::as_const( it ) == &y[k] ); }
	{ auto f = [&]( Pt const &p ) { return &p >= x + k; }; daw::find_iterator it( x, x + 3, f ); CHECK( &it->a == &x[k].a and &std::as_const( it )->a == &x[k].a ); }
	{ daw::wrap_iter<Pt *> it( x + k ); CHECK( it.operator->( ) == x + k and &*it == x + k and it.base( ) == x + k and &it[ -s ] == x ); }
	sym_reach( "end" );
}
//@ bounds: containers of 1..4 elements, all start positions, all steps of magnitude up to 2^30
ENTRY circular( ) {
	U x[4]; sym_bytes( x, sizeof( x ), "x" );
	size_t n = sym_pick( "n", 1, 4 );
	std::vector<U> v( x, x + n );
	DT const i = static_cast<DT>( sym_pick( "i", 0, n - 1 ) ), sz = static_cast<DT>( n );
	auto a = daw::make_circular_iterator( v, v.begin( ) + i );
	U s32 = sym_u32( "step" ); DT s = static_cast<DT>( s32 ) - ( DT{ 1 } << 31 );
	sym_assume( s <= ( DT{ 1 } << 30 ) and s >= -( DT{ 1 } << 30 ) );
	DT e = ( i + s ) % sz; if( e < 0 ) e += sz;
	DT em = ( i - s ) % sz; if( em < 0 ) em += sz;
	U *d = v.data( );
	switch( sym_pick( "op", 0, 8 ) ) {
	case 0: a += s; CHECK( &*a == d + e ); break;
	case 1: a -= s; CHECK( &*a == d + em ); break;
	case 2: { auto b = a + s; CHECK( &*b == d + e and &*a == d + i ); } break;
	case 3: { auto b = a - s; CHECK( &*b == d + em and &*a == d + i ); } break;
	case 4: sym_assume( s == 1 ); { auto o = a++; CHECK( &*a == d + e and &*o == d + i ); } break;
	case 5: sym_assume( s == 1 ); { auto o = a--; CHECK( &*a == d + em and &*o == d + i ); } break;
	case 6: sym_assume( s == 1 ); ++a; CHECK( &*a == d + e ); break;
	case 7: sym_assume( s == 1 ); --a; CHECK( &*a == d + em ); break;
	default: {
		auto b = daw::make_circular_iterator( v ); CHECK( &*b == d and a - b == i );
		order( a, b, i, 0 );
		auto c = b; c = a; CHECK( c == a ); order( c, a.end( ), i, sz );
		CHECK( a.end( ) - c == sz - i );
		U y[3] = { 1, 2, 3 }; daw::circular_iterator<U[3]> ca( &y ), cb( &y, y + 2 ); CHECK( &*ca == y and &*cb == y + 2 and &*( ca + 5 ) == y + 2 and &*( ca - 3 ) == y );
	} break;
	}
	sym_reach( "end" );
}
//@ bounds: arrays of 4, all positions
ENTRY random_access( ) {
	U x[4]; sym_bytes( x, sizeof( x ), "x" );
	unsigned w = static_cast<unsigned>( sym_pick( "what", 0, 9 ) );
	auto kw = [&]( auto mk, auto at ) { if( w % 2 ) walk<4>( mk, at ); else jump<4>( mk, at ); };
	switch( w / 2 ) {
	case 0: { using I = daw::pointer_iterator<U>;
		auto mk = [&]( DT k ) { return I( x + k ); }; auto at = [&]( I const &it ) { return it.get( ) - x; };
		kw( mk, at );
		DT k = pos( "k", 3 ); I it( x + k ); daw::pointer_iterator<U const> ci( it ); CHECK( &*ci == x + k and ci.get( ) == x + k ); ci = I( x ); CHECK( ci.get( ) == x and it - ci == k ); } break;
	case 1: { using I = daw::RandomIterator<U>;
		auto mk = [&]( DT k ) { return daw::make_random_iterator( x + k ); }; auto at = [&]( I const &it ) { return it.ptr( ) - x; };
		kw( mk, at );
		DT k = pos( "k", 3 ); I it; CHECK( it.ptr( ) == nullptr ); it = x + k; CHECK( it.ptr( ) == x + k ); auto c = daw::make_const_random_iterator( x + k ); static_assert( std::is_same_v<decltype( *c ), U const &> ); CHECK( &*c == x + k ); } break;
	case 2: { using I = daw::reverse_iterator<U *>;
		auto mk = [&]( DT k ) { return daw::make_reverse_iterator( x + 4 - k ); }; auto at = [&]( I const &it ) { return x + 4 - it.base( ); };
		kw( mk, at );
		DT k = pos( "k", 3 ), e = pos( "e", 3 - k ); I it = mk( k ); CHECK( &*it == x + 3 - k and &*std::as_const( it ) == x + 3 - k and &it[e] == x + 3 - k - e and &std::as_const( it )[e] == x + 3 - k - e and at( e + it ) == k + e ); } break;
	case 3: { using I = daw::wrap_iter<U *>;
		auto mk = [&]( DT k ) { return I( x + k ); }; auto at = [&]( I const &it ) { return it.base( ) - x; };
		kw( mk, at );
		DT k = pos( "k", 3 ), e = pos( "e", 3 - k ); I it = mk( k ); CHECK( &it[e] == x + k + e and at( e + it ) == k + e ); daw::wrap_iter<U const *, U *> ci( it ); CHECK( ci.base( ) == x + k ); } break;
	default: { std::array<U, 4> y{ }; using I = daw::indexed_iterator<std::array<U, 4>>;
		auto mk = [&]( DT k ) { return I( &y, static_cast<size_t>( k ) ); }; auto at = [&]( I const &it ) { return it - daw::ibegin( y ); };
		kw( mk, at );
		DT k = pos( "k", 3 ), e = pos( "e", 4 ); I it = mk( k );
		CHECK( at( it.next( e - k ) ) == e and at( it.prev( k - e ) ) == e and at( it ) == k and it.compare( mk( e ) ) == ( k > e ) - ( k < e ) );
		it.advance( e - k ); CHECK( at( it ) == e and daw::iend( y ) - it == 4 - e );
		auto c = daw::cibegin( y ); auto d = daw::ciend( y ); CHECK( d - c == 4 and &*c == y.data( ) and not( c == d ) ); c += 4; CHECK( c == d and not( c != d ) and c <= d and c >= d and not( c < d ) and not( c > d ) );
		CHECK( daw::ibegin( x ) == x and daw::iend( x ) == x + 4 and daw::cibegin( x ) == x and daw::ciend( x ) == x + 4 ); } break;
	}
	sym_reach( "end" );
}
//@ bounds: containers of 0..3 elements: everything past the ends stops the program
ENTRY indexed_bounds( ) {
	size_t n = sym_pick( "n", 0, 3 );
	std::vector<U> v( n );
	sym_expect_terminate( true );
	size_t i = sym_pick( "i", 0, 4 );
	DT d = static_cast<DT>( sym_pick( "d", 0, 10 ) ) - 5;
	daw::indexed_iterator it( &v, i );
	CHECK( i <= n );
	DT const k = static_cast<DT>( i ), sz = static_cast<DT>( n );
	switch( sym_pick( "op", 0, 12 ) ) {
	case 0: { U &r = *it; CHECK( i < n and &r == v.data( ) + i ); } break;
	case 1: { U const &r = *std::as_const( it ); CHECK( i < n and &r == v.data( ) + i ); } break;
	case 2: { U *r = it.operator->( ); CHECK( i < n and r == v.data( ) + i ); } break;
	case 3: { U const *r = std::as_const( it ).operator->( ); CHECK( i < n and r == v.data( ) + i ); } break;
	case 4: ++it; CHECK( i < n ); break;
	case 5: it++; CHECK( i < n ); break;
	case 6: --it; CHECK( i > 0 ); break;
	case 7: it--; CHECK( i > 0 ); break;
	case 8: it += d; CHECK( k + d >= 0 and k + d <= sz ); break;
	case 9: it -= d; CHECK( k - d >= 0 and k - d <= sz ); break;
	case 10: (void)( it + d ); (void)it.next( d ); CHECK( k + d >= 0 and k + d <= sz ); break;
	case 11: (void)( it - d ); (void)it.prev( d ); CHECK( k - d >= 0 and k - d <= sz ); break;
	default: it.advance( d ); CHECK( k + d >= 0 and k + d <= sz ); break;
	}
	sym_reach( "end" );
}
//@ bounds: ranges of 0..3 of a larger array, every combination of the three checks
ENTRY checked_proxy( ) {
	U x[5]; sym_bytes( x, sizeof( x ), "x" );
	size_t n = sym_pick( "n", 0, 3 ), i = sym_pick( "i", 0, n );
	bool ci = sym_bool( "ci" ), cd = sym_bool( "cd" ), cr = sym_bool( "cr" );
	U *f = x + 1, *l = f + n;
	auto it = daw::make_checked_iterator_proxy( f, l, ci, cd, cr );
	for( size_t k = 0; k < i; ++k ) { auto o = it++; CHECK( o == f + k and it == f + k + 1 ); }
	CHECK( it == f + i and not( it != f + i ) );
	auto jt = it; CHECK( jt == it and not( jt != it ) );
	U *const p = f + i;
	auto thr = [&]( auto fn, bool want ) { bool t = throws_as<std::out_of_range>( fn ); CHECK( t == want ); return t; };
	switch( sym_pick( "op", 0, 7 ) ) {
	case 0: if( not thr( [&] { ++it; }, ci and i == n ) ) CHECK( it == p + 1 ); break;
	case 1: if( not thr( [&] { auto o = it++; CHECK( o == p ); }, ci and i == n ) ) CHECK( it == p + 1 ); break;
	case 2: if( not thr( [&] { --it; }, cd and i == 0 ) ) CHECK( it == p - 1 ); break;
	case 3: if( not thr( [&] { auto o = it--; CHECK( o == p ); }, cd and i == 0 ) ) CHECK( it == p - 1 ); break;
	case 4: thr( [&] { CHECK( &*it == p ); }, cr and i == n ); break;
	case 5: thr( [&] { CHECK( &*std::as_const( it ) == p ); }, cr and i == n ); break;
	case 6: thr( [&] { CHECK( it.operator->( ) == p ); }, cr and i == n ); break;
	default: thr( [&] { CHECK( std::as_const( it ).operator->( ) == p ); }, cr and i == n ); break;
	}
	sym_reach( "end" );
}
//@ bounds: arrays of 4
ENTRY counting( ) {
	U x[4]; sym_bytes( x, sizeof( x ), "x" );
	size_t i = sym_pick( "i", 0, 4 );
	daw::forward_counting_iterator f( x + 0 ); daw::bidirectional_counting_iterator b( x + 0 );
	for( size_t k = 0; k < i; ++k ) {
		CHECK( &*f == x + k and &*b == x + k and &*std::as_const( f ) == x + k and &*std::as_const( b ) == x + k );
		if( k % 2 ) { ++f; ++b; } else { auto of = f++; auto ob = b++; CHECK( of == x + k and ob == x + k and of.distance( ) == static_cast<DT>( k ) and ob.distance( ) == of.distance( ) ); }
	}
	CHECK( f.distance( ) == static_cast<DT>( i ) and b.distance( ) == static_cast<DT>( i ) );
	CHECK( f == x + i and x + i == f and not( f != x + i ) and not( x + i != f ) and b == x + i and x + i == b and not( b != x + i ) and not( x + i != b ) );
	daw::forward_counting_iterator g( x + 2 ); daw::bidirectional_counting_iterator h( x + 2 );
	CHECK( ( f == g ) == ( i == 2 ) and ( f != g ) == ( i != 2 ) and ( b == h ) == ( i == 2 ) and ( b != h ) == ( i != 2 ) );
	if( i > 1 ) { --b; CHECK( b == x + i - 1 and b.distance( ) == static_cast<DT>( i ) - 1 ); auto o = b--; CHECK( o == x + i - 1 and b == x + i - 2 and b.distance( ) == static_cast<DT>( i ) - 2 ); }
	sym_reach( "end" );
}
//@ q:n=6 t:n=6
//@ bounds: all sequences of up to n bytes
ENTRY finding( ) {
	size_t N = sym_param( "n", 4 ), n = sym_pick( "n", 0, N );
	Arr<uint8_t> a( n, "a" ); uint8_t t = sym_u8( "t" );
	auto pred = [t]( uint8_t c ) { return c < t; };
	daw::find_iterator it( a.begin( ), a.end( ), pred );
	auto const last = it.end( );
	CHECK( it.begin( ) == it and it.raw_end( ) == a.end( ) and last.raw_begin( ) == a.end( ) );
	size_t k = 0;
	for( ; k < n and not pred( a[k] ); ++k ) {}
	bool post = sym_bool( "post" );
	while( it != last ) {
		CHECK( k < n and it.raw_begin( ) == a.p + k and *it == a[k] and *std::as_const( it ) == a[k] );
		if( post ) { auto o = it++; CHECK( o.raw_begin( ) == a.p + k ); } else ++it;
		for( ++k; k < n and not pred( a[k] ); ++k ) {}
	}
	CHECK( k == n and it == last );
	sym_reach( "end" );
}
//@ q:n=4 t:n=5
//@ bounds: all sequences of up to n bytes
ENTRY finding_one( ) {
	size_t N = sym_param( "n", 3 ), n = sym_pick( "n", 0, N );
	Arr<uint8_t> a( n, "a" ); uint8_t t = sym_u8( "t" );
	auto p0 = [t]( uint8_t c ) { return c < t; };
	daw::find_one_iterator it( a.begin( ), a.end( ), p0 );
	auto const last = it.end( );
	size_t k = 0;
	auto skip = [&] { for( ; k < n and not p0( a[k] ); ++k ) {} };
	skip( );
	while( it != last ) {
		CHECK( k < n and it.raw_begin( ) == a.p + k );
		auto r = *it; CHECK( r.value == a[k] and r.index == 0 );
		++it; ++k; skip( );
	}
	CHECK( k == n and it == last and it.raw_end( ) == a.end( ) );
	sym_reach( "end" );
}
//@ bounds: every count below 2^31, every character
ENTRY repeat_n( ) {
	uint32_t c = sym_u32( "count" ) >> 1; uint8_t ch = sym_u8( "ch" );
	daw::repeat_n_char_iterator<uint8_t> a( c, ch ), e = daw::repeat_n_char_end<uint8_t>( );
	CHECK( ( a == e ) == ( c == 0 ) and ( a != e ) == ( c != 0 ) and e - a == static_cast<DT>( c ) and *a == ch and *a.operator->( ) == ch and a[c] == ch );
	DT d = static_cast<DT>( sym_u32( "d" ) >> 1 );
	auto b = a + d; CHECK( b - a == d and a - b == -d and *b == ch and e - b == static_cast<DT>( c ) - d ); b -= d; CHECK( b == a ); b += d; CHECK( b - a == d and ( b - d ) == a );
	auto p = a++; CHECK( p - a == -1 and a - p == 1 ); auto q = a--; CHECK( q - a == 1 and a == p ); ++a; CHECK( a == q ); --a; CHECK( a == p );
	sym_reach( "end" );
}
//@ bounds: all bounds of the range, ranges of up to 4
ENTRY integers( ) {
	int32_t f = sym<int32_t>( "f" ); size_t n = sym_pick( "n", 0, 4 );
	sym_assume( f <= INT32_MAX - 4 );
	daw::integer_range<int32_t> r( f, f + static_cast<int32_t>( n ) );
	size_t k = 0;
	for( auto v : r ) { CHECK( k < n and v == f + static_cast<int32_t>( k ) ); ++k; }
	CHECK( k == n );
	auto it = r.begin( ); CHECK( ( it == r.end( ) ) == ( n == 0 ) );
	auto o = it++; CHECK( *o == f and *it == f + 1 and o != it ); ++o; CHECK( o == it );
	sym_reach( "end" );
}
template<typename T>
static void iota_steps( ) {
	using S = std::make_signed_t<T>;
	using I = daw::iota_iterator<T>;
	T v = sym<T>( "v" ); S st = static_cast<S>( sym_range<int8_t>( "st", -3, 3 ) ), n = static_cast<S>( sym_range<int8_t>( "n", -5, 5 ) );
	int64_t w = static_cast<int64_t>( v );
	if( std::is_signed_v<T> ) sym_assume( w > -1000000 and w < 1000000 ); else sym_assume( w > 100 and w < 1000000 );
	sym_assume( st != 0 );
	I a( v, st );
	auto val = [&]( int64_t k ) { return static_cast<T>( w + k * st ); };
	CHECK( *a == v and a.operator->( ).value == v and *I( v ) == v and *( ++I( v ) ) == static_cast<T>( w + 1 ) );
	I b = a; auto o = b++; CHECK( *o == v and *b == val( 1 ) ); ++b; CHECK( *b == val( 2 ) and b - a == 2 ); auto q = b--; CHECK( *q == val( 2 ) and *b == val( 1 ) ); --b; --b; CHECK( *b == val( -1 ) and b - a == -1 );
	I c = a + n; CHECK( *c == val( n ) and a[n] == val( n ) and c - a == n and *a == v ); I d = a - n; CHECK( *d == val( -n ) and a - d == n );
	I e = a; e += n; CHECK( *e == val( n ) ); e -= n; CHECK( *e == v );
}
//@ bounds: starts within a million of zero, steps -3..3, distances -5..5
ENTRY iota32( ) { iota_steps<int32_t>( ); sym_reach( "end" ); }
//@ bounds: starts from 100 to a million, steps -3..3, distances -5..5
ENTRY iota_u32( ) { iota_steps<uint32_t>( ); sym_reach( "end" ); }
template<typename T>
static void iota_cmp( ) {
	T x = sym<T>( "x" ), y = sym<T>( "y" );
	if( std::is_signed_v<T> ) sym_assume( x > -1000000 and x < 1000000 and y > -1000000 and y < 1000000 );
	daw::iota_iterator<T> a( x ), b( y );
	CHECK( ( a < b ) == ( x < y ) and ( a <= b ) == ( x <= y ) );
	if( x <= y ) CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) );
}
//@ bounds: all pairs of values (signed: within a million of zero)
ENTRY iota_compare( ) { if( sym_bool( "u" ) ) iota_cmp<uint32_t>( ); else iota_cmp<int32_t>( ); sym_reach( "end" ); }
//@ known=F-P29-1
//@ bounds: all pairs of values
ENTRY iota_compare_past( ) {
	uint32_t x = sym_u32( "x" ), y = sym_u32( "y" );
	sym_assume( x > y );
	daw::iota_iterator<uint32_t> a( x ), b( y );
	CHECK( not( a == b ) and a != b and a > b and a >= b );
	sym_reach( "end" );
}
//@ bounds: ranges of up to 4 values, every start; unit and larger steps
ENTRY iota_ranges( ) {
	uint32_t f = sym_u32( "f" ); size_t n = sym_pick( "n", 0, 4 ); int32_t st = static_cast<int32_t>( sym_pick( "st", 1, 3 ) );
	sym_assume( f < 0x7fff0000u );
	{ daw::iota_range<uint32_t> r( f, f + static_cast<uint32_t>( n ) * static_cast<uint32_t>( st ), st ); size_t k = 0; for( auto v : r ) { CHECK( k < n and v == f + k * static_cast<uint32_t>( st ) ); ++k; } CHECK( k == n and r[2] == f + 2u * static_cast<uint32_t>( st ) ); }
	{ int32_t g = static_cast<int32_t>( f ) - 0x3fff0000; daw::iota_range<int32_t> r( g, g + static_cast<int32_t>( n ) ); size_t k = 0; for( auto v : r ) { CHECK( k < n and v == g + static_cast<int32_t>( k ) ); ++k; } CHECK( k == n ); }
	{ daw::iota_range<uint32_t> r( static_cast<uint32_t>( n ) ); size_t k = 0; for( auto it = r.cbegin( ); it != r.cend( ); ++it ) { CHECK( k < n and *it == k ); ++k; } CHECK( k == n ); }
	sym_reach( "end" );
}
//@ bounds: argument lists of 3, all positions
ENTRY arguments( ) {
	char s0[3], s1[2], s2[1]; sym_bytes( s0, 3, "s0" ); sym_bytes( s1, 2, "s1" ); sym_assume( s0[0] != 0 and s0[1] != 0 and s1[0] != 0 ); s0[2] = 0; s1[1] = 0; s2[0] = 0;
	char const *argv[4] = { s0, s1, s2, nullptr };
	using I = daw::arg_iterator_t;
	I const base( 3, argv );
	auto mk = [&]( DT k ) { return base + k; }; auto at = []( I const &it ) { return it.position( ); };
	if( sym_bool( "w" ) ) walk<3>( mk, at ); else jump<3>( mk, at );
	DT i = pos( "k", 3 ); I const it = base + i; I const e;
	CHECK( it.size( ) == 3 and it.at_end( ) == ( i == 3 ) and static_cast<bool>( it ) == ( i < 3 ) and e.at_end( ) and not static_cast<bool>( e ) and I::end( ) == e );
	CHECK( ( it == e ) == ( i == 3 ) and ( it != e ) == ( i != 3 ) and ( it < e ) == ( i < 3 ) and it <= e and ( e > it ) == ( i < 3 ) and e >= it and ( e <= it ) == ( i == 3 ) and not( e < it ) and not( it > e ) and ( it >= e ) == ( i == 3 ) and ( it == it.begin( ) ) );
	if( i < 3 ) CHECK( ( *it ).data( ) == argv[i] and ( *it ).size( ) == static_cast<size_t>( 2 - i ) );
	DT n = static_cast<DT>( sym_pick( "n", 0, 8 ) ) - 4;
	bool in = i + n >= 0 and i + n < 3;
	if( in ) CHECK( it[n].data( ) == argv[i + n] );
	CHECK( throws_as<std::out_of_range>( [&] { CHECK( it.at( n ).data( ) == argv[i + n] ); } ) == not in );
	sym_reach( "end" );
}
struct Sink { U v[4]; size_t n = 0; Sink &operator<<( U x ) { v[n++] = x; return *this; } };
//@ bounds: sequences of 3 values
ENTRY outputs( ) {
	U x[3]; sym_bytes( x, sizeof( x ), "x" );
	{ std::vector<U> c{ 9 }; daw::back_inserter it( c ); for( U v : x ) { *it = v; if( v & 1 ) ++it; else it++; } CHECK( c.size( ) == 4 and c[0] == 9 and c[1] == x[0] and c[2] == x[1] and c[3] == x[2] ); }
	{ std::vector<U> c{ 9 }; auto it = daw::end_inserter( c ); for( U v : x ) { *it = v; ++it; it++; } CHECK( c.size( ) == 4 and c[0] == 9 and c[1] == x[0] and c[2] == x[1] and c[3] == x[2] ); }
	{ U s[4]; size_t k = 0; auto it = daw::make_function_iterator( [&]( U v ) { s[k++] = v; } ); for( U v : x ) { *it = v; ++it; it++; } CHECK( k == 3 and s[0] == x[0] and s[1] == x[1] and s[2] == x[2] ); }
	{ Sink s; auto it = daw::make_output_stream_iterator( s ); for( U v : x ) { *it = v; ++it; } CHECK( s.n == 3 and s.v[0] == x[0] and s.v[1] == x[1] and s.v[2] == x[2] ); }
	{ std::set<U> c; auto it = daw::inserter( c ); for( U v : x ) { *it = v; ++it; it++; } CHECK( c.count( x[0] ) == 1 and c.count( x[1] ) == 1 and c.count( x[2] ) == 1 and c.size( ) == 1u + ( x[1] != x[0] ) + ( x[2] != x[0] and x[2] != x[1] ) ); }
	sym_reach( "end" );
}
struct KV { uint8_t k, id; };
template<typename C>
static void sorted( bool desc ) {
	auto cmp = [desc]( KV const &a, KV const &b ) { return desc ? b.k < a.k : a.k < b.k; };
	C c; uint8_t x[3]; sym_bytes( x, 3, "x" );
	auto it = daw::make_sorted_insert_iterator( c, cmp );
	for( uint8_t i = 0; i < 3; ++i ) { *it = KV{ x[i], i }; ++it; }
	CHECK( c.size( ) == 3 );
	unsigned seen = 0; KV prev{ }; bool first = true;
	for( auto const &e : c ) { CHECK( e.id < 3 and e.k == x[e.id] ); seen |= 1u << e.id; if( not first ) CHECK( not cmp( e, prev ) ); prev = e; first = false; }
	CHECK( seen == 7 );
}
//@ bounds: all sequences of 3 inserted values, ascending and descending order
ENTRY sorted_insert( ) {
	bool d = sym_bool( "desc" );
	switch( sym_pick( "c", 0, 2 ) ) { case 0: sorted<std::vector<KV>>( d ); break; case 1: sorted<std::list<KV>>( d ); break; default: sorted<std::deque<KV>>( d ); break; }
	sym_reach( "end" );
}
//@ bounds: two and three arrays of 3
ENTRY zips( ) {
	U x[3], y[3]; uint8_t z[3]; sym_bytes( x, 12, "x" ); sym_bytes( y, 12, "y" ); sym_bytes( z, 3, "z" );
	daw::zip_iterator it( x + 0, y + 0, z + 0 ); daw::zip_iterator const last( x + 3, y + 3, z + 3 );
	size_t k = sym_pick( "k", 0, 2 );
	auto same = [&]( auto const &i, size_t n ) { return daw::get<0>( i ) == x + n and daw::get<1>( i ) == y + n and i.template get<2>( ) == z + n and std::get<1>( i.as_tuple( ) ) == y + n; };
	it.advance( static_cast<DT>( k ) ); CHECK( same( it, k ) and it.size( ) == 3 );
	auto r = *it; CHECK( &std::get<0>( r ) == x + k and &std::get<1>( r ) == y + k and &std::get<2>( r ) == z + k );
	auto cr = *std::as_const( it ); CHECK( &std::get<2>( cr ) == z + k );
	auto o = it++; CHECK( same( o, k ) and same( it, k + 1 ) and o != it and ( it == last ) == ( k == 2 ) ); ++o; CHECK( o == it and not( o != it ) ); auto p = it--; CHECK( same( p, k + 1 ) and same( it, k ) ); it.advance( -static_cast<DT>( k ) ); CHECK( same( it, 0 ) ); ++it; --it; CHECK( same( it, 0 ) );
	std::vector<U> a( x, x + 3 ), b( y, y + 3 ); size_t n = 0;
	for( auto e : daw::zip_container( a, b ) ) { CHECK( n < 3 and &std::get<0>( e ) == &a[n] and &std::get<1>( e ) == &b[n] ); ++n; }
	CHECK( n == 3 );
	auto zc = daw::make_zipcontainer( a, b ); CHECK( std::get<0>( *zc.begin( ) ) == x[0] and daw::get<1>( zc.end( ) ) == b.end( ) );
	sym_reach( "end" );
}
//@ bounds: sequences of 0..3 behind pointer and list iterators
ENTRY erased( ) {
	LeakGuard g;
	U x[3]; sym_bytes( x, sizeof( x ), "x" ); size_t n = sym_pick( "n", 0, 3 );
	std::list<U> l; for( size_t k = 0; k < n; ++k ) l.push_back( x[k] );
	{
		daw::InputRange<U> r( static_cast<U *>( x ), x + n ), s( l.begin( ), l.end( ) );
		auto a = r.begin( ); auto ae = r.end( ); auto b = s.begin( ); auto be = s.cend( );
		CHECK( a.are_same_base_iterator_type( ae ) and not a.are_same_base_iterator_type( b ) );
		for( size_t k = 0; k < n; ++k ) {
			CHECK( a != ae and not( a == ae ) and b != be and &*a == x + k and *b == x[k] and a.operator->( ) == x + k );
			if( k % 2 ) { auto o = a++; CHECK( *o == x[k] ); ++b; } else { ++a; auto o = b++; CHECK( *o == x[k] ); }
		}
		CHECK( a == ae and b == be and not( b != be ) );
		switch( sym_pick( "op", 0, 4 ) ) {
		case 0: a = r.begin( ); CHECK( ( a == ae ) == ( n == 0 ) ); break;
		case 1: { auto t = s.begin( ); a = t; CHECK( a == t and ( a == be ) == ( n == 0 ) ); } break;
		case 2: { auto t = s.begin( ); a = std::move( t ); CHECK( ( a == be ) == ( n == 0 ) ); } break;
		case 3: { auto t = std::move( a ); CHECK( t == ae ); } break;
		default: { auto &q = a; a = q; CHECK( a == ae ); } break;
		}
	}
	sym_reach( "end" );
}
