//! variant: char
//! variant: char16 -DCH=char16_t
//! variant: char32 -DCH=char32_t
//! variant: cx -DCXPATH
#include "common.h"
#include <daw/daw_string_view.h>
using daw::sv2::basic_string_view;
#ifndef CH
#define CH char
#endif
using C = CH;
using SV = basic_string_view<C>;

// reference: first/last position satisfying f, without branching on symbolic data
template<typename F>
size_t first_pos( size_t lo, size_t hi, F f ) {
	size_t r = NPOS;
	for( size_t i = hi; i > lo; --i ) r = sel<size_t>( f( i - 1 ), i - 1, r );
	return r;
}
template<typename F>
size_t last_pos( size_t lo, size_t hi, F f ) {
	size_t r = NPOS;
	for( size_t i = lo; i < hi; ++i ) r = sel<size_t>( f( i ), i, r );
	return r;
}
bool in_set( Arr<C> &s, C c ) {
	bool r = false;
	for( size_t i = 0; i < s.n; ++i ) r |= s[i] == c;
	return r;
}
bool eq_at( Arr<C> &h, size_t i, Arr<C> &n ) {
	if( i + n.n > h.n ) return false;
	bool r = true;
	for( size_t k = 0; k < n.n; ++k ) r &= h[i + k] == n[k];
	return r;
}
struct In {
	Arr<C> h, n;
	In( size_t mh, size_t mn ) : h( pick_size( "hay_len", 0, sym_param( "H", mh ) ), "hay" ), n( pick_needle( "needle_len", 0, sym_param( "N", mn ) ), "needle" ) {}
	SV hv( ) { return SV( h.p, h.n ); }
	SV nv( ) { return SV( n.p, n.n ); }
};

//@ bounds: every haystack of length 0..6 (thorough 0..6), needle 0..3 (0..3), any characters, start 0..length
//@ q:H=6 q:N=3 t:H=6 t:N=3
ENTRY find_substring( ) {
	In x( 4, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	size_t want = first_pos( pos, x.h.n + 1, [&]( size_t i ) { return eq_at( x.h, i, x.n ); } );
	CHECK( x.hv( ).find( x.nv( ), pos ) == want );
	CHECK( x.hv( ).find( x.n.p, pos, x.n.n ) == want );
	if( pos == 0 ) {
		CHECK( x.hv( ).find( x.nv( ) ) == want );
		CHECK( x.hv( ).contains( x.nv( ) ) == ( want != NPOS ) );
		CHECK( x.hv( ).find_first_match( x.nv( ), 0 ) == want );
	}
	CHECK( x.hv( ).contains( x.n.p, pos, x.n.n ) == ( want != NPOS ) );
	sym_reach( "find_substring" );
}
//@ bounds: start positions beyond the end of the view
//@ q:H=5 q:N=3 t:H=5 t:N=3
ENTRY find_past_end( ) {
	In x( 3, 2 );
	size_t pos = sym<size_t>( "pos" );
	sym_assume( pos > x.h.n );
	CHECK( x.hv( ).find( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_of( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_not_of( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_of_if( []( C ) { return true; }, pos ) == NPOS );
	CHECK( x.hv( ).find_first_not_of_if( []( C ) { return false; }, pos ) == NPOS );
	sym_reach( "find_past_end" );
}
//@ q:H=7 t:H=7
//@ bounds: every haystack of length 0..7 (thorough 0..7), every character, start 0..length
ENTRY find_char( ) {
	In x( 4, 0 );
	C c = sym<C>( "c" );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto want = first_pos( pos, x.h.n, [&]( size_t i ) { return x.h[i] == c; } );
	CHECK( x.hv( ).find( c, pos ) == want );
	CHECK( x.hv( ).contains( c, pos ) == ( want != NPOS ) );
	CHECK( x.hv( ).find_first_of( c, pos ) == want );
	CHECK( x.hv( ).find_first_of_if( [&]( C d ) { return d == c; }, pos ) == want );
	auto wantn = first_pos( pos, x.h.n, [&]( size_t i ) { return x.h[i] != c; } );
	CHECK( x.hv( ).find_first_not_of( c, pos ) == wantn );
	CHECK( x.hv( ).find_first_not_of_if( [&]( C d ) { return d == c; }, pos ) == wantn );
	if( pos == 0 ) {
		CHECK( x.hv( ).find_first_not_of( c ) == wantn );
		CHECK( x.hv( ).starts_with( c ) == ( x.h.n > 0 and x.h[0] == c ) );
		CHECK( x.hv( ).ends_with( c ) == ( x.h.n > 0 and x.h[x.h.n - 1] == c ) );
	}
	sym_reach( "find_char" );
}
//@ q:H=6 t:H=6
ENTRY rfind_char( ) {
	In x( 4, 0 );
	C c = sym<C>( "c" );
	size_t pos = pick_pos( "pos", 0, x.h.n + 1 );
	if( pos == x.h.n + 1 ) pos = NPOS;
	auto hi = pos < x.h.n ? pos + 1 : x.h.n;
	CHECK( x.hv( ).rfind( c, pos ) == last_pos( 0, hi, [&]( size_t i ) { return x.h[i] == c; } ) );
	auto wantn = last_pos( 0, hi, [&]( size_t i ) { return x.h[i] != c; } );
	CHECK( x.hv( ).find_last_not_of( c, pos ) == wantn );
	CHECK( x.hv( ).find_last_not_of_if( [&]( C d ) { return d == c; }, pos ) == wantn );
	if( pos == NPOS ) {
		CHECK( x.hv( ).find_last_not_of( c ) == wantn );
		CHECK( x.hv( ).find_last_not_of_if( [&]( C d ) { return d == c; } ) == wantn );
		auto want = last_pos( 0, hi, [&]( size_t i ) { return x.h[i] == c; } );
		CHECK( x.hv( ).find_last_of( c ) == want );
		CHECK( x.hv( ).find_last_of_if( [&]( C d ) { return d == c; } ) == want );
	}
	sym_reach( "rfind_char" );
}
//@ q:H=6 q:N=3 t:H=6 t:N=3
ENTRY rfind_substring( ) {
	In x( 4, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n + 1 );
	if( pos == x.h.n + 1 ) pos = NPOS;
	auto hi = pos < x.h.n ? pos + 1 : x.h.n + 1;
	auto want = last_pos( 0, hi, [&]( size_t i ) { return eq_at( x.h, i, x.n ); } );
	CHECK( x.hv( ).rfind( x.nv( ), pos ) == want );
	CHECK( x.hv( ).rfind( x.n.p, pos, x.n.n ) == want );
	sym_reach( "rfind_substring" );
}
//@ q:H=4 q:N=2 t:H=5 t:N=3
ENTRY find_of_set( ) {
	In x( 3, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	CHECK( x.hv( ).find_first_of( x.nv( ), pos ) == first_pos( pos, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).find_first_of( x.n.p, pos, x.n.n ) == first_pos( pos, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).find_first_not_of( x.nv( ), pos ) == first_pos( pos, x.h.n, [&]( size_t i ) { return not in_set( x.n, x.h[i] ); } ) );
	if( pos == 0 ) CHECK( x.hv( ).find_first_not_of( x.nv( ) ) == first_pos( 0, x.h.n, [&]( size_t i ) { return not in_set( x.n, x.h[i] ); } ) );
	sym_reach( "find_of_set" );
}
//@ q:H=4 q:N=2 t:H=5 t:N=3
ENTRY find_last_of_set( ) {
	In x( 3, 2 );
	CHECK( x.hv( ).find_last_of( x.nv( ) ) == last_pos( 0, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	size_t pos = pick_pos( "pos", 0, x.h.n + 1 );
	if( pos == x.h.n + 1 ) pos = NPOS;
	auto hi = pos < x.h.n ? pos + 1 : x.h.n;
	CHECK( x.hv( ).find_last_not_of( x.nv( ), pos ) == last_pos( 0, hi, [&]( size_t i ) { return not in_set( x.n, x.h[i] ); } ) );
	sym_reach( "find_last_of_set" );
}
//@ q:H=5 q:N=5 t:H=5 t:N=5
ENTRY prefix_suffix( ) {
	In x( 3, 3 );
	CHECK( x.hv( ).starts_with( x.nv( ) ) == eq_at( x.h, 0, x.n ) );
	CHECK( x.hv( ).ends_with( x.nv( ) ) == ( x.n.n <= x.h.n and eq_at( x.h, x.h.n - x.n.n, x.n ) ) );
	sym_reach( "prefix_suffix" );
}
//@ q:H=4 q:N=2 t:H=4 t:N=2
//@ bounds: needle strictly shorter than the rest of the view
ENTRY search_first_last( ) {
	In x( 3, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	sym_assume( x.n.n > 0 );
	auto f = [&]( size_t i ) { return eq_at( x.h, i, x.n ); };
	CHECK( x.hv( ).search( x.nv( ), pos ) == first_pos( pos, x.h.n, f ) );
	CHECK( x.hv( ).search_last( x.nv( ), pos ) == last_pos( pos, x.h.n, f ) );
	sym_reach( "search_first_last" );
}
//@ q:H=4 q:N=2 t:H=4 t:N=2
//@ bounds: views of length 0..4 (0..4), two needles of length 1..2
ENTRY first_match_any( ) {
	In x( 3, 2 );
	Arr<C> m( sym_pick( "needle2_len", 1, 2 ), "needle2" );
	sym_assume( x.n.n > 0 );
	auto f = [&]( size_t i ) { return eq_at( x.h, i, x.n ) | eq_at( x.h, i, m ); };
	CHECK( x.hv( ).find_first_match( { x.nv( ), SV( m.p, m.n ) } ) == first_pos( 0, x.h.n, f ) );
	sym_reach( "first_match_any" );
}
//@ q:H=3 q:N=2 t:H=4 t:N=2
//@ bounds: the overloads that take zero terminated text
ENTRY find_terminated( ) {
	In x( 3, 2 );
	C *z = static_cast<C *>( std::malloc( ( x.n.n + 1 ) * sizeof( C ) ) );
	for( size_t i = 0; i < x.n.n; ++i ) { sym_assume( x.n[i] != 0 ); z[i] = x.n[i]; }
	z[x.n.n] = 0;
	C const *s = z;
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto f = [&]( size_t i ) { return eq_at( x.h, i, x.n ); };
	auto in = [&]( size_t i ) { return in_set( x.n, x.h[i] ); };
	auto out = [&]( size_t i ) { return not in_set( x.n, x.h[i] ); };
	auto hi = pos < x.h.n ? pos + 1 : x.h.n;
	CHECK( x.hv( ).find( s, pos ) == first_pos( pos, x.h.n + 1, f ) );
	CHECK( x.hv( ).contains( s, pos ) == ( first_pos( pos, x.h.n + 1, f ) != NPOS ) );
	CHECK( x.hv( ).rfind( s, pos ) == last_pos( 0, pos + 1, f ) );
	CHECK( x.hv( ).find_first_of( s, pos ) == first_pos( pos, x.h.n, in ) );
	CHECK( x.hv( ).find_first_not_of( s, pos ) == first_pos( pos, x.h.n, out ) );
	CHECK( x.hv( ).find_first_not_of( s, pos, x.n.n ) == first_pos( pos, x.h.n, out ) );
	CHECK( x.hv( ).find_last_not_of( s, pos ) == last_pos( 0, hi, out ) );
	CHECK( x.hv( ).find_last_not_of( s, pos, x.n.n ) == last_pos( 0, hi, out ) );
	if( pos == 0 ) {
		CHECK( x.hv( ).find( s ) == first_pos( 0, x.h.n + 1, f ) );
		CHECK( x.hv( ).contains( s ) == ( first_pos( 0, x.h.n + 1, f ) != NPOS ) );
		CHECK( x.hv( ).rfind( s ) == last_pos( 0, x.h.n + 1, f ) );
		CHECK( x.hv( ).find_first_of( s ) == first_pos( 0, x.h.n, in ) );
		CHECK( x.hv( ).find_first_not_of( s ) == first_pos( 0, x.h.n, out ) );
		CHECK( x.hv( ).find_last_of( s ) == last_pos( 0, x.h.n, in ) );
		CHECK( x.hv( ).find_last_not_of( s ) == last_pos( 0, x.h.n, out ) );
		CHECK( x.hv( ).starts_with( s ) == eq_at( x.h, 0, x.n ) );
		CHECK( x.hv( ).ends_with( s ) == ( x.n.n <= x.h.n and eq_at( x.h, x.h.n - x.n.n, x.n ) ) );
	}
	if( x.n.n > 0 ) {
		CHECK( x.hv( ).search( s, pos ) == first_pos( pos, x.h.n, f ) );
		CHECK( x.hv( ).search_last( s, pos ) == last_pos( pos, x.h.n, f ) );
	}
	std::free( z );
	sym_reach( "find_terminated" );
}
//@ q:BIG=33 t:BIG=65
//@ bounds: the entries above on texts of BIG and BIG-1 characters out of seven, two of them arbitrary; search texts of 1, 2 and 9
ENTRY big_find_substring( ) { find_substring( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_find_past_end( ) { find_past_end( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_find_char( ) { find_char( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_rfind_char( ) { rfind_char( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_rfind_substring( ) { rfind_substring( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_find_of_set( ) { find_of_set( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_find_last_of_set( ) { find_last_of_set( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_prefix_suffix( ) { prefix_suffix( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_search_first_last( ) { search_first_last( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_first_match_any( ) { first_match_any( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_find_terminated( ) { find_terminated( ); }
