#include "common.h"
#include <daw/daw_sort_n.h>
#include <daw/vector.h>
#include <vector>
using U = uint32_t;
// out is an ordered rearrangement of in
template<typename T, typename C> void sorted_( T const *out, T const *in, size_t n, C comp, T probe ) {
	bool ok = true;
	for( size_t k = 1; k < n; ++k ) ok &= not comp( out[k], out[k - 1] );
	CHECK( ok );
	size_t a = 0, b = 0;
	for( size_t k = 0; k < n; ++k ) { a += static_cast<size_t>( out[k] == probe ); b += static_cast<size_t>( in[k] == probe ); }
	CHECK( a == b );
}
template<typename T> T const *copy_( T const *p, size_t n, Arr<T> &to ) { std::memcpy( to.p, p, n * sizeof( T ) ); return to.p; }
//@ q:N=4 t:N=5 t:time=700
//@ bounds: sort of every n <= N 16-bit values, any values (equal ones included), ascending and descending
ENTRY sort_small( ) {
	size_t n = sym_pick( "n", 0, sym_param( "N", 5 ) );
	Arr<uint16_t> a( n, "a" ), c( n, "c" );
	copy_( a.p, n, c );
	if( sym_bool( "desc" ) ) { daw::sort( a.p, a.p + n, std::greater<>{ } ); sorted_( a.p, c.p, n, std::greater<>{ }, sym_u16( "probe" ) ); }
	else { daw::sort( a.p, a.p + n ); sorted_( a.p, c.p, n, std::less<>{ }, sym_u16( "probe" ) ); }
	sym_reach( "end" );
}
// more elements than distinct symbolic values: the rest follows a pattern
template<typename T> void fill_( T *p, size_t n, unsigned pat ) {
	for( size_t k = 0; k < n; ++k ) {
		unsigned v = 0;
		if( pat == 0 ) v = static_cast<unsigned>( 10 * k );
		else if( pat == 1 ) v = static_cast<unsigned>( 10 * ( n - k ) );
		else if( pat == 2 ) v = static_cast<unsigned>( 10 * ( k < n / 2 ? k : n - k ) );
		else if( pat == 3 ) v = static_cast<unsigned>( 10 * ( k < n / 2 ? n - k : k ) );
		else if( pat == 4 ) v = static_cast<unsigned>( ( k % 3 ) * 100 );
		else if( pat == 5 ) v = 50;
		else v = static_cast<unsigned>( ( k * 7919 + 13 ) % 331 );
		p[k] = static_cast<T>( v );
	}
}
template<typename T> void large_( size_t lo, size_t hi, size_t S, size_t stride ) {
	size_t n = lo + stride * sym_pick( "n", 0, ( hi - lo ) / stride );
	Arr<T> a( n, "rest" ), c( n, "copy" );
	fill_( a.p, n, static_cast<unsigned>( sym_pick( "pattern", 0, 6 ) ) );
	for( size_t k = 0; k < S; ++k ) { size_t at = n * sym_pick( "at", 0, 6 ) / 7; a[at] = static_cast<T>( sym_u16( "x" ) ); }
	copy_( a.p, n, c );
	if( sym_bool( "desc" ) ) { daw::sort( a.p, a.p + n, std::greater<>{ } ); sorted_( a.p, c.p, n, std::greater<>{ }, static_cast<T>( sym_u16( "probe" ) ) ); }
	else { daw::sort( a.p, a.p + n, std::less<>{ } ); sorted_( a.p, c.p, n, std::less<>{ }, static_cast<T>( sym_u16( "probe" ) ) ); }
}
//@ q:S=1 t:S=1 q:HI=34 t:HI=63 t:time=700
//@ bounds: sort of 9..HI 16-bit values following 7 patterns with S arbitrary values at any seventh
ENTRY sort_medium( ) { large_<uint16_t>( 9, sym_param( "HI", 36 ), sym_param( "S", 1 ), 1 ); sym_reach( "end" ); }
//@ q:HI=100 t:HI=160 t:time=700
//@ bounds: sort of 64..HI 16-bit values following 7 patterns with one arbitrary value at any seventh
ENTRY sort_large( ) { large_<uint16_t>( 64, sym_param( "HI", 100 ), 1, 36 ); sym_reach( "end" ); }
//@ t:time=700
//@ bounds: sort of 1000 and 1003 16-bit values following 2 patterns with one value from three intervals of 21 values at 3 places
ENTRY sort_1000( ) {
	size_t n = 1000 + 3 * sym_pick( "n", 0, 1 );
	Arr<uint16_t> a( n, "rest" ), c( n, "copy" );
	fill_( a.p, n, static_cast<unsigned>( sym_pick( "pattern", 0, 1 ) * 6 ) );
	{ uint16_t x = sym_u16( "x" ); size_t lo = 150 * sym_pick( "lo", 0, 2 ); sym_assume( x >= lo and x <= lo + 20 ); a[n * sym_pick( "at", 0, 2 ) / 3] = x; }
	copy_( a.p, n, c );
	daw::sort( a.p, a.p + n );
	sorted_( a.p, c.p, n, std::less<>{ }, sym_u16( "probe" ) );
	sym_reach( "end" );
}
//@ q:N=9 q:D=1 t:N=11 t:D=1 t:time=700
//@ bounds: sort of 9..N values out of D+1 distinct ones, any arrangement
ENTRY sort_few_distinct( ) {
	size_t n = sym_pick( "n", 9, sym_param( "N", 9 ) );
	Arr<uint8_t> a( n, "a" ), c( n, "c" );
	for( size_t k = 0; k < n; ++k ) sym_assume( a[k] <= sym_param( "D", 1 ) );
	copy_( a.p, n, c );
	daw::sort( a.p, a.p + n );
	sorted_<uint8_t>( a.p, c.p, n, std::less<>{ }, sym_u8( "probe" ) );
	sym_reach( "end" );
}
// elements that are not trivially copyable and check their own life cycle
//@ q:N=4 t:N=6 t:time=700
//@ bounds: n <= N life-cycle checked elements, any values
ENTRY sort_objects( ) {
	LeakGuard g;
	{
		size_t n = sym_pick( "n", 0, sym_param( "N", 4 ) );
		std::vector<Track> v; U c[16]; U o[16];
		v.reserve( 16 );
		for( size_t k = 0; k < n; ++k ) { c[k] = sym_u32( "x" ); v.emplace_back( c[k] ); }
		daw::sort( v.begin( ), v.end( ) );
		for( size_t k = 0; k < n; ++k ) o[k] = v[k].get( );
		sorted_<U>( o, c, n, std::less<>{ }, sym_u32( "probe" ) );
	}
	sym_reach( "end" );
}
//@ q:HI=23 t:HI=40 t:time=700
//@ bounds: 9..HI life-cycle checked elements following 7 patterns with one arbitrary value at any seventh
ENTRY sort_objects_large( ) {
	LeakGuard g;
	{
		size_t n = sym_pick( "n", 9, sym_param( "HI", 20 ) );
		std::vector<Track> v; U c[128]; U o[128];
		v.reserve( n );
		fill_( c, n, static_cast<unsigned>( sym_pick( "pattern", 0, 6 ) ) );
		c[n * sym_pick( "at", 0, 6 ) / 7] = sym_u32( "x" );
		for( size_t k = 0; k < n; ++k ) v.emplace_back( c[k] );
		daw::sort( v.begin( ), v.end( ) );
		for( size_t k = 0; k < n; ++k ) o[k] = v[k].get( );
		sorted_<U>( o, c, n, std::less<>{ }, sym_u32( "probe" ) );
	}
	sym_reach( "end" );
}
// sort_to leaves the input alone and sorts into the output
template<typename T, typename C> void sort_to_( size_t N, C comp ) {
	size_t n = sym_pick( "n", 0, N );
	Arr<T> a( n, "a" ), c( n, "c" ), o( n, "o" );
	copy_( a.p, n, c );
	T *e = daw::sort_to( a.p, a.p + n, o.p, comp );
	CHECK( e == o.p + n );
	CHECK( std::memcmp( a.p, c.p, n * sizeof( T ) ) == 0 );
	sorted_<T>( o.p, c.p, n, comp, sym<T>( "probe" ) );
}
//@ q:N=3 t:N=4 t:time=700
//@ bounds: sort_to of n <= N signed 16-bit values, any values, ascending
ENTRY sort_to_signed( ) { sort_to_<int16_t>( sym_param( "N", 3 ), std::less<>{ } ); sym_reach( "end" ); }
//@ q:N=3 t:N=4 t:time=700
//@ bounds: sort_to of n <= N unsigned 8-bit values, any values, ascending
ENTRY sort_to_unsigned( ) { sort_to_<uint8_t>( sym_param( "N", 3 ), std::less<>{ } ); sym_reach( "end" ); }
//@ q:N=3 t:N=4 t:time=700
//@ bounds: sort_to of n <= N signed 8-bit values, any values, descending
ENTRY sort_to_descending( ) { sort_to_<int8_t>( sym_param( "N", 3 ), std::greater<>{ } ); sym_reach( "end" ); }
//@ q:N=4 t:N=4
//@ bounds: sort_to of n <= N objects, any values
ENTRY sort_to_objects( ) {
	size_t n = sym_pick( "n", 0, sym_param( "N", 3 ) );
	U c[8], o[8];
	std::vector<Track> v, r( n );
	v.reserve( n );
	for( size_t k = 0; k < n; ++k ) { c[k] = sym_u32( "x" ); v.emplace_back( c[k] ); }
	auto e = daw::sort_to( v.begin( ), v.end( ), r.begin( ) );
	CHECK( e == r.end( ) );
	for( size_t k = 0; k < n; ++k ) { o[k] = r[k].get( ); CHECK( v[k].get( ) == c[k] ); }
	sorted_<U>( o, c, n, std::less<>{ }, sym_u32( "probe" ) );
	sym_reach( "end" );
}
