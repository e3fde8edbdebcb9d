#include "common.h"
#include <daw/daw_bit_queues.h>
#include <daw/daw_bit_stream.h>
#include <vector>
template<typename T> constexpr unsigned W = sizeof( T ) * 8;
using u128 = unsigned __int128;
static uint64_t low( unsigned n ) { return n >= 64 ? ~uint64_t{ 0 } : ( uint64_t{ 1 } << n ) - 1; }
// a queue is the string of bits pushed and not yet popped; the newest bits are the lowest
template<typename Q, typename V> void queue( unsigned steps, bool pre ) {
	using BQ = daw::basic_bit_queue<Q, V>;
	uint64_t bits = 0;
	unsigned size = 0;
	BQ q;
	if( pre ) { Q v = sym<Q>( "initial" ); q = BQ( v ); bits = v; size = W<Q>; }
	for( unsigned k = 0; k < steps; ++k ) {
		unsigned op = sym_range<uint8_t>( "op", 0, 5 );
		unsigned n = sym_range<uint8_t>( "n", 0, W<V> );
		V v = sym<V>( "v" );
		CHECK( q.can_pop( n ) == ( n <= size ) );
		if( op == 0 ) {
			if( n + size > W<Q> ) { CHECK( throws( [&] { q.push_back( v, n ); } ) ); }
			else { q.push_back( v, n ); bits = static_cast<uint64_t>( ( static_cast<u128>( bits ) << n ) | ( v & low( n ) ) ); size += n; }
		} else if( op == 1 ) {
			if( W<V> + size <= W<Q> ) { q.push_back( v ); bits = static_cast<uint64_t>( ( static_cast<u128>( bits ) << W<V> ) | v ); size += W<V>; }
		} else if( op == 2 ) {
			if( n <= size ) { V r = q.pop_front( n ); CHECK( r == ( bits & low( n ) ) ); bits = static_cast<uint64_t>( static_cast<u128>( bits ) >> n ); size -= n; }
		} else if( op == 3 ) {
			if( n <= size ) { V r = q.pop_back( n ); size -= n; CHECK( r == static_cast<uint64_t>( static_cast<u128>( bits ) >> size ) ); bits &= low( size ); }
			else CHECK( throws( [&] { (void)q.pop_back( n ); } ) );
		} else if( op == 4 ) {
			if( size <= W<V> ) { CHECK( q.pop_all( ) == bits ); bits = 0; size = 0; }
		} else { q.clear( ); bits = 0; size = 0; }
		CHECK( q.size( ) == size and q.value( ) == bits and q.empty( ) == ( size == 0 ) and q.full( ) == ( size == W<Q> ) and q.capacity( ) == W<Q> );
	}
}
//@ q:S=3 t:S=4
//@ bounds: S operations (push of any count, pop at either end of any count, pop_all, clear) on an empty or full queue; queue/value widths 8/8 (3 operations), 16/8, 16/16, 32/32, 64/8, 64/64; all values and counts
ENTRY q8_8( ) { queue<uint8_t, uint8_t>( sym_param( "S", 3 ), sym_bool( "full" ) ); sym_reach( "q" ); }
//@ q:S=2 t:S=3
ENTRY q16_8( ) { queue<uint16_t, uint8_t>( sym_param( "S", 3 ), sym_bool( "full" ) ); sym_reach( "q" ); }
//@ q:S=2 t:S=3
ENTRY q16_16( ) { queue<uint16_t, uint16_t>( sym_param( "S", 2 ), sym_bool( "full" ) ); sym_reach( "q" ); }
//@ q:S=2 t:S=3
ENTRY q32_32( ) { queue<uint32_t, uint32_t>( sym_param( "S", 2 ), sym_bool( "full" ) ); sym_reach( "q" ); }
//@ q:S=2 t:S=3
ENTRY q64_8( ) { queue<uint64_t, uint8_t>( sym_param( "S", 2 ), sym_bool( "full" ) ); sym_reach( "q" ); }
//@ q:S=2 t:S=3
ENTRY q64_64( ) { queue<uint64_t, uint64_t>( sym_param( "S", 2 ), sym_bool( "full" ) ); sym_reach( "q" ); }
// big endian source: whole values arrive byte swapped
template<typename V> void bige( ) {
	daw::basic_bit_queue<uint64_t, V, daw::bit_queue_source_big_endian> q;
	daw::basic_bit_queue<uint64_t, V, daw::bit_queue_source_little_endian> l;
	V v = sym<V>( "v" );
	q.push_back( v ); l.push_back( v );
	V e = 0;
	for( unsigned i = 0; i < sizeof( V ); ++i ) e = static_cast<V>( e | static_cast<V>( ( ( static_cast<uint64_t>( v ) >> ( 8 * i ) ) & 0xFF ) << ( 8 * ( sizeof( V ) - 1 - i ) ) ) );
	CHECK( q.value( ) == e and l.value( ) == v );
}
//@ bounds: all values, whole-value pushes
ENTRY source_endianness( ) { bige<uint8_t>( ); bige<uint16_t>( ); bige<uint32_t>( ); sym_reach( "be" ); }
//@ q:S=3 t:S=5
//@ bounds: S pushes/pops of 1..2 nibbles on 8 bit and 32 bit nibble queues
ENTRY nibbles( ) {
	daw::basic_nibble_queue<uint32_t, uint8_t> q;
	uint64_t bits = 0;
	unsigned size = 0, steps = sym_param( "S", 3 );
	if( sym_bool( "full" ) ) { uint32_t v = sym_u32( "initial" ); q = daw::basic_nibble_queue<uint32_t, uint8_t>( v ); bits = v; size = 8; }
	CHECK( q.capacity( ) == 8 );
	for( unsigned k = 0; k < steps; ++k ) {
		unsigned op = sym_range<uint8_t>( "op", 0, 4 );
		unsigned n = sym_range<uint8_t>( "n", 0, 2 );
		uint8_t v = sym_u8( "v" );
		CHECK( q.can_pop( n ) == ( n <= size ) and q.can_pop( ) == ( size >= 2 ) );
		if( op == 0 and size + n <= 8 ) { q.push_back( v, n ); bits = ( bits << ( 4 * n ) ) | ( v & low( 4 * n ) ); size += n; }
		if( op == 1 and size + 1 <= 8 ) { q.push_back( v ); bits = ( bits << 4 ) | ( v & 15 ); size += 1; }
		if( op == 2 and n <= size ) { CHECK( q.pop_front( n ) == ( bits & low( 4 * n ) ) ); bits >>= 4 * n; size -= n; }
		if( op == 3 and size <= 2 ) { CHECK( q.pop_all( ) == bits ); bits = 0; size = 0; }
		if( op == 4 ) { q.clear( ); bits = 0; size = 0; }
		CHECK( q.size( ) == size and q.value( ) == bits and q.empty( ) == ( size == 0 ) and q.full( ) == ( size == 8 ) );
	}
	sym_reach( "nib" );
}
// the bits of a sequence of elements, most significant bit of the first element first
template<typename V> struct Bits {
	Arr<V> a;
	size_t n, pos = 0;
	Bits( size_t cnt ) : a( cnt, "data" ), n( cnt ) {}
	size_t left( ) const { return n * W<V> - pos; }
	uint64_t take( size_t k ) {
		uint64_t r = 0;
		for( size_t i = 0; i < k; ++i, ++pos ) r = ( r << 1 ) | ( ( a.p[pos / W<V>] >> ( W<V> - 1 - pos % W<V> ) ) & 1 );
		return r;
	}
	size_t consumed( ) const { return ( pos + W<V> - 1 ) / W<V>; }
};
template<typename V> void stream( size_t maxn, unsigned steps ) {
	size_t n = sym_pick( "n", 0, maxn );
	Bits<V> m( n );
	auto s = daw::make_bit_stream( m.a.begin( ), m.a.end( ) );
	CHECK( s.valid( ) == ( n != 0 ) );
	for( unsigned k = 0; k < steps; ++k ) {
		size_t b = sym_pick( "bits", 0, W<V> + 1 );
		if( b == 0 or b > W<V> ) { CHECK( throws( [&] { s.pop_bits( b ); } ) ); continue; }
		if( b > m.left( ) ) { CHECK( throws_as<std::out_of_range>( [&] { s.pop_bits( b ); } ) ); break; }
		CHECK( s.pop_bits( b ) == m.take( b ) );
		CHECK( s.valid( ) == ( m.consumed( ) < n ) and static_cast<bool>( s ) == s.valid( ) );
		if( sym_bool( "clear" ) ) { s.clear_left_overs( ); m.pos = m.consumed( ) * W<V>; }
	}
}
//@ q:N=3,S=4 t:N=3,S=4
//@ bounds: streams of up to N elements, S reads of 0..width+1 bits each, leftovers dropped at any point; 8, 16 and 32 bit elements
ENTRY stream_8( ) { stream<uint8_t>( sym_param( "N", 2 ), sym_param( "S", 3 ) ); sym_reach( "st" ); }
//@ q:N=2,S=3 t:N=2,S=3
ENTRY stream_16( ) { stream<uint16_t>( sym_param( "N", 2 ), sym_param( "S", 2 ) ); sym_reach( "st" ); }
//@ q:N=3,S=2 t:N=3,S=2
ENTRY stream_32( ) { stream<uint32_t>( sym_param( "N", 2 ), sym_param( "S", 2 ) ); sym_reach( "st" ); }
template<typename T, typename V> void values( size_t cnt ) {
	Bits<V> m( cnt );
	auto s = daw::make_bit_stream( m.a.begin( ), m.a.end( ) );
	size_t skip = sym_pick( "skip", 0, W<V> * 2 );
	daw::skip_bits( s, skip ); m.take( skip );
	size_t b = sym_pick( "bits", 0, W<T> );
	if( b <= m.left( ) ) { T r = daw::pop_value<T>( s, b ); CHECK( r == static_cast<T>( m.take( b ) ) ); }
	if( W<T> <= m.left( ) ) { T r = daw::pop_value<T>( s ); CHECK( r == static_cast<T>( m.take( W<T> ) ) ); }
	CHECK( throws( [&] { daw::pop_value<T>( s, W<T> + 1 ); } ) );
}
//@ bounds: 4 (3) elements, any number of bits skipped and read
ENTRY values_16_8( ) { values<uint16_t, uint8_t>( 6 ); sym_reach( "v" ); }
//@
ENTRY values_32_8( ) { values<uint32_t, uint8_t>( 7 ); sym_reach( "v" ); }
//@
ENTRY values_8_8( ) { values<uint8_t, uint8_t>( 4 ); sym_reach( "v" ); }
//@
ENTRY values_32_32( ) { values<uint32_t, uint32_t>( 3 ); sym_reach( "v" ); }
//@ q:N=5 t:N=5
//@ bounds: 0..5 (5) bytes, whole-element and nibble-wise search for any value
ENTRY skipping( ) {
	size_t n = sym_pick( "n", 1, sym_param( "N", 3 ) );
	{
		Bits<uint8_t> m( n );
		size_t k = sym_pick( "skip", 0, n );
		auto s = daw::make_bit_stream( m.a.begin( ), m.a.end( ) );
		daw::skip_bytes( s, k );
		if( k < n ) CHECK( s.pop_bits( ) == m.a[k] ); else CHECK( throws( [&] { s.pop_bits( ); } ) );
	}
	Bits<uint8_t> m( n );
	uint8_t v = sym_u8( "v" );
	auto s = daw::make_bit_stream( m.a.begin( ), m.a.end( ) ), s2 = s;
	size_t f = n;
	for( size_t i = n; i-- > 0; ) if( m.a[i] == v ) f = i;
	if( f == n ) { CHECK( throws( [&] { daw::skip_until( s, v ); } ) ); CHECK( throws( [&] { daw::skip_until( s2, v, 8 ); } ) ); }
	else {
		daw::skip_until( s, v ); daw::skip_until( s2, v, 8 );
		if( f + 1 < n ) CHECK( s.pop_bits( ) == m.a[f + 1] and s2.pop_bits( ) == m.a[f + 1] );
		else CHECK( !s.valid( ) and !s2.valid( ) );
	}
	sym_reach( "skip" );
}
// a value found by its nibbles; the last nibble of the stream is excluded (see known finding F-P08-1)
static void nib( bool last_too ) {
	size_t n = 2;
	Bits<uint8_t> m( n );
	uint8_t v = sym_range<uint8_t>( "v", 0, 15 );
	auto s = daw::make_bit_stream( m.a.begin( ), m.a.end( ) );
	size_t f = 4;
	for( size_t i = 4; i-- > 0; ) if( ( ( m.a[i / 2] >> ( i % 2 ? 0 : 4 ) ) & 15 ) == v ) f = i;
	sym_assume( last_too ? f == 3 : f < 3 );
	daw::skip_until( s, v, 4 );
	if( f < 3 ) CHECK( s.pop_bits( 4 ) == ( ( m.a[( f + 1 ) / 2] >> ( ( f + 1 ) % 2 ? 0 : 4 ) ) & 15 ) );
	sym_reach( "nib" );
}
//@ bounds: all contents of two bytes, any nibble
ENTRY skip_until_nibble( ) { nib( false ); }
//@ known=F-P08-1
ENTRY skip_until_last_nibble( ) { nib( true ); }
