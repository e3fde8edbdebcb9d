#include "common.h"
#include "stdrt.h"
#include <daw/daw_algorithm.h>
#include <daw/daw_algorithm_cx.h>
#include <daw/daw_container_algorithm.h>
#include <daw/algorithms/daw_algorithm_find_transform.h>
#include <daw/algorithms/daw_algorithm_partial_sum.h>
#include <daw/algorithms/daw_array_compare.h>
#include <list>
#include <map>
#include <set>
#include <vector>
namespace da = daw::algorithm;
using U = uint32_t;
struct In {
	size_t n;
	Arr<U> a;
	explicit In( char const *nm, uint64_t def = 3, size_t lo = 0 ) : n( pick_size( nm, lo, sym_param( "N", def ) ) ), a( n, nm ) {}
	U *b( ) { return a.p; }
	U *e( ) { return a.p + n; }
	U &operator[]( size_t i ) { return a.p[i]; }
};
struct Lt { U t; bool operator( )( U x ) const { return x < t; } };
template<typename F> size_t first_( In &v, F f ) { size_t k = 0; while( k < v.n and not f( v[k] ) ) ++k; return k; }
// searching
//@ q:N=4 t:N=6
//@ bounds: ranges of n <= N 32-bit values, any threshold or needle
ENTRY finding( ) {
	In v( "n", 4 );
	U x = sym_u32( "x" );
	Lt p{ x };
	auto np = [&]( U y ) { return not p( y ); };
	auto eq = [&]( U y ) { return y == x; };
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 11 ) );
	if( op == 0 ) CHECK( da::find( v.b( ), v.e( ), x ) == v.b( ) + first_( v, eq ) );
	else if( op == 1 ) { CHECK( da::find_if( v.b( ), v.e( ), p ) == v.b( ) + first_( v, p ) ); CHECK( da::find_first_of( v.b( ), v.e( ), p ) == v.b( ) + first_( v, p ) ); }
	else if( op == 2 ) CHECK( da::find_if_not( v.b( ), v.e( ), p ) == v.b( ) + first_( v, np ) );
	else if( op == 3 ) { size_t i = first_( v, p ); CHECK( da::all_of( v.b( ), v.e( ), p ) == ( first_( v, np ) == v.n ) ); CHECK( da::any_of( v.b( ), v.e( ), p ) == ( i < v.n ) ); CHECK( da::none_of( v.b( ), v.e( ), p ) == ( i == v.n ) ); }
	else if( op == 4 ) { auto r = da::find_index_if( v.b( ), v.e( ), p ); size_t i = first_( v, p ); CHECK( r.has_value( ) == ( i < v.n ) ); if( r ) CHECK( *r == i ); CHECK( da::find_index_of_if( v.b( ), v.e( ), p ) == i ); CHECK( da::contains_if( v.b( ), v.e( ), p ) == ( i < v.n ) ); }
	else if( op == 5 ) { auto r = da::find_index( v.b( ), v.e( ), x ); size_t i = first_( v, eq ); CHECK( r.has_value( ) == ( i < v.n ) ); if( r ) CHECK( *r == i ); CHECK( da::find_index_of( v.b( ), v.e( ), x ) == i ); CHECK( da::contains( v.b( ), v.e( ), x ) == ( i < v.n ) ); }
	else if( op == 6 ) { size_t c = 0; for( size_t k = 0; k < v.n; ++k ) c += p( v[k] ); CHECK( da::count_if( v.b( ), v.e( ), p ) == c ); size_t s = 0; size_t calls = 0; da::for_each_if( v.b( ), v.e( ), p, [&]( U y ) { s += y; ++calls; } ); size_t m = 0; for( size_t k = 0; k < v.n; ++k ) if( p( v[k] ) ) m += v[k]; CHECK( calls == c and s == m ); }
	else if( op == 7 ) { // last of the leading run
		size_t i = first_( v, np ); CHECK( da::find_last_of( v.b( ), v.e( ), p ) == ( i == 0 ? v.e( ) : v.b( ) + i - 1 ) );
		size_t s = first_( v, p ), t = s; while( t < v.n and p( v[t] ) ) ++t;
		auto r = da::find_first_range_of( v.b( ), v.e( ), p ); CHECK( r.first == v.b( ) + s and r.second == v.b( ) + t ); }
	else if( op == 8 ) { size_t i = 0; while( i < v.n and not( v[i] < x or v[i] % 2 == 1 ) ) ++i; auto r = da::find_one_of( v.b( ), v.e( ), p, []( U y ) { return y % 2 == 1; } ); CHECK( r.position == v.b( ) + i ); CHECK( r.index == ( i == v.n ? static_cast<size_t>( -1 ) : p( v[i] ) ? 0U : 1U ) ); auto q = da::find_some( v.b( ), v.e( ), p, []( U y ) { return y % 2 == 1; } ); CHECK( q.position == v.b( ) + i ); if( i < v.n ) CHECK( q.results[0] == p( v[i] ) and q.results[1] == ( v[i] % 2 == 1 ) ); else CHECK( not q.results[0] and not q.results[1] ); }
	else if( op == 9 ) { size_t calls = 0; auto r = da::find_transform( v.b( ), v.e( ), [&]( U y ) { ++calls; return y ^ 5U; }, p ); size_t i = first_( v, [&]( U y ) { return p( y ^ 5U ); } ); CHECK( r.iterator == v.b( ) + i and r.value.has_value( ) == ( i < v.n ) and static_cast<bool>( r ) == ( i < v.n ) ); if( r ) CHECK( *r.value == ( v[i] ^ 5U ) ); CHECK( calls == ( i < v.n ? i + 1 : v.n ) ); }
	else if( op == 10 ) { size_t i = 0; while( i + 1 < v.n and not( v[i] == v[i + 1] ) ) ++i; auto r = da::adjacent_find( v.b( ), v.e( ), []( U l, U r_ ) { return l == r_; } ); CHECK( r == ( i + 1 < v.n ? v.b( ) + i : v.e( ) ) ); bool same = true; for( size_t k = 1; k < v.n; ++k ) same &= v[k] == v[0]; CHECK( da::all_equal<>{ }( v.b( ), v.e( ) ) == same ); }
	else if( v.n > 0 ) { size_t i = 0; while( i + 1 < v.n and not( v[i + 1] < v[i] ) ) ++i; CHECK( da::find_unsorted( v.b( ), v.e( ) ) == ( i + 1 < v.n ? v.b( ) + i : v.e( ) ) ); auto u = da::is_sorted_until( v.b( ), v.e( ) ); CHECK( u == ( i + 1 < v.n ? v.b( ) + i + 1 : v.e( ) ) ); CHECK( da::is_sorted( v.b( ), v.e( ) ) == ( i + 1 >= v.n ) ); U const *cb = v.b( ); CHECK( da::is_sorted_until( cb, v.e( ) + 0 ) == u ); auto d = da::is_sorted_until( v.b( ), v.e( ), std::greater<>{ } ); size_t j = 1; while( j < v.n and not( v[j] > v[j - 1] ) ) ++j; CHECK( d == v.b( ) + j ); }
	else { CHECK( da::is_sorted( v.b( ), v.e( ) ) and da::is_sorted_until( v.b( ), v.e( ) ) == v.e( ) and da::max_element( v.b( ), v.e( ) ) == v.e( ) ); }
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: text of n <= N and needle set / sub-range of m <= 2 values
ENTRY finding_ranges( ) {
	In v( "n" );
	size_t m = sym_pick( "m", 0, 2 ); Arr<U> s( m, "s" );
	size_t i = 0, j = 0;
	for( ; i < v.n; ++i ) { bool hit = false; for( size_t k = 0; k < m; ++k ) hit |= v[i] == s[k]; if( hit ) break; }
	CHECK( da::find_first_of( v.b( ), v.e( ), s.p, s.p + m ) == v.b( ) + i );
	for( ; j + m <= v.n; ++j ) { bool hit = true; for( size_t k = 0; k < m; ++k ) hit &= v[j + k] == s[k]; if( hit ) break; }
	CHECK( da::search( v.b( ), v.e( ), s.p, s.p + m ) == ( j + m <= v.n ? v.b( ) + j : v.e( ) ) );
	std::list<U> l( v.b( ), v.e( ) );
	CHECK( da::search( l.begin( ), l.end( ), s.p, s.p + m ) == ( j + m <= v.n ? std::next( l.begin( ), static_cast<ptrdiff_t>( j ) ) : l.end( ) ) );
	sym_reach( "end" );
}
// binary searching
//@ q:N=4 t:N=7
//@ bounds: ordered ranges of n <= N values, any needle
ENTRY bounds_( ) {
	In v( "n", 4 );
	for( size_t k = 1; k < v.n; ++k ) sym_assume( v[k - 1] <= v[k] );
	U x = sym_u32( "x" );
	size_t lo = 0, hi = 0;
	for( size_t k = 0; k < v.n; ++k ) { lo += v[k] < x; hi += not( x < v[k] ); }
	CHECK( static_cast<size_t>( da::lower_bound( v.b( ), v.e( ), x ) - v.b( ) ) == lo );
	CHECK( static_cast<size_t>( da::upper_bound( v.b( ), v.e( ), x ) - v.b( ) ) == hi );
	if( v.n > 0 ) { auto r = da::binary_search( v.b( ), v.e( ), x ); if( lo == hi ) CHECK( r == v.e( ) ); else CHECK( r != v.e( ) and *r == x ); }
	sym_reach( "end" );
}
//@ q:N=4 t:N=6
//@ bounds: ranges ordered from large to small
ENTRY bounds_desc( ) {
	In v( "n", 4, 1 );
	for( size_t k = 1; k < v.n; ++k ) sym_assume( v[k - 1] >= v[k] );
	U x = sym_u32( "x" );
	size_t lo = 0, hi = 0;
	for( size_t k = 0; k < v.n; ++k ) { lo += v[k] > x; hi += not( x > v[k] ); }
	std::greater<> g{ };
	CHECK( static_cast<size_t>( da::lower_bound( v.b( ), v.e( ), x, g ) - v.b( ) ) == lo );
	CHECK( static_cast<size_t>( da::upper_bound( v.b( ), v.e( ), x, g ) - v.b( ) ) == hi );
	auto r = da::binary_search( v.b( ), v.e( ), x, g ); if( lo == hi ) CHECK( r == v.e( ) ); else CHECK( r != v.e( ) and *r == x );
	std::list<U> l( v.b( ), v.e( ) );
	CHECK( static_cast<size_t>( std::distance( l.begin( ), da::lower_bound( l.begin( ), l.end( ), x, g ) ) ) == lo );
	CHECK( static_cast<size_t>( std::distance( l.begin( ), da::upper_bound( l.begin( ), l.end( ), x, g ) ) ) == hi );
	sym_reach( "end" );
}
// comparing
//@ q:N=4 t:N=4
//@ bounds: two ranges of n, m <= N values
ENTRY comparing( ) {
	In v( "n" ), w( "m" );
	size_t k = 0; while( k < v.n and k < w.n and v[k] == w[k] ) ++k;
	int want = k == v.n and k == w.n ? 0 : k == v.n ? -1 : k == w.n ? 1 : v[k] < w[k] ? -1 : 1;
	CHECK( da::equal( v.b( ), v.e( ), w.b( ), w.e( ) ) == ( want == 0 ) );
	CHECK( da::lexicographical_compare( v.b( ), v.e( ), w.b( ), w.e( ) ) == ( want < 0 ) );
	CHECK( da::lexicographical_compare( w.b( ), w.e( ), v.b( ), v.e( ) ) == ( want > 0 ) );
	int r = da::compare_range( v.b( ), v.e( ), w.b( ), w.e( ) );
	CHECK( ( r < 0 ) == ( want < 0 ) and ( r > 0 ) == ( want > 0 ) );
	if( v.n <= w.n ) CHECK( da::equal( v.b( ), v.e( ), w.b( ) ) == ( k == v.n ) );
	CHECK( da::equal( v.b( ), v.e( ), w.b( ), w.e( ), []( U a, U b ) { return ( a ^ b ) < 2; } ) == [&] { if( v.n != w.n ) return false; bool ok = true; for( size_t i = 0; i < v.n; ++i ) ok &= ( v[i] ^ w[i] ) < 2; return ok; }( ) );
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY scalars( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" ), c = sym_u32( "c" ), d = sym_u32( "d" );
	auto mn = [&]( U x, U y ) { return sel<U>( y < x, y, x ); };
	auto mx = [&]( U x, U y ) { return sel<U>( y > x, y, x ); };
	CHECK( da::min_item( a ) == a and da::max_item( a ) == a );
	CHECK( da::min_item( a, b, c, d ) == mn( mn( a, b ), mn( c, d ) ) );
	CHECK( da::max_item( a, b, c, d ) == mx( mx( a, b ), mx( c, d ) ) );
	CHECK( da::are_equal( a ) and da::are_equal( a, b ) == ( a == b ) and da::are_equal( a, b, c ) == ( ( a == b ) & ( b == c ) ) and da::are_equal( a, b, c, d ) == ( ( a == b ) & ( b == c ) & ( c == d ) ) );
	{ auto r = da::minmax_item( a, b ); CHECK( r.first == mn( a, b ) and r.second == mx( a, b ) ); }
	CHECK( da::clamp( U( a ), U( b ) ) == mn( a, b ) );
	CHECK( da::equal_to( b )( a ) == ( a == b ) and da::less_than( b )( a ) == ( a < b ) and da::greater_than( b )( a ) == ( a > b ) and da::less_than_or_equal_to( b )( a ) == ( a <= b ) and da::greater_than_or_equal_to( b )( a ) == ( a >= b ) );
	auto p = [&]( U x ) { return x < b; }; auto q = [&]( U x ) { return x < c; }; auto r = [&]( U x ) { return x == d; };
	CHECK( da::satisfies_one( a, p ) == p( a ) and da::satisfies_one( a, p, q, r ) == ( p( a ) | q( a ) | r( a ) ) );
	CHECK( da::satisfies_all( a, p ) == p( a ) and da::satisfies_all( a, p, q, r ) == ( p( a ) & q( a ) & r( a ) ) );
	if( b <= c ) CHECK( da::in_range( b, c )( a ) == ( ( b <= a ) & ( a <= c ) ) );
	else CHECK( throws_as<std::out_of_range>( [&] { (void)da::in_range( b, c ); } ) );
	sym_reach( "end" );
}
//@ q:N=5 t:N=5
//@ bounds: ranges of n <= N values
ENTRY satisfying( ) {
	In v( "n" );
	U x = sym_u32( "x" ), y = sym_u32( "y" );
	auto p = [&]( U e ) { return e < x; }; auto q = [&]( U e ) { return e == y; };
	bool one = false, all = true;
	for( size_t k = 0; k < v.n; ++k ) { one |= p( v[k] ) | q( v[k] ); all &= p( v[k] ) & q( v[k] ); }
	CHECK( da::satisfies_one( v.b( ), v.e( ), p, q ) == one );
	CHECK( da::satisfies_all( v.b( ), v.e( ), p, q ) == all );
	sym_reach( "end" );
}
// extremes: value at the position is extreme; first maximum, first minimum, last maximum of the pair form
//@ q:N=4 t:N=6
//@ bounds: ranges of 1..N values
ENTRY extremes( ) {
	In v( "n", 4, 1 );
	size_t mi = 0, ma = 0, la = 0;
	for( size_t k = 1; k < v.n; ++k ) { if( v[k] < v[mi] ) mi = k; if( v[ma] < v[k] ) ma = k; if( not( v[k] < v[la] ) ) la = k; }
	CHECK( da::max_element( v.b( ), v.e( ) ) == v.b( ) + ma );
	CHECK( da::max_element( v.b( ), v.e( ), std::greater<>{ } ) == v.b( ) + mi );
	auto r = da::minmax_element( v.b( ), v.e( ) );
	CHECK( r.min_element == v.b( ) + mi and r.max_element == v.b( ) + la );
	std::list<U> l( v.b( ), v.e( ) );
	auto s = da::minmax_element( l.begin( ), l.end( ) );
	CHECK( *s.min_element == v[mi] and *s.max_element == v[la] );
	sym_reach( "end" );
}
// writing into an output range of exactly the needed size
//@ q:N=3 t:N=5
//@ bounds: ranges of n <= N values into outputs of exactly the needed size
ENTRY writing( ) {
	In v( "n" );
	U x = sym_u32( "x" );
	Lt p{ x };
	size_t cnt = 0; for( size_t k = 0; k < v.n; ++k ) cnt += p( v[k] ) ? 1 : 0;
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 9 ) );
	size_t on = op == 1 or op == 2 ? cnt : v.n;
	Arr<U> o( on, "o" );
	auto f = [&]( U y ) { return y * 3U + x; };
	auto same = [&]( auto g ) { bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == g( v[k] ); CHECK( ok ); };
	auto id = []( U y ) { return y; };
	if( op == 0 ) { CHECK( da::copy( v.b( ), v.e( ), o.p ) == o.p + v.n ); same( id ); }
	else if( op == 1 ) { CHECK( da::copy_if( v.b( ), v.e( ), o.p, p ) == o.p + cnt ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( p( v[k] ) ) CHECK( o[j++] == v[k] ); }
	else if( op == 2 ) { CHECK( da::transform_if( v.b( ), v.e( ), o.p, p, f ) == o.p + cnt ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( p( v[k] ) ) CHECK( o[j++] == f( v[k] ) ); }
	else if( op == 3 ) { auto r = da::copy_n( v.b( ), o.p, v.n ); CHECK( r.input == v.e( ) and r.output == o.p + v.n ); same( id ); }
	else if( op == 4 ) { CHECK( da::transform( v.b( ), v.e( ), o.p, f ) == o.p + v.n ); same( f ); CHECK( da::map( v.b( ), v.e( ), o.p, id ) == o.p + v.n ); same( id ); }
	else if( op == 5 ) { auto r = da::transform_n( v.b( ), o.p, v.n, f ); CHECK( r.input == v.e( ) and r.output == o.p + v.n ); same( f ); auto q = da::transform_n( v.b( ), o.p, v.n, []( U y, size_t i ) { return y + static_cast<U>( i ) * 7U; } ); CHECK( q.input == v.e( ) and q.output == o.p + v.n ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == v[k] + static_cast<U>( k ) * 7U; CHECK( ok ); }
	else if( op == 6 ) { CHECK( da::transform_it( v.b( ), v.e( ), o.p, []( U y, U *it ) { *it = y + 1; return it + 1; } ) == o.p + v.n ); same( []( U y ) { return y + 1; } ); }
	else if( op == 7 ) { CHECK( da::move( v.b( ), v.e( ), o.p ) == o.p + v.n ); same( id ); auto r = da::move_n( v.b( ), o.p, v.n ); CHECK( r.input == v.e( ) and r.output == o.p + v.n ); same( id ); }
	else if( op == 8 ) { CHECK( da::fill_n( o.p, v.n, x ) == o.p + v.n ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == x; da::iota( o.p, o.p + v.n, x ); for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == x + static_cast<U>( k ); da::fill( o.p, o.p + v.n, x ); for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == x; da::iota( o.p, o.p + v.n, x, []( U &d, U s ) { d = s ^ 1U; } ); for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == ( ( x + static_cast<U>( k ) ) ^ 1U ); CHECK( ok ); }
	else { Arr<uint8_t> b( v.n, "b" ); CHECK( ( da::convert_copy<uint8_t>( v.b( ), v.e( ), b.p ) ) == b.p + v.n ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) { ok &= b[k] == static_cast<uint8_t>( v[k] ); b[k] = 0; } CHECK( da::convert_copy_n<uint8_t>( v.b( ), b.p, v.n ) == b.p + v.n ); for( size_t k = 0; k < v.n; ++k ) ok &= b[k] == static_cast<uint8_t>( v[k] ); CHECK( ok ); }
	sym_reach( "end" );
}
//@ q:N=5 t:N=5
//@ bounds: two or three ranges of n <= N values
ENTRY folding( ) {
	In v( "n" );
	Arr<U> w( v.n, "w" ), o( v.n, "o" );
	U x = sym_u32( "x" ), acc = x, dot = x, sum = x;
	for( size_t k = 0; k < v.n; ++k ) { sum += v[k]; acc = acc * 5U + v[k]; dot = dot * 3U ^ ( v[k] - w[k] ); }
	CHECK( da::accumulate( v.b( ), v.e( ), x ) == sum );
	CHECK( da::accumulate( v.b( ), v.e( ), x, []( U l, U r ) { return l * 5U + r; } ) == acc );
	CHECK( da::reduce( v.b( ), v.e( ), x, []( U l, U r ) { return l * 5U + r; } ) == acc );
	CHECK( da::map_reduce( v.b( ), v.e( ), w.p, x, []( U l, U r ) { return l * 3U ^ r; }, []( U l, U r ) { return l - r; } ) == dot );
	CHECK( da::partial_sum( v.b( ), v.e( ), o.p ) == o.p + v.n );
	bool ok = true; { U s = 0; for( size_t k = 0; k < v.n; ++k ) { s += v[k]; ok &= o[k] == s; } }
	CHECK( da::map( v.b( ), v.e( ), w.p, o.p, []( U l, U r ) { return l - r; } ) == o.p + v.n );
	for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == v[k] - w[k];
	CHECK( da::cartesian_product_map( []( U l, U r ) { return l * 2U + r; }, v.b( ), v.e( ), o.p, w.p ) == o.p + v.n );
	for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == v[k] * 2U + w[k];
	CHECK( da::transform_many( v.b( ), v.e( ), w.p, w.p, o.p, []( U l, U r, U s ) { return l ^ r ^ ( s + 1U ); } ) == o.p + v.n );
	for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == ( v[k] ^ w[k] ^ ( w[k] + 1U ) );
	U h = 1, m = 1; da::cartesian_product( [&]( U l, U r ) { h = h * 31U + l - r; }, v.b( ), v.e( ), w.p ); for( size_t k = 0; k < v.n; ++k ) m = m * 31U + v[k] - w[k];
	CHECK( ok and h == m );
	sym_reach( "end" );
}
// rearranging in place
template<typename G> size_t tally( In &v, size_t n, G g ) { size_t c = 0; for( size_t k = 0; k < n; ++k ) c += g( v[k] ) ? 1U : 0U; return c; }
//@ q:N=4 t:N=6
//@ bounds: ranges of n <= N values, any middle / nth position
ENTRY rearranging( ) {
	In v( "n", 4 );
	Arr<U> c( v.n, "c" );
	std::memcpy( c.p, v.b( ), v.n * sizeof( U ) );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 6 ) );
	U x = sym_u32( "x" );
	Lt p{ x };
	if( op == 0 ) { size_t m = pick_pos( "m", 0, v.n ); da::rotate( v.b( ), v.b( ) + m, v.e( ) ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= v[k] == c[( k + m ) % v.n]; CHECK( ok ); }
	else if( op == 1 ) { da::reverse( v.b( ), v.e( ) ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= v[k] == c[v.n - 1 - k]; CHECK( ok ); size_t k = 0; std::vector<U> q( c.p, c.p + v.n ); for( U e : da::reverse( q ) ) { CHECK( e == v[k] ); ++k; } CHECK( k == v.n ); }
	else if( op == 2 ) { size_t i = pick_pos( "nth", 0, v.n ); da::nth_element( v.b( ), v.b( ) + i, v.e( ) ); bool ok = true; if( i < v.n ) { for( size_t k = 0; k < i; ++k ) ok &= v[k] <= v[i]; for( size_t k = i; k < v.n; ++k ) ok &= v[i] <= v[k]; } CHECK( ok ); size_t a = 0, b = 0; for( size_t k = 0; k < v.n; ++k ) { a += v[k] == x; b += c[k] == x; } CHECK( a == b ); }
	else if( op == 3 ) { U *r = da::partition( v.b( ), v.e( ), p ); bool ok = true; for( U *k = v.b( ); k != v.e( ); ++k ) ok &= p( *k ) == ( k < r ); CHECK( ok ); U y = sym_u32( "y" ); size_t a = 0, b = 0; for( size_t k = 0; k < v.n; ++k ) { a += v[k] == y; b += c[k] == y; } CHECK( a == b ); }
	else if( op == 4 ) { U *r = da::remove( v.b( ), v.e( ), x ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( c[k] != x ) { CHECK( v[j] == c[k] ); ++j; } CHECK( r == v.b( ) + j ); }
	else if( op == 5 ) { U *r = da::remove_if( v.b( ), v.e( ), p ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( not p( c[k] ) ) { CHECK( v[j] == c[k] ); ++j; } CHECK( r == v.b( ) + j ); }
	else { size_t i = pick_pos( "i", 0, v.n ), j = pick_pos( "j", i, v.n ), t = pick_pos( "t", 0, v.n ); if( t < i or t > j ) { auto r = da::slide( v.b( ) + i, v.b( ) + j, v.b( ) + t ); std::rotate( t < i ? c.p + t : c.p + i, t < i ? c.p + i : c.p + j, t < i ? c.p + j : c.p + t ); CHECK( r.second - r.first == static_cast<ptrdiff_t>( j - i ) and ( t < i ? r.first == v.b( ) + t : r.second == v.b( ) + t ) ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= v[k] == c[k]; CHECK( ok ); } else { auto r = da::slide( v.b( ) + i, v.b( ) + j, v.b( ) + t ); CHECK( r.first == v.b( ) + i and r.second == v.b( ) + j ); } }
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: ranges of n <= N values: gather around any target, swapping of ranges, set intersection of ordered ranges
ENTRY rearranging2( ) {
	In v( "n" );
	Arr<U> c( v.n, "c" ), w( v.n, "w" ), d( v.n, "d" );
	std::memcpy( c.p, v.b( ), v.n * sizeof( U ) ); std::memcpy( d.p, w.p, v.n * sizeof( U ) );
	U x = sym_u32( "x" );
	if( sym_bool( "swap" ) ) { CHECK( daw::swap_ranges( v.b( ), v.e( ), w.p ) == w.p + v.n ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= ( v[k] == d[k] ) & ( w[k] == c[k] ); std::array<U, 3> a{ x, 1, 2 }, b{ 3, 4, x }; daw::cswap( a, b ); ok &= ( a == std::array<U, 3>{ 3, 4, x } ) & ( b == std::array<U, 3>{ x, 1, 2 } ); if( v.n > 1 ) { daw::iter_swap( v.b( ), v.b( ) + 1 ); ok &= ( v[0] == d[1] ) & ( v[1] == d[0] ); daw::cswap( v[0], v[1] ); ok &= ( v[0] == d[0] ) & ( v[1] == d[1] ); } CHECK( ok ); }
	else { Lt p{ x }; size_t t = pick_pos( "target", 0, v.n ); auto r = da::gather( v.b( ), v.e( ), v.b( ) + t, p );
		std::vector<U> want; for( size_t k = 0; k < t; ++k ) if( not p( c[k] ) ) want.push_back( c[k] ); size_t s = want.size( ); for( size_t k = 0; k < v.n; ++k ) if( p( c[k] ) ) want.push_back( c[k] ); size_t e = want.size( ); for( size_t k = t; k < v.n; ++k ) if( not p( c[k] ) ) want.push_back( c[k] );
		CHECK( r.first == v.b( ) + s and r.second == v.b( ) + e ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= v[k] == want[k]; CHECK( ok ); }
	sym_reach( "end" );
}
//@ q:N=3 t:N=4
//@ bounds: ordered ranges of n, m <= N values, repeated ones included
ENTRY intersecting( ) {
	In v( "n" ), w( "m" );
	for( size_t k = 1; k < v.n; ++k ) sym_assume( v[k - 1] <= v[k] );
	for( size_t k = 1; k < w.n; ++k ) sym_assume( w[k - 1] <= w[k] );
	U o[160]; U *e = da::set_intersection( v.b( ), v.e( ), w.b( ), w.e( ), o );
	size_t n = static_cast<size_t>( e - o );
	U x = sym_u32( "x" );
	size_t a = 0, b = 0, c = 0;
	for( size_t k = 0; k < v.n; ++k ) a += v[k] == x;
	for( size_t k = 0; k < w.n; ++k ) b += w[k] == x;
	bool ok = true;
	for( size_t k = 0; k < n; ++k ) { c += o[k] == x; if( k ) ok &= o[k - 1] <= o[k]; }
	CHECK( ok and c == sel<size_t>( a < b, a, b ) );
	sym_reach( "end" );
}
// life-cycle checked elements through the moving algorithms
//@ q:N=4 t:N=4
//@ bounds: n <= N life-cycle checked elements
ENTRY objects( ) {
	LeakGuard g;
	{
		size_t n = sym_pick( "n", 0, sym_param( "N", 3 ) );
		std::vector<Track> v; v.reserve( 8 ); U c[8];
		for( size_t k = 0; k < n; ++k ) { c[k] = sym_u32( "x" ); v.emplace_back( c[k] ); }
		U x = sym_u32( "t" );
		auto p = [&]( Track const &t ) { return t.get( ) < x; };
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
		if( op == 0 ) { size_t m = pick_pos( "m", 0, n ); da::rotate( v.begin( ), v.begin( ) + static_cast<ptrdiff_t>( m ), v.end( ) ); for( size_t k = 0; k < n; ++k ) CHECK( v[k].get( ) == c[( k + m ) % n] ); }
		else if( op == 1 ) { da::reverse( v.begin( ), v.end( ) ); for( size_t k = 0; k < n; ++k ) CHECK( v[k].get( ) == c[n - 1 - k] ); }
		else if( op == 2 ) { auto r = da::remove_if( v.begin( ), v.end( ), p ); size_t j = 0; for( size_t k = 0; k < n; ++k ) if( not( c[k] < x ) ) { CHECK( v[j].get( ) == c[k] ); ++j; } CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( j ) ); }
		else if( op == 3 ) { auto r = da::remove( v.begin( ), v.end( ), Track( x ) ); size_t j = 0; for( size_t k = 0; k < n; ++k ) if( c[k] != x ) { CHECK( v[j].get( ) == c[k] ); ++j; } CHECK( r == v.begin( ) + static_cast<ptrdiff_t>( j ) ); }
		else if( op == 4 ) { std::vector<Track> o( n ); da::move( v.begin( ), v.end( ), o.begin( ) ); for( size_t k = 0; k < n; ++k ) CHECK( o[k].get( ) == c[k] ); }
		else { auto r = da::partition( v.begin( ), v.end( ), p ); for( auto i = v.begin( ); i != v.end( ); ++i ) CHECK( p( *i ) == ( i < r ) ); }
	}
	sym_reach( "end" );
}
// splitting
//@ q:N=6 t:N=6
//@ bounds: ranges of n <= N values, any separator; 1..4 parts
ENTRY splitting( ) {
	In v( "n", 4 );
	if( sym_bool( "parts" ) ) {
		size_t cnt = sym_pick( "count", 1, 4 );
		auto r = da::partition_range( v.b( ), v.e( ), cnt );
		CHECK( r.size( ) == cnt );
		U *at = v.b( ); size_t sz = v.n / cnt ? v.n / cnt : 1;
		for( size_t k = 0; k < cnt; ++k ) { CHECK( r[k].begin( ) == at ); size_t s = static_cast<size_t>( r[k].end( ) - r[k].begin( ) ); if( k + 1 < cnt ) CHECK( s == ( static_cast<size_t>( v.e( ) - at ) < sz ? static_cast<size_t>( v.e( ) - at ) : sz ) ); at = r[k].end( ); }
		CHECK( at == v.e( ) );
	} else {
		U x = sym_u32( "x" );
		auto r = da::split( v.b( ), v.e( ), x );
		size_t part = 0, pos = 0;
		for( size_t k = 0; k < v.n; ++k ) { CHECK( part < r.size( ) ); if( v[k] == x ) { CHECK( r[part].size( ) == pos ); ++part; pos = 0; } else { CHECK( pos < r[part].size( ) and r[part][pos] == v[k] ); ++pos; } }
		CHECK( r.size( ) == part + 1 and r[part].size( ) == pos );
	}
	sym_reach( "end" );
}
// moving iterators without leaving the range
//@ bounds: ranges of n <= 3 values, any start, any 64-bit distance and any count
ENTRY stepping( ) {
	In v( "n" );
	std::vector<U> a( v.b( ), v.e( ) ); std::list<U> l( v.b( ), v.e( ) );
	auto n = static_cast<int64_t>( v.n );
	auto i = static_cast<int64_t>( pick_pos( "i", 0, v.n ) );
	int64_t d = sym<int64_t>( "d" );
	int64_t want = d < -i ? 0 : d > n - i ? n : i + d;
	{ auto it = a.begin( ) + i; daw::safe_advance( a, it, d ); CHECK( it - a.begin( ) == want ); }
	{ auto const &ca = a; auto it = ca.begin( ) + i; daw::safe_advance( ca, it, d ); CHECK( it - ca.begin( ) == want ); }
	{ auto it = std::next( l.begin( ), i ); daw::safe_advance( l, it, d ); CHECK( std::distance( l.begin( ), it ) == want ); }
	if( d >= 0 ) { CHECK( daw::safe_prev( a.begin( ) + i, a.begin( ), d ) - a.begin( ) == ( d > i ? 0 : i - d ) ); CHECK( daw::safe_next( a.begin( ) + i, a.end( ), d ) - a.begin( ) == want ); CHECK( std::distance( l.begin( ), daw::safe_prev( std::next( l.begin( ), i ), l.begin( ), d ) ) == ( d > i ? 0 : i - d ) ); }
	sym_reach( "end" );
}
//@ bounds: ranges of n <= 3 values, any start, any unsigned 64-bit count
ENTRY stepping_counts( ) {
	In v( "n" );
	std::vector<U> a( v.b( ), v.e( ) ); std::list<U> l( v.b( ), v.e( ) );
	auto const &ca = a; auto const &cl = l;
	size_t n = v.n, i = pick_pos( "i", 0, v.n );
	auto si = static_cast<int64_t>( i );
	size_t c = sym<size_t>( "c" );
	size_t next = c > n - i ? n : i + c, at = c > n ? n : c, prev = c > i ? 0 : i - c;
	CHECK( static_cast<size_t>( daw::safe_next( a.begin( ) + si, a.end( ), c ) - a.begin( ) ) == next );
	CHECK( static_cast<size_t>( daw::safe_prev( a.begin( ) + si, a.begin( ), c ) - a.begin( ) ) == prev );
	CHECK( static_cast<size_t>( daw::begin_at( a, c ) - a.begin( ) ) == at );
	CHECK( static_cast<size_t>( daw::begin_at( ca, c ) - ca.begin( ) ) == at );
	CHECK( static_cast<size_t>( std::distance( l.begin( ), daw::safe_next( std::next( l.begin( ), si ), l.end( ), c ) ) ) == next );
	CHECK( static_cast<size_t>( std::distance( l.begin( ), daw::safe_prev( std::next( l.begin( ), si ), l.begin( ), c ) ) ) == prev );
	CHECK( static_cast<size_t>( std::distance( l.begin( ), daw::begin_at( l, c ) ) ) == at );
	CHECK( static_cast<size_t>( std::distance( cl.begin( ), daw::begin_at( cl, c ) ) ) == at );
	{ auto it = a.begin( ) + si; daw::safe_advance( a, it, c ); CHECK( static_cast<size_t>( it - a.begin( ) ) == next ); }
	{ auto it = ca.begin( ) + si; daw::safe_advance( ca, it, c ); CHECK( static_cast<size_t>( it - ca.begin( ) ) == next ); }
	sym_reach( "end" );
}
//@ bounds: counts <= 4
ENTRY repeating( ) {
	size_t n = sym_pick( "n", 0, 4 );
	size_t c = 0, s = 0;
	da::do_n( n, [&] { ++c; } ); CHECK( c == n );
	da::do_n_arg( n, [&]( size_t k ) { s = s * 10 + k + 1; } ); size_t w = 0; for( size_t k = 0; k < n; ++k ) w = w * 10 + k + 1; CHECK( s == w );
	c = 0; da::do_n<3>( [&] { ++c; } ); CHECK( c == 3 );
	s = 0; da::do_n_arg<3>( [&]( size_t k ) { s = s * 10 + k + 1; } ); CHECK( s == 123 );
	s = 0; da::do_n_arg<6, 2>( [&]( size_t k ) { s = s * 10 + k + 1; } ); CHECK( s == 135 );
	{ U r[4] = { 0, 0, 0, 0 }; size_t t = sym_u64( "t" ); sym_assume( t < 3 ); std::tuple<U, U, U> tp{ 10, 20, 30 }; U got = 0; da::tuple_functor<3>::run( t, tp, [&]( U e ) { got = e; } ); CHECK( got == 10 * ( t + 1 ) ); (void)r; }
	sym_reach( "end" );
}
// moving nodes between sets, lookup in maps
//@ bounds: sets and maps of <= 3 ascending elements
ENTRY node_moving( ) {
	size_t m = sym_pick( "m", 0, 3 );
	std::set<U> a, b; U x[3]; U t = sym_u32( "x" );
	for( size_t k = 0; k < m; ++k ) { x[k] = sym_u32( "e" ); if( k ) sym_assume( x[k - 1] < x[k] ); a.insert( x[k] ); }
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 2 ) );
	if( op == 0 ) { da::extract_matching( a, b, Lt{ t } ); for( size_t k = 0; k < m; ++k ) CHECK( a.contains( x[k] ) == not( x[k] < t ) and b.contains( x[k] ) == ( x[k] < t ) ); }
	else if( op == 1 ) { da::extract_all( a, b ); CHECK( a.empty( ) and b.size( ) == m ); for( size_t k = 0; k < m; ++k ) CHECK( b.contains( x[k] ) ); }
	else { da::extract_to( a, b, t ); for( size_t k = 0; k < m; ++k ) CHECK( a.contains( x[k] ) == ( x[k] != t ) and b.contains( x[k] ) == ( x[k] == t ) ); }
	std::map<U, U> mp; for( size_t k = 0; k < m; ++k ) mp[x[k]] = static_cast<U>( k );
	{ auto r = daw::try_get( mp, t ); size_t k = 0; while( k < m and x[k] != t ) ++k; CHECK( r.has_value( ) == ( k < m ) ); if( r ) CHECK( r->first == t and r->second == k ); auto const &cm = mp; CHECK( daw::try_get( cm, t ).has_value( ) == ( k < m ) ); }
	sym_reach( "end" );
}
//@ bounds: all values of 3 element and 2x2 arrays
ENTRY arrays( ) {
	U a[3] = { sym_u32( "a" ), sym_u32( "a" ), sym_u32( "a" ) }, b[3] = { sym_u32( "b" ), sym_u32( "b" ), sym_u32( "b" ) };
	CHECK( daw::array_cmp( a, b ) == ( ( a[0] == b[0] ) & ( a[1] == b[1] ) & ( a[2] == b[2] ) ) );
	U c[2][2] = { { a[0], a[1] }, { a[2], b[0] } }, d[2][2] = { { b[0], b[1] }, { b[2], a[0] } };
	CHECK( daw::array_cmp( c, d ) == ( ( a[0] == b[0] ) & ( a[1] == b[1] ) & ( a[2] == b[2] ) ) );
	sym_reach( "end" );
}
// whole container forms
//@ q:N=4 t:N=4
//@ bounds: vectors of n <= N values
ENTRY containers( ) {
	In v( "n" );
	namespace dc = daw::container;
	std::vector<U> a( v.b( ), v.e( ) ); auto const &ca = a;
	U x = sym_u32( "x" ); Lt p{ x };
	auto eq = [&]( U y ) { return y == x; };
	auto at = [&]( size_t k ) { return a.begin( ) + static_cast<ptrdiff_t>( k ); };
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 8 ) );
	if( op == 0 ) { size_t i = first_( v, eq ); CHECK( dc::find( a, x ) == at( i ) and dc::find( ca, x ) == at( i ) and dc::contains( a, x ) == ( i < v.n ) ); }
	else if( op == 1 ) { size_t i = first_( v, p ); CHECK( dc::find_if( a, p ) == at( i ) and dc::contains( a, p ) == ( i < v.n ) ); CHECK( dc::container_size( a ) == v.n ); }
	else if( op == 2 ) { dc::erase_remove( a, x ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( v[k] != x ) { CHECK( j < a.size( ) and a[j] == v[k] ); ++j; } CHECK( a.size( ) == j ); }
	else if( op == 3 ) { dc::erase_remove_if( a, p ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( not p( v[k] ) ) { CHECK( j < a.size( ) and a[j] == v[k] ); ++j; } CHECK( a.size( ) == j ); }
	else if( op == 4 ) { auto r = sym_bool( "stable" ) ? dc::stable_partition( a, p ) : dc::partition( a, p ); for( auto i = a.begin( ); i != a.end( ); ++i ) CHECK( p( *i ) == ( i < r ) ); }
	else if( op == 5 ) { U s = x, h = x; for( size_t k = 0; k < v.n; ++k ) { s += v[k]; h = h * 5U + v[k]; } CHECK( dc::accumulate( a, U( x ) ) == s and dc::accumulate( a, U( x ), []( U l, U r ) { return l * 5U + r; } ) == h ); U o[160]; U *e = o; CHECK( dc::transform( ca, e, []( U y ) { return y ^ 1U; } ) == o + v.n ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == ( v[k] ^ 1U ); CHECK( dc::transform( a, []( U y ) { return y + 9U; } ) == a.end( ) ); for( size_t k = 0; k < v.n; ++k ) ok &= a[k] == v[k] + 9U; CHECK( ok ); }
	else if( op == 6 ) { if( v.n ) { size_t ma = 0, mi = 0; for( size_t k = 1; k < v.n; ++k ) { if( v[ma] < v[k] ) ma = k; if( v[k] < v[mi] ) mi = k; } CHECK( dc::max_element( a ) == at( ma ) and dc::max_element( ca ) == at( ma ) and dc::max_element( a, std::greater<>{ } ) == at( mi ) and dc::max_element( ca, std::greater<>{ } ) == at( mi ) ); } }
	else if( op == 7 ) { U o[160]; size_t c = sym_u64( "c" ); dc::copy( a, o ); bool ok = true; for( size_t k = 0; k < v.n; ++k ) ok &= o[k] == v[k]; Arr<U> q( c < v.n ? c : v.n, "q" ); dc::copy_n( a, c, q.p ); for( size_t k = 0; k < q.n; ++k ) ok &= q[k] == v[k]; CHECK( ok ); U *e = dc::copy_if( a, o, p ); size_t j = 0; for( size_t k = 0; k < v.n; ++k ) if( p( v[k] ) ) CHECK( o[j++] == v[k] ); CHECK( e == o + j ); }
	else { U h = 0, m = 0; size_t i = pick_pos( "i", 0, v.n ), j = pick_pos( "j", 0, v.n ); dc::for_each_with_pos( a, i, j, [&]( U y, size_t k ) { h = h * 31U + y + static_cast<U>( k ); } ); for( size_t k = i; k < j; ++k ) m = m * 31U + v[k] + static_cast<U>( k ); CHECK( h == m ); dc::for_each_with_pos( a, [&]( U y, size_t k ) { h = h * 31U + y + static_cast<U>( k ); } ); for( size_t k = 0; k < v.n; ++k ) m = m * 31U + v[k] + static_cast<U>( k ); CHECK( h == m ); dc::for_each_subset( a, i, j, [&]( std::vector<U> const &y, size_t k ) { h = h * 7U + y[k]; } ); for( size_t k = i; k < j; ++k ) m = m * 7U + v[k]; CHECK( h == m ); std::vector<U> b( 1, x ); dc::append( a, b ); CHECK( b.size( ) == v.n + 1 and b[0] == x ); for( size_t k = 0; k < v.n; ++k ) CHECK( b[k + 1] == v[k] ); }
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: vectors of n <= N values
ENTRY container_sorting( ) {
	In v( "n" );
	namespace dc = daw::container;
	std::vector<U> a( v.b( ), v.e( ) );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	bool desc = op == 1 or op == 3;
	if( op == 0 ) dc::sort( a ); else if( op == 1 ) dc::sort( a, std::greater<>{ } ); else if( op == 2 ) dc::stable_sort( a ); else dc::stable_sort( a, std::greater<>{ } );
	bool ok = a.size( ) == v.n; U x = sym_u32( "x" ); size_t c = 0, d = 0;
	for( size_t k = 0; k < v.n; ++k ) { c += a[k] == x; d += v[k] == x; if( k ) ok &= desc ? a[k - 1] >= a[k] : a[k - 1] <= a[k]; }
	CHECK( ok and c == d );
	sym_reach( "end" );
}
//@ q:BIG=17 t:BIG=33
//@ bounds: the entries above on BIG and BIG-1 values, few distinct ones of which two are arbitrary
ENTRY big_finding( ) { finding( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_finding_ranges( ) { finding_ranges( ); }
//@ q:BIG=17,ORD=1 t:BIG=33,ORD=1
ENTRY big_bounds( ) { bounds_( ); }
//@ q:BIG=17,ORD=2 t:BIG=33,ORD=2
ENTRY big_bounds_desc( ) { bounds_desc( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_comparing( ) { comparing( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_satisfying( ) { satisfying( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_extremes( ) { extremes( ); }
//@ q:BIG=10 t:BIG=12
ENTRY big_writing( ) { writing( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_folding( ) { folding( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_rearranging( ) { rearranging( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_rearranging2( ) { rearranging2( ); }
//@ q:BIG=17,ORD=1 t:BIG=33,ORD=1
ENTRY big_intersecting( ) { intersecting( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_splitting( ) { splitting( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_stepping( ) { stepping( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_stepping_counts( ) { stepping_counts( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_containers( ) { containers( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_container_sorting( ) { container_sorting( ); }
