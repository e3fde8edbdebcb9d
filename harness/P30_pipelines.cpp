#include "common.h"
#include <daw/daw_pipelines.h>
#include <daw/pipelines/sample.h>
#include <array>
#include <tuple>
#include <vector>
using namespace daw::pipelines;

static constexpr int M = 8; // longest expected output
struct Out {
	int v[640];
	size_t n = 0;
	void add( int x ) { v[n++] = x; }
};
// the range lists exactly the expected values, forwards
template<typename R>
static void same( R &&r, Out const &w ) {
	size_t k = 0;
	auto f = std::begin( r );
	auto const l = std::end( r );
	while( f != l ) {
		CHECK( k < w.n );
		CHECK( static_cast<int>( *f ) == w.v[k] );
		++k;
		++f;
	}
	CHECK( k == w.n );
}
// ranges of ranges: listed flat with -1 after each inner range
template<typename R>
static void same2( R &&r, Out const &w ) {
	size_t k = 0;
	auto f = std::begin( r );
	auto const l = std::end( r );
	while( f != l ) {
		auto in = *f;
		auto a = std::begin( in );
		auto const b = std::end( in );
		while( a != b ) {
			CHECK( k < w.n );
			CHECK( static_cast<int>( *a ) == w.v[k] );
			++k;
			++a;
		}
		CHECK( k < w.n and w.v[k] == -1 );
		++k;
		++f;
	}
	CHECK( k == w.n );
}
// random access positions over [first, first+n) agree with at(k)
template<bool Ordered = true, typename It, typename At>
static void positions( It first, It last, size_t n, At at ) {
	size_t i = sym_pick( "i", 0, static_cast<unsigned>( n ) ), j = sym_pick( "j", 0, static_cast<unsigned>( n ) );
	It a = first, b = first;
	for( size_t k = 0; k < i; ++k ) ++a;
	CHECK( &( b += static_cast<ptrdiff_t>( j ) ) == &b );
	CHECK( ( a == b ) == ( i == j ) and ( a != b ) == ( i != j ) );
	CHECK( b - a == static_cast<ptrdiff_t>( j ) - static_cast<ptrdiff_t>( i ) );
	CHECK( last - first == static_cast<ptrdiff_t>( n ) );
	CHECK( ( a == last ) == ( i == n ) );
	if constexpr( Ordered ) CHECK( ( a < b ) == ( i < j ) and ( a <= b ) == ( i <= j ) and ( a > b ) == ( i > j ) and ( a >= b ) == ( i >= j ) );
	ptrdiff_t d = static_cast<ptrdiff_t>( j ) - static_cast<ptrdiff_t>( i );
	CHECK( a + d == b and b - d == a );
	It c = b;
	CHECK( &( c -= d ) == &c and c == a );
	if( i < n ) {
		CHECK( at( *a, i ) );
		It p = a;
		CHECK( p++ == a and p - a == 1 );
		CHECK( p-- - a == 1 and p == a );
		CHECK( &++p == &p and &--p == &p and p == a );
	}
	if( j < n ) {
		if( d >= 0 ) CHECK( at( a[static_cast<size_t>( d )], j ) );
		CHECK( at( *( a + d ), j ) );
		It const cb = b;
		CHECK( at( *cb, j ) and at( cb[0], j ) );
	}
}
#define INPUT                                                                     \
	size_t n = pick_size( "n", 0, sym_param( "len", 4 ) );                         \
	Arr<int> a( n, "a" );                                                          \
	for( size_t q = 0; q < n; ++q ) sym_assume( a[q] >= 0 and a[q] <= 9 );          \
	range_t<int *> r( a.p, a.p + n )
//@ bounds: <=6 elements, all contents
//@ t:len=6
//@ q:len=6
ENTRY map_it( ) {
	INPUT;
	int k = static_cast<int>( sym_range( "k", 0, 100 ) );
	Out w, p;
	for( size_t i = 0; i < n; ++i ) { w.add( a[i] * 3 + k ); p.add( ( a[i] + 5 ) * 3 + k ); }
	auto fn = [k]( int x ) { return x * 3 + k; };
	same( Map( fn )( r ), w );
	same( pipeline( r, Map( fn ) ), w );
	same( Map( fn, []( int x ) { return x + 5; } )( r ), p );
	CHECK( Map( fn )( 7 ) == 21 + k and Map( fn, []( int x ) { return x + 5; } )( 7 ) == 36 + k );
	auto m = Map( fn )( r );
	positions( m.begin( ), m.end( ), n, [&]( int got, size_t i ) { return got == w.v[i]; } );
	struct S { int x; } s{ 4 };
	S arr[2] = { { 1 }, { 2 } };
	auto ms = Map( []( S q ) { return S{ q.x * 2 }; } )( arr );
	CHECK( ms.begin( )->x == 2 and ( ++ms.begin( ) )->x == 4 );
	Out c;
	for( size_t i = 0; i < n; ++i ) c.add( a[i] < 3 ? 3 : a[i] > 6 ? 6 : a[i] );
	same( Clamp( 3, 6 )( r ), c );
	same( Clamp( 6, 3, std::greater<>{ } )( r ), c );
	CHECK( Clamp( 3, 6 )( 1 ) == 3 and Clamp( 3, 6 )( 9 ) == 6 and Clamp( 3, 6 )( 4 ) == 4 );
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents and thresholds
//@ t:len=6
//@ q:len=6
ENTRY filter_it( ) {
	INPUT;
	int t = static_cast<int>( sym_range( "t", 0, 9 ) );
	Out w, x, o;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] < t ) w.add( a[i] );
		else x.add( a[i] );
		if( a[i] == 2 or a[i] == 5 ) o.add( a[i] );
	}
	auto p = [t]( int v ) { return v < t; };
	auto f = Filter( p )( r );
	same( f, w );
	same( Filter( Not( p ) )( r ), x );
	same( Filter( IsOneOf<2, 5> )( r ), o );
	same( pipeline( Filter( p ), Map( []( int v ) { return v; } ) )( r ), w );
	CHECK( f.good( ) == ( w.n > 0 ) and static_cast<bool>( f ) == ( w.n > 0 ) and not f.end( ).good( ) );
	CHECK( ( f.begin( ) == f.end( ) ) == ( w.n == 0 ) );
	if( w.n ) {
		auto it = f.begin( );
		auto old = it++;
		CHECK( *old == w.v[0] and old == f.begin( ) and it != old );
		CHECK( &*f.begin( ) >= a.p );
	}
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents, counts and thresholds
//@ t:len=6
//@ q:len=6
ENTRY take_skip( ) {
	INPUT;
	size_t k = pick_pos( "k", 0, n + 2 );
	Out tk, sk;
	for( size_t i = 0; i < n; ++i ) ( i < k ? tk : sk ).add( a[i] );
	auto tr = Take( k )( r );
	same( tr, tk );
	same( Skip( k )( r ), sk );
	CHECK( tr.size( ) == tk.n and Skip( k )( r ).size( ) == sk.n );
	positions( tr.begin( ), tr.end( ), tk.n, [&]( int got, size_t i ) { return got == a[i]; } );
	same( pipeline( Skip( 1 ), Take( k ) )( r ), [&] { Out q; for( size_t i = 1; i < n and i <= k; ++i ) q.add( a[i] ); return q; }( ) );
	if( k > 0 ) {
		Out e;
		for( size_t i = 0; i < n; i += k ) e.add( a[i] );
		same( Every( k )( r ), e );
	}
	size_t h = sym<size_t>( "h" );
	sym_assume( h > n );
	Out all;
	for( size_t i = 0; i < n; ++i ) all.add( a[i] );
	same( Take( h )( r ), all );
	CHECK( Take( h )( r ).size( ) == n );
	same( Skip( h )( r ), Out{ } );
	same( Every( h )( r ), [&] { Out q; if( n ) q.add( a[0] ); return q; }( ) );
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents and thresholds
//@ t:len=6
//@ q:len=6
ENTRY prefixes( ) {
	INPUT;
	int t = static_cast<int>( sym_range( "t", 0, 9 ) );
	auto p = [t]( int v ) { return v < t; };
	size_t first_no = 0, first_yes = 0;
	while( first_no < n and a[first_no] < t ) ++first_no;
	while( first_yes < n and not( a[first_yes] < t ) ) ++first_yes;
	Out w1, w2, w3, w4;
	for( size_t i = 0; i < n; ++i ) {
		( i < first_no ? w1 : w2 ).add( a[i] );
		( i < first_yes ? w3 : w4 ).add( a[i] );
	}
	same( TakeWhile( p )( r ), w1 );
	same( DropWhile( p )( r ), w2 );
	same( TakeUntil( p )( r ), w3 );
	same( DropUntil( p )( r ), w4 );
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents, chunk and window sizes
//@ t:len=6
//@ q:len=6
ENTRY chunks( ) {
	INPUT;
	size_t k = pick_pos( "k", 1, n + 2 );
	Out w, s, f;
	for( size_t i = 0; i < n; i += k ) {
		for( size_t j = i; j < n and j < i + k; ++j ) w.add( a[j] );
		w.add( -1 );
	}
	for( size_t i = 0; i + k <= n; ++i ) {
		for( size_t j = i; j < i + k; ++j ) { s.add( a[j] ); f.add( a[j] ); }
		s.add( -1 );
	}
	auto c = Chunk( k )( r );
	same2( c, w );
	same2( Slide( k )( r ), s );
	Out all;
	for( size_t i = 0; i < n; ++i ) all.add( a[i] );
	same( Flatten( c ), all );
	same( pipeline( Slide( k ), Flatten )( r ), f );
	if( n > 0 ) {
		auto it = c.begin( );
		auto old = it++;
		CHECK( old == c.begin( ) and it != old and ( it == c.end( ) ) == ( n <= k ) );
		CHECK( ( *old ).begin( ) == a.p );
	}
	size_t h = sym<size_t>( "h" );
	sym_assume( h > n );
	Out one;
	if( n ) { one = all; one.add( -1 ); }
	same2( Chunk( h )( r ), one );
	same2( Slide( h )( r ), Out{ } );
	sym_reach( "end" );
}
//@ bounds: three inner ranges of 0..2 elements each
ENTRY flatten_ranges( ) {
	size_t n[3];
	Arr<int> a( 6, "a" );
	for( size_t q = 0; q < 6; ++q ) sym_assume( a[q] >= 0 and a[q] <= 9 );
	std::vector<range_t<int *>> v;
	Out w;
	size_t m = sym_pick( "m", 0, 3 );
	for( size_t i = 0; i < m; ++i ) {
		n[i] = sym_pick( "n", 0, 2 );
		v.push_back( range_t<int *>( a.p + 2 * i, a.p + 2 * i + n[i] ) );
		for( size_t j = 0; j < n[i]; ++j ) w.add( a[2 * i + j] );
	}
	same( Flatten( v ), w );
	same( pipeline( v, Flatten ), w );
	auto f = Flatten( v );
	if( w.n ) {
		auto it = f.begin( );
		auto old = it++;
		CHECK( *old == w.v[0] );
		CHECK( old == f.begin( ) and it != old );
	}
	sym_reach( "end" );
}
//@ bounds: <=4 (5) elements of {0..9}, delimiter value, predicate and range of 1..2
//@ q:time=200 t:len=5
//@ q:len=5
ENTRY split_it( ) {
	INPUT;
	int d = static_cast<int>( sym_range( "d", 0, 9 ) ), e = static_cast<int>( sym_range( "e", 0, 9 ) );
	Out w;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] == d ) {
			w.add( -1 );
			continue;
		}
		w.add( a[i] );
		if( i + 1 == n ) w.add( -1 );
	}
	same2( Split( d )( r ), w );
	same2( Split( [d]( int x ) { return x == d; } )( r ), w );
	std::array<int, 2> de{ d, e };
	Out w2;
	for( size_t i = 0; i < n; ) {
		if( i + 1 < n and a[i] == d and a[i + 1] == e ) {
			w2.add( -1 );
			i += 2;
			continue;
		}
		w2.add( a[i] );
		if( i + 1 == n ) w2.add( -1 );
		++i;
	}
	same2( Split( de )( r ), w2 );
	auto s = Split( d )( r );
	auto it = s.begin( );
	CHECK( ( it == s.end( ) ) == ( n == 0 ) );
	if( n ) {
		auto old = it++;
		CHECK( old == s.begin( ) );
		CHECK( ( *old ).begin( ) == a.p );
	}
	sym_reach( "end" );
}
//@ bounds: two ranges of <=3 elements
ENTRY zip_concat( ) {
	size_t n = sym_pick( "n", 0, 3 ), m = sym_pick( "m", 0, 3 );
	Arr<int> a( n, "a" ), b( m, "b" );
	for( size_t i = 0; i < n; ++i ) sym_assume( a[i] >= 0 and a[i] <= 99 );
	for( size_t i = 0; i < m; ++i ) sym_assume( b[i] >= 0 and b[i] <= 99 );
	range_t<int *> r( a.p, a.p + n ), s( b.p, b.p + m );
	size_t k = n < m ? n : m;
	Out w, d, x, y;
	for( size_t i = 0; i < k; ++i ) { w.add( a[i] * 100 + b[i] ); d.add( b[i] - a[i] ); x.add( a[i] ); y.add( b[i] ); }
	auto f = []( int p, int q ) { return p * 100 + q; };
	auto z = Zip( r, s );
	same( MapApply( f )( z ), w );
	same( pipeline( Zip, MapApply( f ) )( r, s ), w );
	same( pipeline( ZipMore( r ), MapApply( f ) )( s ), w );
	same( MapApply( f )( zip_view( r, s ) ), w );
	same( MapApply( []( int p, int q ) { return p - q; } )( Swizzle<1, 0>( z ) ), d );
	same( Element<0>( z ), x );
	same( Element<1>( z ), y );
	auto es = Elements<1, 0>( z );
	size_t g = 0;
	for( auto q = es.begin( ); q != es.end( ); ++q, ++g ) CHECK( std::get<0>( *q ) == b[g] and std::get<1>( *q ) == a[g] );
	CHECK( g == k );
	if( n == m ) {
		auto at2 = [&]( auto const &v, size_t i ) { return std::get<0>( v ) == a[i] and std::get<1>( v ) == b[i]; };
		positions( z.begin( ), z.end( ), n, at2 );
		sym_reach( "zip" );
	}
	Out cat;
	for( size_t i = 0; i < n; ++i ) cat.add( a[i] );
	for( size_t i = 0; i < m; ++i ) cat.add( b[i] );
	same( concat_view( r, s ), cat );
	for( size_t i = 0; i < n; ++i ) cat.add( a[i] );
	same( concat_view( r, s, r ), cat );
	if( n == m ) {
		Out c2;
		for( size_t i = 0; i < n; ++i ) c2.add( a[i] );
		for( size_t i = 0; i < m; ++i ) c2.add( b[i] );
		same( Concat( z ), c2 );
	}
	if( n + m ) {
		auto c = concat_view( r, s );
		auto it = c.begin( );
		auto old = it++;
		CHECK( *old == cat.v[0] and old == c.begin( ) and it != old );
	}
	sym_reach( "end" );
}
//@ bounds: three ranges of equal length <=3
ENTRY zip_three( ) {
	size_t n = sym_pick( "n", 0, 3 );
	Arr<int> a( n, "a" ), b( n, "b" ), c( n, "c" );
	range_t<int *> r( a.p, a.p + n ), s( b.p, b.p + n ), t( c.p, c.p + n );
	auto z = Zip( r, s, t );
	positions( z.begin( ), z.end( ), n, [&]( auto const &v, size_t i ) { return std::get<0>( v ) == a[i] and std::get<1>( v ) == b[i] and std::get<2>( v ) == c[i]; } );
	auto e = Element<2>( z );
	positions<false>( e.begin( ), e.end( ), n, [&]( int v, size_t i ) { return v == c[i]; } );
	auto e2 = Elements<2, 0>( z );
	positions<false>( e2.begin( ), e2.end( ), n, [&]( auto const &v, size_t i ) { return std::get<0>( v ) == c[i] and std::get<1>( v ) == a[i]; } );
	auto m = ZipMore( t )( zip_view( r, s ) );
	size_t g = 0;
	for( auto q = m.begin( ); q != m.end( ); ++q, ++g ) CHECK( std::get<0>( *q ) == c[g] and std::get<1>( *q ) == a[g] and std::get<2>( *q ) == b[g] );
	CHECK( g == n );
	if( n ) {
		std::get<1>( *z.begin( ) ) = 77;
		CHECK( b[0] == 77 );
	}
	sym_reach( "end" );
}
//@ bounds: <=6 elements, offsets up to 100
//@ t:len=6
//@ q:len=6
ENTRY enumerate_it( ) {
	INPUT;
	size_t o = sym_range( "o", 0, 100 );
	auto chk = [&]( auto &&z, size_t off ) {
		size_t g = 0;
		for( auto q = z.begin( ); q != z.end( ); ++q, ++g ) CHECK( static_cast<size_t>( std::get<0>( *q ) ) == g + off and std::get<1>( *q ) == a[g] );
		CHECK( g == n );
	};
	chk( Enumerate( r ), 0 );
	chk( EnumerateWith<int>( r ), 0 );
	chk( EnumerateFrom( o )( r ), o );
	sym_reach( "end" );
}
//@ bounds: all bounds of a 32 bit sequence of <=4 numbers, and of unsigned characters
ENTRY iota_it( ) {
	int f = static_cast<int>( sym_range( "f", -100, 100 ) );
	size_t n = sym_pick( "n", 0, 4 );
	iota_view<int> v( f, f + static_cast<int>( n ) );
	positions( v.begin( ), v.end( ), n, [&]( int got, size_t i ) { return got == f + static_cast<int>( i ); } );
	Out w;
	for( size_t i = 0; i < n; ++i ) w.add( static_cast<int>( i ) );
	same( iota_view( static_cast<size_t>( n ) ), w );
	same( ToIota( static_cast<int>( n ) ), w );
	auto u = iota_view<unsigned char>( 250, static_cast<unsigned char>( 250 + n ) );
	positions( u.begin( ), u.end( ), n, [&]( unsigned char got, size_t i ) { return got == 250 + i; } );
	sym_reach( "end" );
}
//@ bounds: <=4 (6) elements, all contents
//@ t:len=5
ENTRY reduce( ) {
	INPUT;
	int t = static_cast<int>( sym_range( "t", 0, 9 ) );
	int sum = 0;
	size_t lo = 0, hi = 0, lastmax = 0, cnt = 0;
	bool has = false, near = false;
	for( size_t i = 0; i < n; ++i ) {
		sum += a[i];
		if( a[i] < a[lo] ) lo = i;
		if( a[i] > a[hi] ) hi = i;
		if( a[i] >= a[lastmax] ) lastmax = i;
		if( a[i] < t ) ++cnt;
		has = has or a[i] == t;
		near = near or a[i] - 1 == t;
	}
	CHECK( Sum( r ) == sum and Count( r ) == n and CountIf( [t]( int x ) { return x < t; } )( r ) == cnt );
	CHECK( Count( Filter( [t]( int x ) { return x < t; } )( r ) ) == cnt and Count( 5 ) == 1 );
	CHECK( Contains( t )( r ) == has );
	CHECK( Contains( t, []( int x, int y ) { return x == y + 1; } )( r ) == near );
	CHECK( Contains( t, std::equal_to<>{ }, []( int x ) { return x - 1; } )( r ) == near );
	auto mn = Min( r );
	auto mx = Max( r );
	auto [a0, a1] = MinMax( r );
	if( n == 0 ) CHECK( mn == a.end( ) and mx == a.end( ) and a0 == a.end( ) and a1 == a.end( ) );
	else {
		CHECK( mn == a.p + lo and mx == a.p + hi and a0 == a.p + lo and a1 == a.p + lastmax );
	}
	sym_reach( "end" );
}
//@ bounds: <=3 elements, own comparison and projection
ENTRY reduce_custom( ) {
	size_t n = sym_pick( "n", 0, 3 );
	Arr<int> a( n, "a" );
	for( size_t q = 0; q < n; ++q ) sym_assume( a[q] >= 0 and a[q] <= 9 );
	range_t<int *> r( a.p, a.p + n );
	auto neg = []( int x ) { return -x; };
	size_t lo = 0, hi = 0, lasthi = 0, lastlo = 0;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] < a[lo] ) lo = i;
		if( a[i] > a[hi] ) hi = i;
		if( a[i] >= a[lasthi] ) lasthi = i;
		if( a[i] <= a[lastlo] ) lastlo = i;
	}
	using G = std::greater<>;
	CHECK( Min( G{ } )( r ) == a.p + hi and Max( G{ } )( r ) == a.p + lo );
	CHECK( Min( std::less<>{ }, neg )( r ) == a.p + hi and Max( std::less<>{ }, neg )( r ) == a.p + lo );
	auto [p, q] = MinMax( G{ } )( r );
	CHECK( p == a.p + hi and q == a.p + lastlo );
	auto [p2, q2] = MinMax( std::less<>{ }, neg )( r );
	CHECK( p2 == a.p + hi and q2 == a.p + lastlo );
	Arr<int> b( n, "b" );
	for( size_t i = 0; i < n; ++i ) b[i] = a[i];
	Sort( range_t<int *>( a.p, a.p + n ) );
	for( size_t i = 0; i + 1 < n; ++i ) CHECK( a[i] <= a[i + 1] );
	Sort( G{ } )( r );
	for( size_t i = 0; i + 1 < n; ++i ) CHECK( a[i] >= a[i + 1] );
	int probe = static_cast<int>( sym_range( "probe", 0, 9 ) ), ca = 0, cb = 0;
	for( size_t i = 0; i < n; ++i ) { ca += a[i] == probe; cb += b[i] == probe; }
	CHECK( ca == cb );
	sym_reach( "end" );
}
//@ bounds: <=5 (6) elements, all contents
//@ t:len=6
//@ q:len=5
ENTRY find_it( ) {
	INPUT;
	int t = static_cast<int>( sym_range( "t", 0, 9 ) );
	size_t i = 0, j = 0, k = 0, h = 0;
	while( i < n and a[i] != t ) ++i;
	while( j < n and not( a[j] < t ) ) ++j;
	while( k < n and not( k + 1 < n and a[k] == a[k + 1] ) ) ++k;
	while( h < n and not( h + 2 < n and a[h] + a[h + 1] + a[h + 2] == t ) ) ++h;
	auto lt = [t]( int x ) { return x < t; };
	auto eq = []( int x, int y ) { return x == y; };
	CHECK( Find( r, t ) == a.p + i and Find( t )( r ) == a.p + i );
	CHECK( FindIf( r, lt ) == a.p + j and FindIf( lt )( r ) == a.p + j );
	CHECK( FindIf<2>( r, eq ) == a.p + k and FindIf<2>( eq )( r ) == a.p + k );
	CHECK( FindIf<3>( r, [t]( int x, int y, int z ) { return x + y + z == t; } ) == a.p + h );
	auto pr = []( int x ) { return x + 1; };
	size_t pi = 0, pj = 0;
	while( pi < n and a[pi] + 1 != t ) ++pi;
	while( pj < n and not( a[pj] + 1 < t ) ) ++pj;
	CHECK( Find( r, t, pr ) == a.p + pi and Find( t, pr )( r ) == a.p + pi );
	CHECK( FindIf( r, lt, pr ) == a.p + pj and FindIf( lt, pr )( r ) == a.p + pj );
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents
//@ t:len=6
//@ q:len=6
ENTRY conversions( ) {
	INPUT;
	Out w, rev, u;
	for( size_t i = 0; i < n; ++i ) {
		w.add( a[i] );
		rev.add( a[n - 1 - i] );
		if( i == 0 or a[i] != a[i - 1] ) u.add( a[i] );
	}
	std::vector<int> v = To<std::vector>( )( r );
	same( v, w );
	same( To<std::vector<long>>( )( r ), w );
	auto ar = To<std::array<int, 3>>( )( r );
	auto ad = To<std::array<int, 3>, 42>( )( r );
	for( size_t i = 0; i < 3; ++i ) {
		CHECK( ar[i] == ( i < n ? a[i] : 0 ) );
		CHECK( ad[i] == ( i < n ? a[i] : 42 ) );
	}
	same( Reverse( r ), rev );
	same( pipeline( Reverse, Reverse )( r ), w );
	same( pipeline( Reverse, Take( 2 ) )( r ), [&] { Out q; for( size_t i = 0; i < 2 and i < n; ++i ) q.add( rev.v[i] ); return q; }( ) );
	same( pipeline( r, To<std::vector>, Unique ), u );
	same( Unique( To<std::vector>( )( r ) ), u );
	same( unique_view( a.begin( ), a.end( ) ), u );
	auto f = First( )( r );
	auto fr = FirstRef( )( r );
	CHECK( f.has_value( ) == ( n > 0 ) and fr.has_value( ) == ( n > 0 ) );
	if( n ) {
		CHECK( *f == a[0] and &fr->get( ) == a.p );
	}
	auto cp = Copy( )( v );
	CHECK( cp == v );
	if( n ) {
		cp[0] = -5;
		CHECK( v[0] == a[0] );
	}
	CHECK( To<std::vector>( )( 5 ).size( ) == 1 and To<std::vector<int>>( )( 5 )[0] == 5 and To<std::array<int, 2>>( )( 6 )[0] == 6 );
	sym_reach( "end" );
}
//@ bounds: <=6 elements, all contents
//@ t:len=6
//@ q:len=6
ENTRY side_effects( ) {
	INPUT;
	int calls = 0;
	Out seen, w;
	for( size_t i = 0; i < n; ++i ) w.add( a[i] );
	auto back = ForEach( [&]( int x ) { seen.add( x ); } )( r );
	same( back, w );
	CHECK( seen.n == n );
	for( size_t i = 0; i < n; ++i ) CHECK( seen.v[i] == a[i] );
	size_t g = 0;
	(void)ForEachApply( [&]( int x, int y ) { CHECK( x == a[g] and y == a[g] ); ++g; } )( Zip( r, r ) );
	CHECK( g == n );
	seen.n = 0;
	(void)ForEachIndexed( [&]( int x ) { seen.add( x ); } )( r );
	CHECK( seen.n == n );
	for( size_t i = 0; i < n; ++i ) CHECK( seen.v[i] == a[i] );
	auto m = Map( [&]( int x ) { ++calls; return x + 1; } )( r );
	auto cl = CacheLast( m );
	auto it = cl.begin( );
	size_t k = 0;
	while( it != cl.end( ) ) {
		CHECK( *it == a[k] + 1 and *it == a[k] + 1 );
		++k;
		CHECK( calls == static_cast<int>( k ) );
		if( k & 1 ) ++it;
		else it++;
	}
	CHECK( k == n );
	if( n > 1 ) {
		--it;
		CHECK( *it == a[n - 1] + 1 );
		auto o = it--;
		CHECK( *it == a[n - 2] + 1 and *o == a[n - 1] + 1 );
	}
	int c = 3;
	auto gen = generate_n( n, [&] { return c++; } );
	k = 0;
	for( auto q = gen.begin( ); q != gen.end( ); ++q, ++k ) CHECK( *q == static_cast<int>( 3 + k ) );
	CHECK( k == n );
	int val = 9;
	maybe_view<int> mv( val ), none;
	CHECK( mv.begin( ) == &val and mv.end( ) - mv.begin( ) == 1 and none.begin( ) == none.end( ) );
	sym_reach( "end" );
}
//@ bounds: <=4 elements, range objects compared and stepped
ENTRY range_object( ) {
	INPUT;
	range_t q( a.begin( ), a.end( ) );
	CHECK( q.size( ) == n and q.begin( ) == a.p and q.end( ) == a.p + n and q.data( ) == a.p and q.data_end( ) == a.p + n and q.cbegin( ) == a.p and q.cend( ) == a.p + n );
	range_t from( r );
	CHECK( from.begin( ) == a.p and from.end( ) == a.p + n );
	if( n > 1 ) {
		size_t i = sym_pick( "i", 0, static_cast<unsigned>( n - 1 ) );
		CHECK( &q[static_cast<ptrdiff_t>( i )] == a.p + i and &*q == a.p );
		auto o = q;
		CHECK( o == q and not( o != q ) );
		++q;
		CHECK( &*q == a.p + 1 and q.size( ) == n - 1 and q != o and o < q );
		CHECK( q - o == 1 );
		auto p = q--;
		CHECK( q == o and p != o );
		p = q++;
		CHECK( p == o and q.begin( ) == a.p + 1 );
		CHECK( --q == o );
	}
	auto [fb, fe] = pipeline( r, Map( []( int v ) { return v + 1; } ) );
	CHECK( fe - fb == static_cast<ptrdiff_t>( n ) and ( n == 0 or *fb == a[0] + 1 ) );
	sym_reach( "end" );
}
//@ bounds: all composition of two stages over <=4 elements
ENTRY compose( ) {
	INPUT;
	int t = static_cast<int>( sym_range( "t", 0, 9 ) );
	auto lt = [t]( int x ) { return x < t; };
	auto dbl = []( int x ) { return x * 2; };
	Out w, x;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] < t ) w.add( a[i] * 2 );
		if( a[i] * 2 < t ) x.add( a[i] * 2 );
	}
	same( pipeline( r, Filter( lt ), Map( dbl ) ), w );
	same( pipeline( Filter( lt ), Map( dbl ) )( r ), w );
	same( pipeline( pipeline( Filter( lt ) ), Map( dbl ) )( r ), w );
	same( pipeline( r, Map( dbl ), Filter( lt ) ), x );
	int s = 0;
	for( size_t i = 0; i < x.n; ++i ) s += x.v[i];
	CHECK( pipeline( r, Map( dbl ), Filter( lt ), Sum ) == s and pipeline( Map( dbl ), Filter( lt ), Count )( r ) == x.n );
	same( pipeline( r, Filter( lt ), Map( dbl ), To<std::vector> ), w );
	int c[3] = { a.n > 0 ? a[0] : 1, 2, 3 };
	same( pipeline( c, Map( dbl ) ), [&] { Out q; for( int v : c ) q.add( v * 2 ); return q; }( ) );
	char const txt[4] = "abc";
	CHECK( pipeline( txt, Count ) == 3 );
	sym_reach( "end" );
}
template<typename R>
static void compensated_( int shift ) {
	size_t n = sym_pick( "n", 0, sym_param( "len", 3 ) );
	Arr<R> a( n, "raw" );
	int64_t total = 0;
	for( size_t i = 0; i < n; ++i ) {
		int64_t const how = sym_pick( "how", 0, 2 );
		int64_t const v = how == 0 ? static_cast<int64_t>( sym_range( "small", 0, 3 ) ) - 1 : how == 1 ? int64_t{ 1 } << shift : -( int64_t{ 1 } << shift );
		total += v;
		a[i] = static_cast<R>( v );
	}
	range_t<R *> r( a.p, a.p + n );
	CHECK( SumKahanBabushkaNeumaier( r ) == static_cast<R>( total ) );
	CHECK( SumKahanBabushkaNeumaier( []( R x ) { return -x; } )( r ) == static_cast<R>( -total ) );
	sym_reach( "end" );
}
//@ bounds: <=3 elements, each a small whole number or a power of two far above the precision left
//@ q:len=3 t:len=3
ENTRY compensated_float( ) { compensated_<float>( 25 ); }
//@ bounds: <=3 elements, each a small whole number or a power of two far above the precision left
//@ q:len=2 t:len=3
ENTRY compensated_double( ) { compensated_<double>( 55 ); }
struct Draws { using result_type = size_t; size_t const *p; size_t k = 0; size_t next( ) { return p[k++]; } };
struct Dist { using result_type = size_t; size_t lo, hi; Dist( size_t a, size_t b ) : lo( a ), hi( b ) {} size_t operator( )( Draws &e ) { size_t v = e.next( ); return lo + v % ( hi - lo + 1 ); } };
//@ bounds: <=4 elements, all draws of an own engine and distribution, every share to keep out of <=5
//@ q:len=3 t:len=4
ENTRY sampling( ) {
	INPUT;
	Arr<size_t> d( n + 2, "d" );
	size_t of = sym_pick( "of", 1, 5 ), keep = sym_pick( "keep", 0, 6 );
	for( size_t i = 0; i < n + 2; ++i ) sym_assume( d[i] < of );
	if( keep >= of ) sym_expect_terminate( true );
	auto v = Sample<Dist>( keep, of, Draws{ d.p } )( r );
	if( keep >= of ) sym_assert( false, "impossible share accepted" );
	size_t i = 0;
	size_t draw = 0;
	for( auto &&x : v ) {
		while( i < n and d[draw] + 1 > keep ) { ++i; ++draw; }
		CHECK( i < n and x == a[i] );
		++i; ++draw;
	}
	while( i < n and d[draw] + 1 > keep ) { ++i; ++draw; }
	CHECK( i == n );
	sym_reach( "end" );
}
//@ bounds: the entries above on BIG and BIG-1 elements, few distinct ones of which two are arbitrary
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_map_it( ) { map_it( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_filter_it( ) { filter_it( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_take_skip( ) { take_skip( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_prefixes( ) { prefixes( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_chunks( ) { chunks( ); }
//@ q:BIG=10,ORD=4 t:BIG=12,ORD=4
ENTRY big_split_it( ) { split_it( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_enumerate_it( ) { enumerate_it( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_find_it( ) { find_it( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_conversions( ) { conversions( ); }
//@ q:BIG=17,ORD=4 t:BIG=33,ORD=4
ENTRY big_side_effects( ) { side_effects( ); }
