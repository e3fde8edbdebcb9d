//! variant: char
//! variant: char16 -DCH=char16_t
//! variant: sized -DBOUNDS=daw::sv1::StringViewBoundsSize
#include "common.h"
#include <daw/deprecated/daw_string_view1.h>
#include <string>
#ifndef CH
#define CH char
#endif
#ifndef BOUNDS
#define BOUNDS daw::sv1::StringViewBoundsPointer
#endif
using C = CH;
using SV = daw::sv1::basic_string_view<C, BOUNDS>;
using Str = std::basic_string<C>;

template<typename F>
size_t first_pos( size_t lo, size_t hi, F f ) {
	size_t r = NPOS;
	for( size_t i = hi; i > lo; --i ) r = sel<size_t>( f( i - 1 ), i - 1, r );
	return r;
}
template<typename F>
size_t last_pos( size_t lo, size_t hi, F f ) {
	size_t r = NPOS;
	for( size_t i = lo; i < hi; ++i ) r = sel<size_t>( f( i ), i, r );
	return r;
}
bool in_set( Arr<C> &s, C c ) {
	bool r = false;
	for( size_t i = 0; i < s.n; ++i ) r |= s[i] == c;
	return r;
}
bool eq_at( Arr<C> &h, size_t i, Arr<C> &n ) {
	if( i + n.n > h.n ) return false;
	bool r = true;
	for( size_t k = 0; k < n.n; ++k ) r &= h[i + k] == n[k];
	return r;
}
struct In {
	Arr<C> h, n;
	In( size_t mh, size_t mn ) : h( pick_size( "hay_len", 0, sym_param( "H", mh ) ), "hay" ), n( pick_needle( "needle_len", 0, sym_param( "N", mn ) ), "needle" ) {}
	SV hv( ) { return SV( h.p, h.n ); }
	SV nv( ) { return SV( n.p, n.n ); }
};
// a zero terminated copy of the needle (contents without zeros assumed)
struct Z {
	C *p;
	explicit Z( Arr<C> &a ) : p( static_cast<C *>( std::malloc( ( a.n + 1 ) * sizeof( C ) ) ) ) {
		for( size_t i = 0; i < a.n; ++i ) { sym_assume( a[i] != 0 ); p[i] = a[i]; }
		p[a.n] = 0;
	}
	~Z( ) { std::free( p ); }
};

//@ bounds: every text of length 0..5 (thorough 0..5), needle 0..3 (0..3), any characters, start 0..length
//@ q:H=5 q:N=3 t:H=5 t:N=3
ENTRY find_text( ) {
	In x( 3, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto f = [&]( size_t i ) { return eq_at( x.h, i, x.n ); };
	size_t want = first_pos( pos, x.h.n + 1, f );
	CHECK( x.hv( ).find( x.nv( ), pos ) == want );
	CHECK( x.hv( ).find( x.n.p, pos, x.n.n ) == want );
	if( pos == 0 ) CHECK( x.hv( ).find( x.nv( ) ) == want );
	auto hi = pos < x.h.n ? pos + 1 : x.h.n + 1;
	CHECK( x.hv( ).rfind( x.nv( ), pos ) == last_pos( 0, pos + 1, f ) );
	CHECK( x.hv( ).rfind( x.n.p, pos, x.n.n ) == last_pos( 0, hi, f ) );
	if( pos == 0 ) CHECK( x.hv( ).rfind( x.nv( ) ) == last_pos( 0, x.h.n + 1, f ) );
	if( x.n.n > 0 ) {
		CHECK( x.hv( ).search( x.nv( ), pos ) == first_pos( pos, x.h.n, f ) );
		CHECK( x.hv( ).search_last( x.nv( ), pos ) == last_pos( pos, x.h.n, f ) );
	}
	sym_reach( "find_text" );
}
//@ q:H=4 q:N=2 t:H=4 t:N=2
//@ bounds: the overloads that take zero terminated text
ENTRY find_terminated( ) {
	In x( 3, 2 );
	Z z( x.n );
	C const *s = z.p;
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto f = [&]( size_t i ) { return eq_at( x.h, i, x.n ); };
	CHECK( x.hv( ).find( s, pos ) == first_pos( pos, x.h.n + 1, f ) );
	CHECK( x.hv( ).rfind( s, pos ) == last_pos( 0, pos + 1, f ) );
	CHECK( x.hv( ).find_first_of( s, pos ) == first_pos( pos, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).find_first_not_of( s, pos ) == first_pos( pos, x.h.n, [&]( size_t i ) { return not in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).find_last_of( s, pos ) == last_pos( 0, pos < x.h.n ? pos + 1 : x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).find_last_of( s ) == last_pos( 0, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	CHECK( x.hv( ).starts_with( s ) == eq_at( x.h, 0, x.n ) );
	CHECK( x.hv( ).ends_with( s ) == ( x.n.n <= x.h.n and eq_at( x.h, x.h.n - x.n.n, x.n ) ) );
	if( x.n.n > 0 ) {
		CHECK( x.hv( ).search( s, pos ) == first_pos( pos, x.h.n, f ) );
		CHECK( x.hv( ).search_last( s, pos ) == last_pos( pos, x.h.n, f ) );
	}
	CHECK( SV( s ).size( ) == x.n.n and SV( s ).data( ) == s );
	sym_reach( "find_terminated" );
}
//@ q:H=4 q:N=3 t:H=4 t:N=3
//@ bounds: start positions beyond the end of the view
ENTRY find_past_end( ) {
	In x( 2, 2 );
	size_t pos = sym<size_t>( "pos" );
	sym_assume( pos > x.h.n );
	CHECK( x.hv( ).find( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).search( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).search_last( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_of( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_not_of( x.nv( ), pos ) == NPOS );
	CHECK( x.hv( ).find_first_of_if( []( C ) { return true; }, pos ) == NPOS );
	CHECK( x.hv( ).find_first_not_of_if( []( C ) { return false; }, pos ) == NPOS );
	CHECK( x.hv( ).rfind( x.nv( ), pos ) == last_pos( 0, x.h.n + 1, [&]( size_t i ) { return eq_at( x.h, i, x.n ); } ) );
	CHECK( x.hv( ).find_last_of( x.nv( ), pos ) == last_pos( 0, x.h.n, [&]( size_t i ) { return in_set( x.n, x.h[i] ); } ) );
	sym_reach( "find_past_end" );
}
//@ q:H=6 t:H=6
ENTRY find_char( ) {
	In x( 3, 0 );
	C c = sym<C>( "c" );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto eq = [&]( size_t i ) { return x.h[i] == c; };
	auto ne = [&]( size_t i ) { return x.h[i] != c; };
	auto is = [&]( C d ) { return d == c; };
	auto want = first_pos( pos, x.h.n, eq );
	CHECK( x.hv( ).find( c, pos ) == want );
	CHECK( x.hv( ).find_first_of( c, pos ) == want );
	CHECK( x.hv( ).find_first_of_if( is, pos ) == want );
	CHECK( x.hv( ).find_first_not_of( c, pos ) == first_pos( pos, x.h.n, ne ) );
	CHECK( x.hv( ).find_first_not_of_if( is, pos ) == first_pos( pos, x.h.n, ne ) );
	auto hi = pos < x.h.n ? pos + 1 : x.h.n;
	CHECK( x.hv( ).rfind( c, pos ) == last_pos( 0, hi, eq ) );
	CHECK( x.hv( ).find_last_of( c, pos ) == last_pos( 0, hi, eq ) );
	CHECK( x.hv( ).find_last_of_if( is, pos ) == last_pos( 0, hi, eq ) );
	if( pos == 0 ) {
		CHECK( x.hv( ).rfind( c ) == last_pos( 0, x.h.n, eq ) );
		CHECK( x.hv( ).find_last_of( c ) == last_pos( 0, x.h.n, eq ) );
		CHECK( x.hv( ).find_last_of_if( is ) == last_pos( 0, x.h.n, eq ) );
		CHECK( x.hv( ).starts_with( c ) == ( x.h.n > 0 and x.h[0] == c ) );
		CHECK( x.hv( ).ends_with( c ) == ( x.h.n > 0 and x.h[x.h.n - 1] == c ) );
	}
	sym_reach( "find_char" );
}
//@ q:H=5 q:N=3 t:H=5 t:N=3
ENTRY find_of_set( ) {
	In x( 3, 2 );
	size_t pos = pick_pos( "pos", 0, x.h.n );
	auto in = [&]( size_t i ) { return in_set( x.n, x.h[i] ); };
	auto out = [&]( size_t i ) { return not in_set( x.n, x.h[i] ); };
	CHECK( x.hv( ).find_first_of( x.nv( ), pos ) == first_pos( pos, x.h.n, in ) );
	CHECK( x.hv( ).find_first_of( x.n.p, pos, x.n.n ) == first_pos( pos, x.h.n, in ) );
	CHECK( x.hv( ).find_first_not_of( x.nv( ), pos ) == first_pos( pos, x.h.n, out ) );
	CHECK( x.hv( ).find_first_not_of( x.n.p, pos, x.n.n ) == first_pos( pos, x.h.n, out ) );
	auto hi = pos < x.h.n ? pos + 1 : x.h.n;
	CHECK( x.hv( ).find_last_of( x.nv( ), pos ) == last_pos( 0, hi, in ) );
	CHECK( x.hv( ).find_last_of( x.n.p, pos, x.n.n ) == last_pos( 0, hi, in ) );
	if( pos == 0 ) {
		CHECK( x.hv( ).find_last_of( x.nv( ) ) == last_pos( 0, x.h.n, in ) );
		CHECK( x.hv( ).starts_with( x.nv( ) ) == eq_at( x.h, 0, x.n ) );
		CHECK( x.hv( ).ends_with( x.nv( ) ) == ( x.n.n <= x.h.n and eq_at( x.h, x.h.n - x.n.n, x.n ) ) );
	}
	sym_reach( "find_of_set" );
}
void is( Arr<C> &t, SV s, size_t a, size_t b ) {
	CHECK( s.size( ) == b - a and s.length( ) == b - a );
	CHECK( s.data( ) == t.p + a and s.begin( ) == t.p + a and s.cbegin( ) == t.p + a );
	CHECK( s.end( ) == t.p + b and s.cend( ) == t.p + b and s.data_end( ) == t.p + b );
	CHECK( s.empty( ) == ( a == b ) and static_cast<bool>( s ) == ( a != b ) );
}
//@ q:L=6 t:L=6
//@ bounds: views of 0..6 (0..6) characters, any position and count (all 64 bit values)
ENTRY counted( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 3 ) ), "text" );
	SV const v( t.p, t.n );
	is( t, v, 0, t.n );
	is( t, SV( t.p, t.p + t.n ), 0, t.n );
	is( t, daw::sv1::make_string_view_it<C, BOUNDS>( t.p, t.p + t.n ), 0, t.n );
	size_t k = sym<size_t>( "count" );
	size_t m = k < t.n ? sym_concrete( k ) : t.n;
	{ SV a = v; a.remove_prefix( k ); is( t, a, m, t.n ); }
	{ SV a = v; a.remove_suffix( k ); is( t, a, 0, t.n - m ); }
	{ SV a = v; is( t, a.pop_front( k ), 0, m ); is( t, a, m, t.n ); }
	{ SV a = v; is( t, a.pop_back( k ), t.n - m, t.n ); is( t, a, 0, t.n - m ); }
	is( t, SV( v, k ), 0, m );
	if( k < t.n ) {
		SV a = v; a.resize( k ); is( t, a, 0, m );
		CHECK( &v[k] == t.p + m and &v.at( k ) == t.p + m );
	} else {
		CHECK( throws_as<std::out_of_range>( [&] { (void)v.at( k ); } ) );
	}
	if( k > t.n ) {
		CHECK( throws_as<std::out_of_range>( [&] { (void)v.substr( k, 1 ); } ) );
		C one[1];
		CHECK( throws_as<std::out_of_range>( [&] { (void)v.copy( one, 1, k ); } ) );
	} else {
		size_t cnt = sym<size_t>( "n" );
		size_t e = cnt < t.n - m ? sym_concrete( cnt ) : t.n - m;
		is( t, v.substr( k, cnt ), m, m + e );
		is( t, v.substr( k ), m, t.n );
		C buf[80];
		for( auto &c : buf ) c = C( 0x5a );
		CHECK( v.copy( buf, cnt < 80 ? cnt : 80, m ) == e );
		for( size_t i = 0; i < 80; ++i ) CHECK( buf[i] == ( i < e ? t.p[m + i] : C( 0x5a ) ) );
	}
	is( t, v.substr( ), 0, t.n );
	{ SV a = v; a.remove_prefix( ); is( t, a, t.n ? 1 : 0, t.n ); }
	{ SV a = v; a.remove_suffix( ); is( t, a, 0, t.n ? t.n - 1 : 0 ); }
	if( t.n ) {
		SV a = v; CHECK( a.pop_front( ) == t[0] ); is( t, a, 1, t.n );
		SV b = v; CHECK( b.pop_back( ) == t[t.n - 1] ); is( t, b, 0, t.n - 1 );
		CHECK( v.front( ) == t[0] and v.back( ) == t[t.n - 1] );
		CHECK( *v.rbegin( ) == t[t.n - 1] and *v.crbegin( ) == t[t.n - 1] );
	}
	CHECK( v.rend( ) - v.rbegin( ) == static_cast<ptrdiff_t>( t.n ) and v.crend( ) - v.crbegin( ) == static_cast<ptrdiff_t>( t.n ) );
	{ SV a = v, b; a.swap( b ); is( t, b, 0, t.n ); CHECK( a.empty( ) ); using std::swap; swap( a, b ); is( t, a, 0, t.n ); CHECK( b.empty( ) ); }
	{ SV a = v; a.clear( ); CHECK( a.empty( ) and a.size( ) == 0 ); }
	CHECK( SV( nullptr ).empty( ) and SV( nullptr, 3 ).empty( ) and SV( ).empty( ) );
	sym_reach( "counted" );
}
//@ q:L=5 q:D=3 t:L=5 t:D=3
//@ bounds: splitting a text of 0..5 (0..5) characters at a delimiter string of 1..3 (1..3) characters or a predicate
ENTRY split_off( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 3 ) ), "text" );
	Arr<C> d( sym_pick( "delim_len", 1, sym_param( "D", 2 ) ), "delim" );
	SV const v( t.p, t.n );
	SV w( d.p, d.n );
	size_t f = NPOS, l = NPOS, cf = NPOS, cl = NPOS;
	for( size_t i = 0; i < t.n; ++i ) {
		if( eq_at( t, i, d ) ) { if( f == NPOS ) f = i; l = i; }
		if( t[i] == d[0] ) { if( cf == NPOS ) cf = i; cl = i; }
	}
	size_t fe = f == NPOS ? t.n : f, fa = f == NPOS ? t.n : f + d.n;
	{ SV a = v; is( t, a.pop_front( w ), 0, fe ); is( t, a, fa, t.n ); }
	{ SV a = v; SV &r = a.consume_front( w ); CHECK( &r == &a ); is( t, a, fa, t.n ); }
	{ SV a = v; SV r = a.pop_back( w ); if( f == NPOS ) { is( t, r, 0, t.n ); CHECK( a.empty( ) ); } else { is( t, r, l + d.n, t.n ); is( t, a, 0, l ); } }
	{ SV a = v; SV r = a.try_pop_front( w ); if( f == NPOS ) { CHECK( r.empty( ) ); is( t, a, 0, t.n ); } else { is( t, r, 0, f ); is( t, a, f + d.n, t.n ); } }
	{ SV a = v; SV r = a.try_pop_back( w ); if( f == NPOS ) { CHECK( r.empty( ) ); is( t, a, 0, t.n ); } else { is( t, r, l + d.n, t.n ); is( t, a, 0, l ); } }
	if( d.n == 1 ) {
		auto p = [&]( C c ) { return c == d[0]; };
		{ SV a = v; is( t, a.pop_front( p ), 0, cf == NPOS ? t.n : cf ); is( t, a, cf == NPOS ? t.n : cf + 1, t.n ); }
		{ SV a = v; SV r = a.pop_back( p ); if( cf == NPOS ) { is( t, r, 0, t.n ); CHECK( a.empty( ) ); } else { is( t, r, cl + 1, t.n ); is( t, a, 0, cl ); } }
	}
	sym_reach( "split_off" );
}
//@ q:L=5 t:L=5
//@ bounds: splitting a text of 0..5 (0..5) characters at every delimiter
ENTRY split_all( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 3 ) ), "text" );
	C c = sym<C>( "delim" );
	SV const v( t.p, t.n );
	auto parts = split( v, [&]( C x ) { return x == c; } );
	auto parts2 = split( v, c );
	CHECK( parts.size( ) == parts2.size( ) );
	size_t at = 0, k = 0;
	while( at < t.n ) {
		size_t e = at;
		while( e < t.n and t[e] != c ) ++e;
		CHECK( k < parts.size( ) );
		is( t, parts[k], at, e );
		is( t, parts2[k], at, e );
		++k;
		at = e + 1;
	}
	CHECK( parts.size( ) == k );
	CHECK( parts.empty( ) == ( k == 0 ) );
	size_t n = 0;
	for( auto const &s : parts ) { CHECK( s == parts[n] ); ++n; }
	CHECK( n == k );
	auto strs = parts.as_strings( );
	CHECK( strs.size( ) == k );
	for( size_t i = 0; i < k; ++i ) CHECK( strs[i].size( ) == parts[i].size( ) and SV( strs[i] ) == parts[i] );
	sym_reach( "split_all" );
}
int ref_cmp( Arr<C> &a, Arr<C> &b ) {
	size_t n = a.n < b.n ? a.n : b.n;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] < b[i] ) return -1;
		if( b[i] < a[i] ) return 1;
	}
	return a.n < b.n ? -1 : a.n > b.n ? 1 : 0;
}
int sgn( int v ) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
//@ q:H=3 q:N=3 t:H=3 t:N=3
//@ bounds: pairs of texts of up to 3 characters, all six relations, against views, strings and zero terminated text
ENTRY comparisons( ) {
	In x( 2, 2 );
	SV a = x.hv( ), b = x.nv( );
	int w = ref_cmp( x.h, x.n );
	CHECK( sgn( a.compare( b ) ) == w );
	CHECK( sgn( SV::compare( a, b ) ) == w );
	CHECK( ( a == b ) == ( w == 0 ) and ( a != b ) == ( w != 0 ) );
	CHECK( ( a < b ) == ( w < 0 ) and ( a <= b ) == ( w <= 0 ) );
	CHECK( ( a > b ) == ( w > 0 ) and ( a >= b ) == ( w >= 0 ) );
	Str s( x.n.p, x.n.n );
	CHECK( ( a == s ) == ( w == 0 ) and ( a != s ) == ( w != 0 ) );
	CHECK( ( a < s ) == ( w < 0 ) and ( a <= s ) == ( w <= 0 ) );
	CHECK( ( a > s ) == ( w > 0 ) and ( a >= s ) == ( w >= 0 ) );
	CHECK( ( s == a ) == ( w == 0 ) and ( s != a ) == ( w != 0 ) );
	CHECK( ( s < a ) == ( w > 0 ) and ( s <= a ) == ( w >= 0 ) );
	CHECK( ( s > a ) == ( w < 0 ) and ( s >= a ) == ( w <= 0 ) );
	sym_reach( "comparisons" );
}
//@ q:H=3 q:N=2 t:H=3 t:N=2
ENTRY comparisons_terminated( ) {
	In x( 2, 2 );
	Z z( x.n );
	C const *s = z.p;
	SV a = x.hv( );
	int w = ref_cmp( x.h, x.n );
	CHECK( sgn( a.compare( s ) ) == w );
	CHECK( ( a == s ) == ( w == 0 ) and ( a != s ) == ( w != 0 ) );
	CHECK( ( a < s ) == ( w < 0 ) and ( a <= s ) == ( w <= 0 ) );
	CHECK( ( a > s ) == ( w > 0 ) and ( a >= s ) == ( w >= 0 ) );
	CHECK( ( s == a ) == ( w == 0 ) and ( s != a ) == ( w != 0 ) );
	CHECK( ( s < a ) == ( w > 0 ) and ( s <= a ) == ( w >= 0 ) );
	CHECK( ( s > a ) == ( w < 0 ) and ( s >= a ) == ( w <= 0 ) );
	size_t pos = pick_pos( "pos", 0, x.h.n ), cnt = pick_pos( "cnt", 0, x.h.n - pos );
	SV part = a.substr( pos, cnt );
	CHECK( sgn( a.compare( pos, cnt, s ) ) == sgn( part.compare( x.nv( ) ) ) );
	CHECK( sgn( a.compare( pos, cnt, s, x.n.n ) ) == sgn( part.compare( x.nv( ) ) ) );
	CHECK( sgn( a.compare( pos, cnt, x.nv( ) ) ) == sgn( part.compare( x.nv( ) ) ) );
	size_t p2 = pick_pos( "pos2", 0, x.n.n );
	CHECK( sgn( a.compare( pos, cnt, x.nv( ), p2, 1 ) ) == sgn( part.compare( x.nv( ).substr( p2, 1 ) ) ) );
	sym_reach( "comparisons_terminated" );
}
//@ q:H=4 q:N=3 t:H=4 t:N=3
//@ bounds: texts of up to 4 and 3 characters
ENTRY copies( ) {
	In x( 2, 2 );
	SV a = x.hv( );
	auto same = [&]( Str const &s, bool first, bool second ) {
		size_t n = ( first ? x.h.n : 0 ) + ( second ? x.n.n : 0 );
		CHECK( s.size( ) == n );
		size_t at = 0;
		if( first ) for( size_t i = 0; i < x.h.n; ++i ) CHECK( s[at++] == x.h[i] );
		if( second ) for( size_t i = 0; i < x.n.n; ++i ) CHECK( s[at++] == x.n[i] );
	};
	same( a.to_string( ), true, false );
	same( static_cast<Str>( a ), true, false );
	same( to_string( a ), true, false );
	std::basic_string_view<C> o = a;
	CHECK( o.data( ) == x.h.p and o.size( ) == x.h.n );
	is( x.h, SV( o ), 0, x.h.n );
	Str s( x.n.p, x.n.n );
	same( a + s, true, true );
	same( Str( x.h.p, x.h.n ) + x.nv( ), true, true );
	SV v( s );
	CHECK( v.data( ) == s.data( ) and v.size( ) == x.n.n );
	SV u;
	u = s;
	CHECK( u.data( ) == s.data( ) and u.size( ) == x.n.n );
	u = a;
	is( x.h, u, 0, x.h.n );
	sym_reach( "copies" );
}
//@ q:H=3 q:N=3 t:H=3 t:N=3
ENTRY joins_terminated( ) {
	In x( 2, 2 );
	Z z( x.n );
	C const *s = z.p;
	auto same = [&]( Str const &r, bool swap ) {
		CHECK( r.size( ) == x.h.n + x.n.n );
		for( size_t i = 0; i < r.size( ); ++i ) {
			C want = swap ? ( i < x.n.n ? x.n[i] : x.h[i - x.n.n] ) : ( i < x.h.n ? x.h[i] : x.n[i - x.h.n] );
			CHECK( r[i] == want );
		}
	};
	same( x.hv( ) + s, false );
	same( s + x.hv( ), true );
	sym_reach( "joins_terminated" );
}
//@ q:BIG=17 t:BIG=33
//@ bounds: the entries above on texts of BIG and BIG-1 characters out of seven, two of them arbitrary; search texts of 1, 2 and 9
ENTRY big_find_text( ) { find_text( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_find_terminated( ) { find_terminated( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_find_char( ) { find_char( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_find_of_set( ) { find_of_set( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_counted( ) { counted( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_split_off( ) { split_off( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_split_all( ) { split_all( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_comparisons( ) { comparisons( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_comparisons_terminated( ) { comparisons_terminated( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_copies( ) { copies( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_joins_terminated( ) { joins_terminated( ); }
