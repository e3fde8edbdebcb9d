//! variant: char
//! variant: char16 -DCH=char16_t
#include "common.h"
#include <daw/daw_string_view.h>
#include <array>
#include <string>
#include <string_view>
#include <vector>
#ifndef CH
#define CH char
#endif
using C = CH;
using SV = daw::sv2::basic_string_view<C>;
using Str = std::basic_string<C>;
using daw::sv2::ZeroTerminated;

struct In {
	Arr<C> h, n;
	In( size_t mh, size_t mn ) : h( pick_size( "hay_len", 0, sym_param( "H", mh ) ), "hay" ), n( pick_needle( "needle_len", 0, sym_param( "N", mn ) ), "needle" ) {}
	SV hv( ) { return SV( h.p, h.n ); }
	SV nv( ) { return SV( n.p, n.n ); }
};
struct Z {
	C *p;
	explicit Z( Arr<C> &a ) : p( static_cast<C *>( std::malloc( ( a.n + 1 ) * sizeof( C ) ) ) ) {
		for( size_t i = 0; i < a.n; ++i ) { sym_assume( a[i] != 0 ); p[i] = a[i]; }
		p[a.n] = 0;
	}
	~Z( ) { std::free( p ); }
};
int ref_cmp( C const *a, size_t an, C const *b, size_t bn ) {
	size_t n = an < bn ? an : bn;
	for( size_t i = 0; i < n; ++i ) {
		if( a[i] < b[i] ) return -1;
		if( b[i] < a[i] ) return 1;
	}
	return an < bn ? -1 : an > bn ? 1 : 0;
}
int sgn( int v ) { return v < 0 ? -1 : v > 0 ? 1 : 0; }
template<typename A, typename B>
void relations( A const &a, B const &b, int w ) {
	CHECK( ( a == b ) == ( w == 0 ) ); CHECK( ( a != b ) == ( w != 0 ) );
	CHECK( ( b == a ) == ( w == 0 ) ); CHECK( ( b != a ) == ( w != 0 ) );
	CHECK( ( a < b ) == ( w < 0 ) ); CHECK( ( a <= b ) == ( w <= 0 ) );
	CHECK( ( a > b ) == ( w > 0 ) ); CHECK( ( a >= b ) == ( w >= 0 ) );
	CHECK( ( b < a ) == ( w > 0 ) ); CHECK( ( b <= a ) == ( w >= 0 ) );
	CHECK( ( b > a ) == ( w < 0 ) ); CHECK( ( b >= a ) == ( w <= 0 ) );
}
//@ q:H=4 q:N=4 t:H=4 t:N=4
//@ bounds: pairs of texts of up to 4 characters, all relations, against views, strings, vectors and standard views
ENTRY order( ) {
	In x( 2, 2 );
	SV a = x.hv( ), b = x.nv( );
	int w = ref_cmp( x.h.p, x.h.n, x.n.p, x.n.n );
	CHECK( sgn( a.compare( b ) ) == w );
	CHECK( sgn( SV::compare( a, b ) ) == w );
	relations( a, b, w );
	CHECK( ( ( a <=> b ) == 0 ) == ( w == 0 ) and ( ( a <=> b ) < 0 ) == ( w < 0 ) );
	Str s( x.n.p, x.n.n );
	CHECK( sgn( a.compare( s ) ) == w );
	relations( a, s, w );
	CHECK( sgn( a.compare( b, []( C l, C r ) { return r < l; } ) ) == [&] {
		size_t n = x.h.n < x.n.n ? x.h.n : x.n.n;
		for( size_t i = 0; i < n; ++i ) { if( x.n[i] < x.h[i] ) return -1; if( x.h[i] < x.n[i] ) return 1; }
		return x.h.n < x.n.n ? -1 : x.h.n > x.n.n ? 1 : 0;
	}( ) );
	sym_reach( "order" );
}
//@ q:H=3 q:N=3 t:H=3 t:N=3
//@ bounds: texts of up to 3 characters against zero terminated text, and parts of both
ENTRY order_terminated( ) {
	In x( 2, 2 );
	Z z( x.n );
	C const *s = z.p;
	SV a = x.hv( );
	int w = ref_cmp( x.h.p, x.h.n, x.n.p, x.n.n );
	relations( a, s, w );
	size_t pos = pick_pos( "pos", 0, x.h.n ), cnt = sym<size_t>( "cnt" );
	size_t m = cnt < x.h.n - pos ? sym_concrete( cnt ) : x.h.n - pos;
	int pw = ref_cmp( x.h.p + pos, m, x.n.p, x.n.n );
	CHECK( sgn( a.compare( pos, cnt, x.nv( ) ) ) == pw );
	CHECK( sgn( a.compare( pos, cnt, s ) ) == pw );
	size_t c2 = pick_pos( "count2", 0, x.n.n );
	CHECK( sgn( a.compare( pos, cnt, s, c2 ) ) == ref_cmp( x.h.p + pos, m, x.n.p, c2 ) );
	size_t p2 = pick_pos( "pos2", 0, x.n.n );
	size_t m2 = c2 < x.n.n - p2 ? c2 : x.n.n - p2;
	CHECK( sgn( a.compare( pos, cnt, x.nv( ), p2, c2 ) ) == ref_cmp( x.h.p + pos, m, x.n.p + p2, m2 ) );
	size_t bad = sym<size_t>( "bad" );
	sym_assume( bad > x.h.n );
	CHECK( throws_as<std::out_of_range>( [&] { (void)a.compare( bad, cnt, x.nv( ) ); } ) );
	sym_reach( "order_terminated" );
}
void is( Arr<C> &t, SV s, size_t n ) {
	CHECK( s.data( ) == t.p and s.size( ) == n and s.length( ) == n and s.empty( ) == ( n == 0 ) );
	CHECK( s.begin( ) == t.p and s.cbegin( ) == t.p and s.end( ) == t.p + n and s.cend( ) == t.p + n and s.data_end( ) == t.p + n );
	CHECK( s.rend( ) - s.rbegin( ) == static_cast<ptrdiff_t>( n ) and s.crend( ) - s.crbegin( ) == static_cast<ptrdiff_t>( n ) );
	if( n ) CHECK( &*s.rbegin( ) == t.p + n - 1 and &*( s.rend( ) - 1 ) == t.p and &*s.crbegin( ) == t.p + n - 1 and &s.front( ) == t.p and &s.back( ) == t.p + n - 1 );
}
bool zt( SV s ) { return s.is_zero_terminated( ) == ZeroTerminated::Yes; }
//@ q:L=6 t:L=6
//@ bounds: views over 0..6 (0..6) characters made from pointers, counts, ranges, strings, vectors, other views
ENTRY construction( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 3 ) ), "text" );
	is( t, SV( t.p, t.n ), t.n );
	is( t, SV( t.p, t.p + t.n ), t.n );
	CHECK( not zt( SV( t.p, t.n ) ) and not zt( SV( t.p, t.p + t.n ) ) );
	std::basic_string_view<C> o( t.p, t.n );
	is( t, SV( o ), t.n );
	CHECK( not zt( SV( o ) ) );
	size_t k = sym<size_t>( "count" );
	size_t m = k < t.n ? sym_concrete( k ) : t.n;
	is( t, SV( o, k ), m );
	CHECK( not zt( SV( o, k ) ) );
	is( t, SV( o, m, daw::dont_clip_to_bounds ), m );
	auto back = static_cast<std::basic_string_view<C>>( SV( t.p, t.n ) );
	CHECK( back.data( ) == t.p and back.size( ) == t.n );
	Str s( t.p, t.n );
	SV vs( s );
	CHECK( vs.data( ) == s.data( ) and vs.size( ) == t.n and zt( vs ) );
	SV vk( s, k );
	CHECK( vk.data( ) == s.data( ) and vk.size( ) == m );
	if( m < t.n ) CHECK( not zt( vk ) );
	SV vd( s, m, daw::dont_clip_to_bounds );
	CHECK( vd.data( ) == s.data( ) and vd.size( ) == m and zt( vd ) == ( m == t.n ) );
	std::vector<C> vec( t.p, t.p + t.n );
	SV vv( vec );
	CHECK( vv.size( ) == t.n and ( t.n == 0 or vv.data( ) == vec.data( ) ) and not zt( vv ) );
	SV cp = vs, as;
	as = vs;
	CHECK( cp.data( ) == s.data( ) and cp.size( ) == t.n and as.data( ) == s.data( ) and as.size( ) == t.n and zt( cp ) and zt( as ) );
	daw::sv2::basic_string_view ded( s );
	CHECK( std::is_same_v<decltype( ded ), SV> );
	CHECK( ded.data( ) == s.data( ) );
	CHECK( SV( nullptr ).empty( ) and SV( nullptr ).data( ) == nullptr and SV( ).empty( ) and SV( ).data( ) == nullptr and SV( nullptr, 0 ).empty( ) );
	sym_reach( "construction" );
}
//@ q:L=6 t:L=6
//@ bounds: views made from zero terminated text of 0..6 (0..6) characters
ENTRY terminated_construction( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 3 ) ) + 1, "text" );
	size_t n = 0;
	t[t.n - 1] = 0;
	while( t[n] != 0 ) ++n;
	C const *p = t.p;
	is( t, SV( p ), n );
	CHECK( zt( SV( p ) ) );
	is( t, SV( p, n, daw::sv2::zero_terminated ), n );
	CHECK( zt( SV( p, n, daw::sv2::zero_terminated ) ) );
	is( t, SV( t.p, t.p + n, daw::sv2::zero_terminated ), n );
	CHECK( zt( SV( t.p, t.p + n, daw::sv2::zero_terminated ) ) );
	SV v( p, n );
	CHECK( not zt( v ) );
	v.set_zero_terminated( );
	CHECK( zt( v ) );
	is( t, v, n );
	v.set_zero_terminated( );
	CHECK( zt( v ) );
	is( t, v, n );
	CHECK( SV( static_cast<C const *>( nullptr ) ).empty( ) );
	auto s = v.get_c_str( );
	CHECK( s.c_str( ) == p and s.data( ) == p and static_cast<C const *>( s ) == p and s.size( ) == n );
	Str str = s.string( ), str2 = v.get_c_str( ).string( ), str3 = SV( p, n ).get_c_str( ).string( );
	CHECK( str.size( ) == n and str2.size( ) == n and str3.size( ) == n );
	for( size_t i = 0; i < n; ++i ) CHECK( str[i] == t[i] and str2[i] == t[i] and str3[i] == t[i] );
	sym_reach( "terminated_construction" );
}
//@ bounds: arrays of 3 characters with and without a terminator
ENTRY array_construction( ) {
	C a[3] = { sym<C>( "a" ), sym<C>( "b" ), sym<C>( "c" ) };
	SV v( a, daw::sv2::not_zero_terminated );
	CHECK( v.size( ) == 3 and v.data( ) == a and not zt( v ) );
	std::array<C, 3> arr{ { a[0], a[1], a[2] } };
	SV w( arr );
	CHECK( w.size( ) == 3 and w.data( ) == arr.data( ) and not zt( w ) );
	C const lit[4] = { a[0], a[1], a[2], 0 };
	for( auto c : a ) sym_assume( c != 0 );
	SV l( lit );
	CHECK( l.size( ) == 3 and l.data( ) == lit and zt( l ) );
	CHECK( v == l and w == l and not( v != lit ) );
	CHECK( l.compare( lit ) == 0 and v.compare( lit ) == 0 );
	sym_reach( "array_construction" );
}
//@ q:L=7 t:L=7
//@ bounds: growing a view inside a text of 0..7 (0..7) characters
ENTRY expanding( ) {
	Arr<C> t( pick_size( "len", 1, sym_param( "L", 4 ) ) + 1, "text" );
	t[t.n - 1] = 0;
	size_t n = t.n - 1;
	size_t a = pick_pos( "first", 0, n ), b = pick_pos( "last", a, n );
	bool mark = b == n and sym_bool( "marked" );
	SV v = mark ? SV( t.p + a, b - a, daw::sv2::zero_terminated ) : SV( t.p + a, b - a );
	auto at = [&]( SV x, size_t f, size_t l ) {
		CHECK( x.data( ) == t.p + f and x.size( ) == l - f );
		if( zt( x ) ) CHECK( t[l] == 0 and l == n );
	};
	size_t k = pick_pos( "front", 0, a ), e = pick_pos( "back", 0, n - b );
	{ SV x = v; x.expand_prefix( k ); at( x, a - k, b ); }
	{ SV x = v; x.expand_suffix( e ); at( x, a, b + e ); }
	if( a > 0 ) { SV x = v; x.expand_prefix( ); at( x, a - 1, b ); }
	if( b < n ) { SV x = v; x.expand_suffix( ); at( x, a, b + 1 ); }
	sym_reach( "expanding" );
}
// records what is written
struct Out {
	using char_type = C;
	static constexpr int left = 1, adjustfield = 3;
	size_t wid = 0;
	int fl = 0;
	C fc = 0;
	bool ok = true;
	C buf[40];
	size_t n = 0;
	C fill( ) const { return fc; }
	bool good( ) const { return ok; }
	size_t width( ) const { return wid; }
	void width( size_t w ) { wid = w; }
	int flags( ) const { return fl; }
	void write( C const *p, std::ptrdiff_t c ) { for( std::ptrdiff_t i = 0; i < c; ++i ) { CHECK( n < 40 ); buf[n++] = p[i]; } }
};
//@ q:L=4 q:W=30 t:L=4 t:W=30
//@ bounds: streaming views of 0..4 (0..4) characters with widths 0..30 (0..30), left and right adjusted
ENTRY streaming( ) {
	Arr<C> t( pick_size( "len", 0, sym_param( "L", 2 ) ), "text" );
	Out o;
	o.wid = sym_pick( "width", 0, sym_param( "W", 20 ) );
	o.fl = static_cast<int>( sym_pick( "flags", 0, 2 ) );
	o.fc = sym<C>( "fill" );
	o.ok = sym_bool( "good" );
	size_t w = o.wid;
	o << SV( t.p, t.n );
	if( not o.ok ) {
		CHECK( o.n == 0 );
	} else {
		size_t total = w > t.n ? w : t.n, pad = total - t.n;
		CHECK( o.n == total and o.wid == 0 );
		size_t at = o.fl == Out::left ? 0 : pad;
		for( size_t i = 0; i < total; ++i ) CHECK( o.buf[i] == ( i >= at and i < at + t.n ? t[i - at] : o.fc ) );
	}
	sym_reach( "streaming" );
}
//@ q:BIG=17 t:BIG=33
//@ bounds: the entries above on texts of BIG and BIG-1 characters out of seven, two of them arbitrary; search texts of 1, 2 and 9
ENTRY big_order( ) { order( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_order_terminated( ) { order_terminated( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_construction( ) { construction( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_terminated_construction( ) { terminated_construction( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_expanding( ) { expanding( ); }
