//! variant: char
//! variant: char16 -DCH=char16_t
#include "common.h"
#include <daw/daw_string_view.h>
#include <string>
#ifndef CH
#define CH char
#endif
using C = CH;
using SV = daw::sv2::basic_string_view<C>;

// A view over an exactly-sized buffer, with a terminator (and marked so) or without one.
struct Text {
	bool zt;
	size_t n;
	C *p;
	SV v;
	Text( size_t maxn ) {
		zt = sym_bool( "zero_terminated" );
		n = pick_size( "len", 0, sym_param( "L", maxn ) );
		p = static_cast<C *>( std::malloc( ( n + zt ) * sizeof( C ) + ( n + zt == 0 ) ) );
		sym_bytes( p, n * sizeof( C ), "text" );
		thin_out( p, n );
		if( zt ) {
			p[n] = 0;
			v = SV( p, n, daw::sv2::zero_terminated );
		} else {
			v = SV( p, n );
		}
	}
	~Text( ) { std::free( p ); }
	Text( Text const & ) = delete;
	// s is exactly [a, b) of the text, and claims a terminator only if there is one
	void is( SV s, size_t a, size_t b ) {
		CHECK( s.size( ) == b - a );
		CHECK( s.data( ) == p + a );
		CHECK( s.empty( ) == ( a == b ) );
		CHECK( s.end( ) - s.begin( ) == static_cast<ptrdiff_t>( b - a ) );
		mark( s );
	}
	void mark( SV s ) {
		if( s.is_zero_terminated( ) == daw::sv2::ZeroTerminated::Yes ) CHECK( zt and s.data( ) + s.size( ) == p + n );
	}
	void nothing( SV s ) { CHECK( s.empty( ) ); }
};
template<typename F>
size_t firstp( Text &t, F f ) { for( size_t i = 0; i < t.n; ++i ) if( f( t.p[i] ) ) return i; return NPOS; }
template<typename F>
size_t lastp( Text &t, F f ) { for( size_t i = t.n; i-- > 0; ) if( f( t.p[i] ) ) return i; return NPOS; }

//@ q:L=7 t:L=7
//@ bounds: views of 0..7 (0..7) characters, with or without a terminator, any count (all 64 bit values)
ENTRY remove_counted( ) {
	Text t( 4 );
	size_t k = sym<size_t>( "count" );
	size_t m = k < t.n ? sym_concrete( k ) : t.n;
	SV a = t.v; t.is( a.remove_prefix( k ), m, t.n ); t.is( a, m, t.n );
	SV b = t.v; t.is( b.remove_suffix( k ), 0, t.n - m );
	SV c = t.v; t.is( c.pop_front( k ), 0, m ); t.is( c, m, t.n );
	SV d = t.v; t.is( d.pop_back( k ), t.n - m, t.n ); t.is( d, 0, t.n - m );
	if( k <= t.n ) {
		SV e = t.v; t.is( e.remove_prefix_unsafe( m ), m, t.n );
		SV f = t.v; t.is( f.remove_suffix_unsafe( m ), 0, t.n - m );
		SV g = t.v; t.is( g.pop_front_unsafe( m ), 0, m ); t.is( g, m, t.n );
		SV h = t.v; t.is( h.pop_back_unsafe( m ), t.n - m, t.n ); t.is( h, 0, t.n - m );
		SV i = t.v; i.resize( m ); t.is( i, 0, m );
	}
	sym_reach( "remove_counted" );
}
//@ q:L=6 t:L=6
ENTRY remove_one( ) {
	Text t( 3 );
	size_t m = t.n ? 1 : 0;
	SV a = t.v; t.is( a.remove_prefix( ), m, t.n );
	SV b = t.v; t.is( b.remove_suffix( ), 0, t.n - m );
	if( t.n ) {
		SV c = t.v; CHECK( c.pop_front( ) == t.p[0] ); t.is( c, 1, t.n );
		SV d = t.v; CHECK( d.pop_back( ) == t.p[t.n - 1] ); t.is( d, 0, t.n - 1 );
		SV e = t.v; CHECK( e.pop_front_unsafe( ) == t.p[0] ); t.is( e, 1, t.n );
		SV f = t.v; CHECK( f.pop_back_unsafe( ) == t.p[t.n - 1] ); t.is( f, 0, t.n - 1 );
		SV g = t.v; t.is( g.remove_prefix_unsafe( ), 1, t.n );
		SV h = t.v; t.is( h.remove_suffix_unsafe( ), 0, t.n - 1 );
		CHECK( t.v.front( ) == t.p[0] and t.v.back( ) == t.p[t.n - 1] );
	} else {
		SV e = t.v;
		CHECK( throws_as<std::out_of_range>( [&] { (void)e.pop_front( ); } ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)e.pop_back( ); } ) );
		t.is( e, 0, 0 );
	}
	SV x = t.v; x.clear( ); CHECK( x.empty( ) );
	SV y = t.v; y.reset( ); CHECK( y.empty( ) and y.data( ) == nullptr );
	sym_reach( "remove_one" );
}
//@ q:L=6 t:L=6
//@ bounds: views of 0..6 (0..6) characters, any position and count
ENTRY sub_views( ) {
	Text t( 4 );
	size_t pos = sym<size_t>( "pos" ), cnt = sym<size_t>( "count" );
	if( pos > t.n ) {
		CHECK( throws_as<std::out_of_range>( [&] { (void)t.v.substr( pos, cnt ); } ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)t.v.substr( pos ); } ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)t.v.at( pos ); } ) );
		sym_reach( "pos out of range" );
		return;
	}
	pos = sym_concrete( pos );
	size_t m = cnt < t.n - pos ? sym_concrete( cnt ) : t.n - pos;
	t.is( t.v.substr( pos, cnt ), pos, pos + m );
	t.is( t.v.substr( pos ), pos, t.n );
	t.is( t.v.substr( ), 0, t.n );
	t.is( t.v.substr_unsafe( pos, m ), pos, pos + m );
	t.is( t.v.substr_unsafe( pos ), pos, t.n );
	if( pos < t.n ) {
		CHECK( t.v.at( pos ) == t.p[pos] );
		CHECK( &t.v[pos] == t.p + pos );
	} else {
		CHECK( throws_as<std::out_of_range>( [&] { (void)t.v.at( pos ); } ) );
	}
	C buf[80];
	for( auto &c : buf ) c = C( 0x5a );
	CHECK( t.v.copy( buf, cnt < 80 ? cnt : 80, pos ) == m );
	for( size_t i = 0; i < 80; ++i ) CHECK( buf[i] == ( i < m ? t.p[pos + i] : C( 0x5a ) ) );
	sym_reach( "sub_views" );
}
//@ q:L=6 t:L=6
//@ bounds: splitting at a character or predicate
ENTRY split_on_char( ) {
	Text t( 4 );
	C c = sym<C>( "delim" );
	auto is = [&]( C d ) { return d == c; };
	size_t f = firstp( t, is ), l = lastp( t, is );
	size_t nf = firstp( t, [&]( C d ) { return d != c; } );
	size_t fe = f == NPOS ? t.n : f, fa = f == NPOS ? t.n : f + 1;
	size_t nfe = nf == NPOS ? t.n : nf;
	{ SV v = t.v; t.is( v.pop_front_until( c ), 0, fe ); t.is( v, fa, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_until( c, daw::nodiscard ), 0, fe ); t.is( v, fe, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_until( is ), 0, fe ); t.is( v, fa, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_until( is, daw::nodiscard ), 0, fe ); t.is( v, fe, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_while( c ), 0, nfe ); t.is( v, nfe, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_while( is ), 0, nfe ); t.is( v, nfe, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( c ), fa, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( c, daw::nodiscard ), fe, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( is ), fa, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( is, daw::nodiscard ), fe, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_while( c ), nfe, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_while( is ), nfe, t.n ); }
	size_t nl = lastp( t, [&]( C d ) { return d != c; } );
	{ SV v = t.v; t.is( v.remove_suffix_while( c ), 0, nl + 1 ); }
	{ SV v = t.v; t.is( v.remove_suffix_while( is ), 0, nl + 1 ); }
	if( f != NPOS ) {
		{ SV v = t.v; t.is( v.try_pop_front_until( c ), 0, f ); t.is( v, f + 1, t.n ); }
		{ SV v = t.v; t.is( v.try_pop_front_until( c, daw::nodiscard ), 0, f ); t.is( v, f, t.n ); }
		{ SV v = t.v; t.is( v.try_pop_front_until( is ), 0, f ); t.is( v, f + 1, t.n ); }
		{ SV v = t.v; t.is( v.try_pop_front_until( is, daw::nodiscard ), 0, f ); t.is( v, f, t.n ); }
		{ SV v = t.v; t.is( v.pop_back_until( c ), l + 1, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.pop_back_until( c, daw::nodiscard ), l + 1, t.n ); t.is( v, 0, l + 1 ); }
		{ SV v = t.v; t.is( v.pop_back_until( is ), l + 1, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.pop_back_until( is, daw::nodiscard ), l + 1, t.n ); t.is( v, 0, l + 1 ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( c ), l + 1, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( c, daw::nodiscard ), l + 1, t.n ); t.is( v, 0, l + 1 ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( is ), l + 1, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( is, daw::nodiscard ), l + 1, t.n ); t.is( v, 0, l + 1 ); }
		sym_reach( "found" );
	} else {
		{ SV v = t.v; t.nothing( v.try_pop_front_until( c ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_front_until( c, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_front_until( is ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_front_until( is, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.is( v.pop_back_until( c ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.is( v.pop_back_until( c, daw::nodiscard ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.is( v.pop_back_until( is ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.is( v.pop_back_until( is, daw::nodiscard ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( c ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( c, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( is ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( is, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		sym_reach( "not found" );
	}
}
//@ q:L=5 q:D=3 t:L=5 t:D=3
//@ bounds: splitting at a delimiter string of 1..3 (1..3) characters, text of 0..5 (0..5)
ENTRY split_on_string( ) {
	Text t( 4 );
	Arr<C> d( sym_pick( "delim_len", 1, sym_param( "D", 2 ) ), "delim" );
	SV w( d.p, d.n );
	size_t f = NPOS, l = NPOS;
	for( size_t i = 0; i + d.n <= t.n; ++i ) {
		bool e = true;
		for( size_t k = 0; k < d.n; ++k ) e &= t.p[i + k] == d[k];
		if( e ) { if( f == NPOS ) f = i; l = i; }
	}
	size_t fe = f == NPOS ? t.n : f, fa = f == NPOS ? t.n : f + d.n;
	{ SV v = t.v; t.is( v.pop_front_until( w ), 0, fe ); t.is( v, fa, t.n ); }
	{ SV v = t.v; t.is( v.pop_front_until( w, daw::nodiscard ), 0, fe ); t.is( v, fe, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( w ), fa, t.n ); }
	{ SV v = t.v; t.is( v.remove_prefix_until( w, daw::nodiscard ), fe, t.n ); }
	if( f != NPOS ) {
		{ SV v = t.v; t.is( v.try_pop_front_until( w ), 0, f ); t.is( v, f + d.n, t.n ); }
		{ SV v = t.v; t.is( v.try_pop_front_until( w, daw::nodiscard ), 0, f ); t.is( v, f, t.n ); }
		{ SV v = t.v; t.is( v.pop_back_until( w ), l + d.n, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.pop_back_until( w, daw::nodiscard ), l + d.n, t.n ); t.is( v, 0, l + d.n ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( w ), l + d.n, t.n ); t.is( v, 0, l ); }
		{ SV v = t.v; t.is( v.try_pop_back_until( w, daw::nodiscard ), l + d.n, t.n ); t.is( v, 0, l + d.n ); }
		sym_reach( "found" );
	} else {
		{ SV v = t.v; t.nothing( v.try_pop_front_until( w ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_front_until( w, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.is( v.pop_back_until( w ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.is( v.pop_back_until( w, daw::nodiscard ), 0, t.n ); t.nothing( v ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( w ) ); t.is( v, 0, t.n ); }
		{ SV v = t.v; t.nothing( v.try_pop_back_until( w, daw::nodiscard ) ); t.is( v, 0, t.n ); }
		sym_reach( "not found" );
	}
	{
		size_t k = 0;
		for( ; k < t.n; ++k ) { bool in = false; for( size_t j = 0; j < d.n; ++j ) in |= t.p[k] == d[j]; if( not in ) break; }
		SV v = t.v; t.is( v.pop_front_while( w ), 0, k ); t.is( v, k, t.n );
	}
}
//@ q:L=5 t:L=5
ENTRY trimming( ) {
	Text t( 3 );
	auto sp = []( C c ) { return c == ' ' or ( c >= 9 and c <= 13 ); };
	size_t a = 0, b = t.n;
	while( a < t.n and sp( t.p[a] ) ) ++a;
	size_t bs = t.n;
	while( bs > 0 and sp( t.p[bs - 1] ) ) --bs;
	b = bs < a ? a : bs;
	{ SV v = t.v; t.is( v.trim_prefix( ), a, t.n ); }
	{ SV v = t.v; t.is( v.trim_suffix( ), 0, bs ); }
	{ SV v = t.v; t.is( v.trim( ), a, b ); }
	t.is( t.v.trim_copy( ), a, b );
	t.is( t.v.trim_prefix_copy( ), a, t.n );
	t.is( t.v.trim_suffix_copy( ), 0, bs );
	t.is( t.v, 0, t.n );
	sym_reach( "trimming" );
}
//@ q:L=6 t:L=6 steps=400000
//@ bounds: repeatedly splitting a text of 0..6 (0..6) characters consumes it exactly once, in order
ENTRY tokenise( ) {
	Text t( 4 );
	C c = sym<C>( "delim" );
	SV v = t.v;
	size_t at = 0, toks = 0;
	while( not v.empty( ) ) {
		SV tok = v.pop_front_until( c );
		t.mark( tok );
		CHECK( tok.data( ) == t.p + at );
		for( auto ch : tok ) CHECK( ch != c );
		at += tok.size( );
		if( at < t.n ) { CHECK( t.p[at] == c ); ++at; }
		++toks;
	}
	CHECK( at == t.n );
	sym_reach( "tokenise" );
}
//@ q:L=5 t:L=5
ENTRY null_terminated_text( ) {
	Text t( 3 );
	for( size_t i = 0; i < t.n; ++i ) sym_assume( t.p[i] != 0 );
	size_t k = pick_pos( "drop_front", 0, t.n ), m = pick_pos( "drop_back", 0, t.n - k );
	SV v = t.v;
	v.remove_prefix( k );
	if( m ) v.remove_suffix( m );
	auto s = v.get_c_str( );
	C const *z = s.c_str( );
	CHECK( s.size( ) == t.n - k - m );
	for( size_t i = 0; i < t.n - k - m; ++i ) CHECK( z[i] == t.p[k + i] );
	CHECK( z[t.n - k - m] == 0 );
	auto str = static_cast<std::basic_string<C>>( v );
	CHECK( str.size( ) == t.n - k - m );
	sym_reach( "null_terminated_text" );
}
//@ q:BIG=33 t:BIG=65
//@ bounds: the entries above on texts of BIG and BIG-1 characters out of seven, two of them arbitrary; search texts of 1, 2 and 9
ENTRY big_remove_counted( ) { remove_counted( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_remove_one( ) { remove_one( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_sub_views( ) { sub_views( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_split_on_char( ) { split_on_char( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_split_on_string( ) { split_on_string( ); }
//@ q:BIG=33,ORD=3 t:BIG=65,ORD=3
ENTRY big_trimming( ) { trimming( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_tokenise( ) { tokenise( ); }
//@ q:BIG=33 t:BIG=65
ENTRY big_null_terminated_text( ) { null_terminated_text( ); }
