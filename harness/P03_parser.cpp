#include "common.h"
#include "stdrt.h"
#include <string>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>
#include <daw/daw_ascii.h>
#include <daw/daw_parse_args.h>
#include <daw/daw_string_concat.h>

namespace pr = daw::parser;
using sv = daw::string_view;
static bool wsp( char c ) { return ( c >= 9 and c <= 13 ) or c == 32; }
template<typename R>
static bool at( R const &r, char *p, size_t f, size_t l ) { return r.first == p + f and r.last == p + l; }
//@ q:n=5 t:n=6
//@ bounds: every text of up to n characters
ENTRY searching( ) {
	size_t n = pick_size( "n", 0, sym_param( "n", 4 ) ); Arr<char> a( n, "a" );
	char t = static_cast<char>( sym_u8( "t" ) ), u = static_cast<char>( sym_u8( "u" ) ), w = static_cast<char>( sym_u8( "w" ) );
	auto is = [=]( char c ) { return c == t or c == u; };
	size_t k = 0; while( k < n and not is( a[k] ) ) ++k; // first match
	size_t m = 0; while( m < n and is( a[m] ) ) ++m; // first non match
	char *b = a.begin( ), *e = a.end( );
	switch( sym_pick( "op", 0, 12 ) ) {
	case 0: { auto r = pr::until( b, e, is ); CHECK( at( r, a.p, 0, k ) and r.found == ( k < n ) and static_cast<bool>( r ) == r.found and r.empty( ) == ( k == 0 ) and r.begin( ) == b and r.end( ) == a.p + k ); } break;
	case 1: { bool th = sym_bool( "th" ), got = false; try { auto r = pr::until( b, e, is, th ); got = true; CHECK( at( r, a.p, 0, k ) and r.found == ( k < n ) ); } catch( pr::ParserException const & ) {} CHECK( got == ( k < n or not th ) ); } break;
	case 2: { auto r = pr::until_false( b, e, is ); CHECK( at( r, a.p, 0, m ) and r.found == ( m < n ) ); } break;
	case 3: { auto r = pr::until_value( b, e, t, u ); CHECK( at( r, a.p, 0, k ) and r.found == ( k < n ) ); } break;
	case 4: { char v[2] = { t, u }; auto r = pr::until_values( b, e, sv( v, 2 ) ); CHECK( at( r, a.p, 0, k ) and r.found == ( k < n ) ); } break;
	case 5: { auto r = pr::until_last_of( b, e, t ); size_t l = n; bool f = false; for( size_t i = 0; i < n; ++i ) if( a[i] == t ) { l = i; f = true; } CHECK( at( r, a.p, 0, l ) and r.found == f ); } break;
	case 6: { auto r = pr::skip_ws( b, e ); size_t l = 0; while( l < n and wsp( a[l] ) ) ++l; CHECK( at( r, a.p, l, n ) ); } break;
	case 7: { auto r = pr::trim_left( b, e ); size_t l = 0; while( l < n and wsp( a[l] ) ) ++l; CHECK( at( r, a.p, l, n ) ); auto s = pr::trim_left( sv( a.p, n ) ); CHECK( s.data( ) == a.p + l and s.size( ) == n - l ); } break;
	case 8: { auto r = pr::trim_right( b, e ); size_t l = n; while( l > 0 and wsp( a[l - 1] ) ) --l; CHECK( at( r, a.p, 0, l ) ); auto s = pr::trim_right( sv( a.p, n ) ); CHECK( s.data( ) == a.p and s.size( ) == l ); } break;
	case 9: { auto r = pr::trim( b, e ); size_t f = 0; while( f < n and wsp( a[f] ) ) ++f; size_t l = n; while( l > f and wsp( a[l - 1] ) ) --l; CHECK( at( r, a.p, f, l ) ); auto s = pr::trim( sv( a.p, n ) ); CHECK( s.data( ) == a.p + f and s.size( ) == l - f ); } break;
	case 10: { size_t s = 0; while( s < n and a[s] != t ) ++s; size_t f = s; while( f < n and a[f] != w ) ++f; bool th = sym_bool( "th" ), got = false;
		try { auto r = pr::from_to( b, e, t, w, th ); got = true; CHECK( at( r, a.p, s, f ) and r.found == ( f > s ) ); } catch( pr::ParserException const & ) {} CHECK( got == ( s < n and ( f < n or not th ) ) ); } break;
	case 11: { size_t s = k; size_t f = s; while( f < n and a[f] != w ) ++f; bool th = sym_bool( "th" ), got = false;
		try { auto r = pr::from_to_pred( b, e, is, [=]( char c ) { return c == w; }, th ); got = true; CHECK( at( r, a.p, s, f ) and r.found == ( f > s ) ); } catch( pr::ParserException const & ) {} CHECK( got == ( s < n and ( f < n or not th ) ) ); } break;
	default: { CHECK( pr::find_first_of( sv( a.p, n ), t ) - a.p == pr::until_value( b, e, t ).last - a.p ); auto it = pr::find_first_of_when( sv( a.p, n ), is ); CHECK( it == a.p + k ); } break;
	}
	sym_reach( "end" );
}
//@ q:n=6 t:n=6
//@ bounds: every text of up to n characters: splitting gives every divider and the end of a trailing part, in order
ENTRY splitting( ) {
	size_t n = pick_size( "n", 0, sym_param( "n", 4 ) ); Arr<char> a( n, "a" );
	char t = static_cast<char>( sym_u8( "t" ) ), u = static_cast<char>( sym_u8( "u" ) );
	std::vector<char *> v = sym_bool( "pred" ) ? pr::split_if( a.begin( ), a.end( ), [=]( char c ) { return c == t or c == u; } ) : pr::split_on( a.begin( ), a.end( ), t, u );
	size_t k = 0;
	for( size_t i = 0; i < n; ++i ) if( a[i] == t or a[i] == u ) { CHECK( k < v.size( ) and v[k] == a.p + i ); ++k; }
	if( n > 0 and not( a[n - 1] == t or a[n - 1] == u ) ) { CHECK( k < v.size( ) and v[k] == a.p + n ); ++k; }
	CHECK( k == v.size( ) );
	sym_reach( "end" );
}
//@ bounds: every text of up to 4 characters, every pattern of up to 2
ENTRY matching( ) {
	size_t n = sym_pick( "n", 0, 4 ), m = sym_pick( "m", 1, 2 ); Arr<char> a( n, "a" ), p( m, "p" );
	auto mt = pr::matcher( std::vector<char>( p.begin( ), p.end( ) ) );
	size_t k = 0; for( ; k + m <= n; ++k ) { bool ok = true; for( size_t i = 0; i < m; ++i ) ok = ok and a[k + i] == p[i]; if( ok ) break; }
	bool f = k + m <= n; auto r = mt( a.begin( ), a.end( ) );
	CHECK( r.found == f and r.first == a.p and r.last == ( f ? a.p + k : a.p + n ) );
	auto eq = []( char x, char y ) { return x == y; };
	CHECK( pr::starts_with( a.begin( ), a.end( ), p.begin( ), p.end( ), eq ) == ( f and k == 0 ) );
	char q[2] = { 'x', 'y' }; auto m2 = pr::matcher( q ); auto r2 = m2( a.begin( ), a.end( ) ); size_t j = 0; while( j + 2 <= n and not( a[j] == 'x' and a[j + 1] == 'y' ) ) ++j; CHECK( r2.found == ( j + 2 <= n ) );
	if( f ) { auto s = r.to_string( ); CHECK( s.size( ) == k ); for( size_t i = 0; i < k; ++i ) CHECK( s[i] == a[i] ); CHECK( r.to_string_view( ).size( ) == k and r.to_string_view( ).data( ) == a.p and r.template as<std::vector<char>>( ).size( ) == k ); }
	sym_reach( "end" );
}
//@ bounds: every character, every value
ENTRY classes( ) {
	char const c = static_cast<char>( sym_u8( "c" ) ), d = static_cast<char>( sym_u8( "d" ) ), e = static_cast<char>( sym_u8( "e" ) );
	uint32_t w = sym_u32( "w" );
	auto low = []( int x ) { return x >= 'a' and x <= 'z'; }; auto up = []( int x ) { return x >= 'A' and x <= 'Z'; }; auto dig = []( int x ) { return x >= '0' and x <= '9'; };
	CHECK( pr::is_alpha( c ) == ( low( c ) or up( c ) ) and pr::is_number( c ) == dig( c ) and pr::is_alphanumeric( c ) == ( low( c ) or up( c ) or dig( c ) ) and pr::is_hex( c ) == ( dig( c ) or ( c >= 'a' and c <= 'f' ) or ( c >= 'A' and c <= 'F' ) ) );
	CHECK( pr::is_space( c ) == ( c == ' ' ) and pr::not_space( c ) == ( c != ' ' ) and pr::is_cr( c ) == ( c == '\n' ) and pr::is_escape( c ) == ( c == '\\' ) and pr::is_quote( c ) == ( c == '"' ) and pr::pred_true( c ) and not pr::pred_false( c ) );
	bool uw = ( w >= 9 and w <= 13 ) or w == 32 or w == 0x85 or w == 0xA0 or w == 0x1680 or ( w >= 0x2000 and w <= 0x200A ) or w == 0x2028 or w == 0x2029 or w == 0x202F or w == 0x205F or w == 0x3000;
	CHECK( pr::is_unicode_whitespace( w ) == uw and pr::not_unicode_whitespace( w ) == not uw );
	CHECK( pr::is_a( c, d ) == ( c == d ) and pr::is_a( c, d, e ) == ( c == d or c == e ) and pr::in_range( c, d, e ) == ( d <= c and c <= e ) );
	char in[2] = { d, e }; CHECK( pr::in( sv( in, 2 ) )( c ) == ( c == d or c == e ) and pr::value_in( c, in ) == ( c == d or c == e ) and pr::char_in_t<'a', '7', '-'>{ }( c ) == ( c == 'a' or c == '7' or c == '-' ) );
	auto p = [d]( char x ) { return x == d; }; auto q = [e]( char x ) { return x == e; };
	CHECK( pr::is_true( c, p ) == ( c == d ) and pr::is_true( c, p, q ) == ( c == d or c == e ) and pr::negate( p )( c ) == ( c != d ) );
	CHECK( throws_as<pr::ParserException>( [&] { pr::expect( c, d, e ); } ) == not( c == d or c == e ) and throws_as<pr::ParserException>( [&] { pr::expect_true( c, p, q ); } ) == not( c == d or c == e ) );
	CHECK( throws_as<pr::ParserException>( [&] { pr::assert_equal( c, d ); } ) == ( c != d ) and throws_as<pr::ParserException>( [&] { pr::assert_not_equal( c, d ); } ) == ( c == d ) );
	char const *b = in; CHECK( throws_as<pr::ParserEmptyException>( [&] { pr::assert_not_empty( b, b + ( c & 1 ) ); } ) == ( ( c & 1 ) == 0 ) and throws( [&] { pr::assert_empty( b, b + ( c & 1 ) ); } ) == ( ( c & 1 ) == 1 ) );
	sym_reach( "end" );
}
template<typename I>
static void asc( I c ) {
	bool lo = c >= I{ 'a' } and c <= I{ 'z' }, up = c >= I{ 'A' } and c <= I{ 'Z' }, dg = c >= I{ '0' } and c <= I{ '9' };
	CHECK( daw::is_ascii_digit( c ) == dg and daw::is_ascii_alpha( c ) == ( lo or up ) and daw::is_ascii_alphanum( c ) == ( lo or up or dg ) and daw::is_ascii_printable( c ) == ( c >= I{ ' ' } and c <= I{ '~' } ) );
	CHECK( daw::to_upper_ascii( c ) == ( lo ? static_cast<I>( c - I{ 32 } ) : c ) and daw::to_lower_ascii( c ) == ( up ? static_cast<I>( c + I{ 32 } ) : c ) );
}
//@ bounds: every value of five integer types
ENTRY ascii( ) {
	switch( sym_pick( "t", 0, 4 ) ) { case 0: asc( sym<char>( "c" ) ); break; case 1: asc( sym<uint8_t>( "c" ) ); break; case 2: asc( sym<int16_t>( "c" ) ); break; case 3: asc( sym<uint32_t>( "c" ) ); break; default: asc( sym<int64_t>( "c" ) ); break; }
	sym_reach( "end" );
}
//@ q:n=6 t:n=6
//@ bounds: every pair of arguments of up to n and 1 characters
ENTRY arguments( ) {
	size_t n = pick_size( "n", 0, sym_param( "n", 4 ) ), m = sym_pick( "m", 0, 1 );
	Arr<char> a( n + 1, "a" ), b( m + 1, "b" );
	for( size_t i = 0; i < n; ++i ) sym_assume( a[i] != 0 );
	for( size_t i = 0; i < m; ++i ) sym_assume( b[i] != 0 and b[i] != '-' );
	a[n] = 0; b[m] = 0; char pn[2] = { 'p', 0 }; char *argv[4] = { pn, a.p, b.p, nullptr };
	daw::Arguments const args( 3, argv );
	CHECK( args.program_name( ).data( ) == pn and args.size( ) == 2 and not args.empty( ) and args.end( ) - args.begin( ) == 2 and args.cend( ) - args.cbegin( ) == 2 );
	bool named = n >= 2 and a[0] == '-' and a[1] == '-';
	size_t nb = named ? 2 : 0, ne = nb, vb, ve = n;
	if( named ) { while( ne < n and a[ne] != '=' ) ++ne; }
	vb = named ? ( ne < n ? ne + 1 : n ) : 0;
	if( ve - vb >= 2 and a[vb] == '"' and a[ve - 1] == '"' ) { ++vb; --ve; } else if( ve - vb == 1 and a[vb] == '"' ) { ++vb; }
	auto const &x = args[0];
	CHECK( x.name.size( ) == ne - nb and ( ne == nb or x.name.data( ) == a.p + nb ) and x.value.size( ) == ve - vb and ( ve == vb or x.value.data( ) == a.p + vb ) );
	bool hn = ne > nb;
	auto fp = args.first_named_argument( ); CHECK( args.has_named_argument( ) == hn and fp.has_value( ) == hn and ( not hn or *fp == 0 ) );
	if( hn ) { auto v = args[sv( a.p + nb, ne - nb )]; CHECK( v and v->size( ) == ve - vb and *args.find_argument_position( x.name ) == 0 ); char o[2] = { static_cast<char>( a[nb] ^ 1 ), 0 }; CHECK( not args.find_argument_position( sv( o, 1 ) ) and not args[sv( o, 1 )] ); }
	daw::Arguments none( 0, argv ); CHECK( none.empty( ) and none.size( ) == 0 and none.program_name( ).empty( ) and not none.has_named_argument( ) );
	sym_reach( "end" );
}
//@ bounds: three strings of up to 2 characters
ENTRY concat( ) {
	LeakGuard g;
	{
	size_t n = sym_pick( "n", 0, 2 ), m = sym_pick( "m", 0, 2 ), k = sym_pick( "k", 0, 1 ); Arr<char> a( n, "a" ), b( m, "b" ), c( k, "c" );
	std::string s( a.begin( ), a.end( ) ); std::string const t( b.begin( ), b.end( ) ); std::string_view v( c.p, k );
	auto r = daw::string_concat( s, t, v, t );
	CHECK( r.size( ) == n + 2 * m + k and s.size( ) == n );
	for( size_t i = 0; i < r.size( ); ++i ) CHECK( r[i] == ( i < n ? a[i] : i < n + m ? b[i - n] : i < n + m + k ? c[i - n - m] : b[i - n - m - k] ) );
	}
	sym_reach( "end" );
}
//@ bounds: the entries above on BIG and BIG-1 elements, few distinct ones of which two are arbitrary
//@ q:BIG=17 t:BIG=33
ENTRY big_searching( ) { searching( ); }
//@ q:BIG=17 t:BIG=33
ENTRY big_splitting( ) { splitting( ); }
