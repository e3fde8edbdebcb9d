#include "common.h"
#include "stdrt.h"
#include <limits>
#include <string>
#include <daw/daw_from_string.h>
#include <daw/daw_parse_to.h>
#include <daw/daw_parser_addons.h>
#include <daw/daw_parser_helper.h>
#include <daw/daw_parser_helper_sv.h>

namespace pr = daw::parser;
using sv = daw::string_view;
using i128 = __int128;
// what the text [p, p + n) spells: sign digits+, nothing else
struct Spelled { bool ok; i128 v; };
static Spelled spell( char const *p, size_t n, bool sign ) {
	size_t i = 0; bool neg = false;
	if( sign and n > 0 and p[0] == '-' ) { neg = true; i = 1; }
	if( i == n ) return { false, 0 };
	i128 v = 0;
	for( ; i < n; ++i ) {
		uint8_t d = static_cast<uint8_t>( p[i] - '0' );
		if( d > 9 ) return { false, 0 };
		v = v * 10 + d;
	}
	return { true, neg ? -v : v };
}
template<typename T>
static bool fits( Spelled s ) { return s.ok and s.v >= static_cast<i128>( std::numeric_limits<T>::min( ) ) and s.v <= static_cast<i128>( std::numeric_limits<T>::max( ) ); }
// must_accept: largest length for which an in-range number may not be refused
template<typename T, typename F>
static void exact( F parse, size_t n, size_t must_accept ) {
	Arr<char> a( n, "a" );
	Spelled s = spell( a.p, n, std::is_signed_v<T> );
	bool got = false; T v{ };
	try { v = parse( sv( a.p, n ) ); got = true; } catch( ... ) {}
	if( got ) CHECK( fits<T>( s ) and static_cast<i128>( v ) == s.v );
	else CHECK( not fits<T>( s ) or n > must_accept );
	sym_reach( got ? "accepted" : "refused" );
}
struct Whole { struct R { size_t first, last; }; R operator( )( sv ) const { return { NPOS, NPOS }; } };
template<typename T>
static T pt( sv s ) { return std::get<0>( pr::parse_to<T>( s, Whole{ } ) ); }
//@ q:n=5 t:n=5
//@ bounds: every text of up to n characters, 8 bit results
ENTRY parse_to_i8( ) { exact<int8_t>( pt<int8_t>, sym_pick( "n", 0, sym_param( "n", 4 ) ), 7 ); }
//@ q:n=5 t:n=5
//@ bounds: every text of up to n characters, 8 bit results
ENTRY parse_to_u8( ) { exact<uint8_t>( pt<uint8_t>, sym_pick( "n", 0, sym_param( "n", 4 ) ), 8 ); }
//@ q:n=6 t:n=6
//@ bounds: every text of up to n characters, 16 bit results
ENTRY parse_to_i16( ) { exact<int16_t>( pt<int16_t>, sym_pick( "n", 0, sym_param( "n", 6 ) ), 15 ); }
// numbers that differ from a limit of the type (or one digit more or less than it) in up to w neighbouring digits, at most back places (99: anywhere) before the last
template<typename T, typename F>
static void wide( F parse, size_t must_accept ) {
	constexpr bool S = std::is_signed_v<T>;
	auto const base = static_cast<unsigned>( sym_pick( "base", 0, 3 ) );
	bool const neg = S and ( base == 1 or ( base >= 2 and sym_bool( "neg" ) ) );
	char d[24]; size_t n = 0; // digits of the base
	{
		unsigned __int128 v = static_cast<unsigned __int128>( std::numeric_limits<T>::max( ) ) + ( base == 1 ? 1u : 0u );
		char t[24]; size_t k = 0; while( v ) { t[k++] = static_cast<char>( '0' + static_cast<int>( v % 10 ) ); v /= 10; }
		while( k ) d[n++] = t[--k];
		if( base == 2 ) d[n++] = '0';
		if( base == 3 ) { for( size_t i = 0; i + 1 < n; ++i ) d[i] = '9'; --n; }
	}
	size_t const w = sym_param( "w", 2 ), at = n - w - sym_pick( "at", 0, sym_param( "back", 4 ) == 99 ? n - w : sym_param( "back", 4 ) );
	Arr<char> a( n + neg, "a" );
	if( neg ) a[0] = '-';
	// value modulo 2^bits, and the order against the limit decided digit by digit
	using U = std::make_unsigned_t<T>;
	char lim[24]; size_t ln = 0;
	{
		unsigned __int128 v = static_cast<unsigned __int128>( std::numeric_limits<T>::max( ) ) + ( neg ? 1u : 0u );
		char t[24]; size_t k = 0; while( v ) { t[k++] = static_cast<char>( '0' + static_cast<int>( v % 10 ) ); v /= 10; }
		while( k ) lim[ln++] = t[--k];
	}
	U v = 0; bool above = false, same = n == ln;
	for( size_t i = 0; i < n; ++i ) {
		char c = ( i >= at and i < at + w ) ? static_cast<char>( sym_range<uint8_t>( "digit", '0', '9' ) ) : d[i];
		a[i + neg] = c;
		U dg = static_cast<U>( c - '0' ); v = static_cast<U>( neg ? v * 10 - dg : v * 10 + dg );
		if( n == ln ) { above = above | ( same & ( c > lim[i] ) ); same = same & ( c == lim[i] ); }
	}
	bool fit = n < ln or ( n == ln and not above );
	if( n > ln ) { bool z = true; for( size_t i = 0; i < n - ln; ++i ) z = z & ( a[i + neg] == '0' ); bool ab = false, sm = true; for( size_t i = 0; i < ln; ++i ) { char c = a[i + neg + n - ln]; ab = ab | ( sm & ( c > lim[i] ) ); sm = sm & ( c == lim[i] ); } fit = z & not ab; }
	bool got = false; T r{ };
	try { r = parse( sv( a.p, n + neg ) ); got = true; } catch( ... ) {}
	if( got ) CHECK( fit and static_cast<U>( r ) == v );
	else CHECK( not fit or n > must_accept );
	sym_reach( got ? "accepted" : "refused" );
}
//@ q:w=2,back=3 t:w=2,back=8
//@ bounds: 32 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY parse_to_i32( ) { wide<int32_t>( pt<int32_t>, 31 ); }
//@ q:w=2,back=8 t:w=2,back=8
//@ bounds: 32 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY parse_to_u32( ) { wide<uint32_t>( pt<uint32_t>, 32 ); }
//@ q:w=2,back=3 t:w=2,back=8
//@ bounds: 64 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY parse_to_i64( ) { wide<int64_t>( pt<int64_t>, 63 ); }
//@ q:w=2,back=7 t:w=2,back=8
//@ bounds: 64 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY parse_to_u64( ) { wide<uint64_t>( pt<uint64_t>, 64 ); }
template<typename T>
static T fs( sv s ) { auto r = daw::from_string( daw::tag<T>, s ); if( not r ) throw 1; return *r; }
//@ q:n=5 t:n=5
//@ bounds: every text of up to n characters, 8 bit results
ENTRY from_string_8( ) { if( sym_bool( "u" ) ) exact<uint8_t>( fs<uint8_t>, sym_pick( "n", 0, sym_param( "n", 4 ) ), 99 ); else exact<int8_t>( fs<int8_t>, sym_pick( "n", 0, sym_param( "n", 4 ) ), 99 ); }
//@ q:w=2,back=3 t:w=2,back=8
//@ bounds: 32 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY from_string_32( ) { if( sym_bool( "u" ) ) wide<uint32_t>( fs<uint32_t>, 99 ); else wide<int32_t>( fs<int32_t>, 99 ); }
//@ bounds: every text of up to 3 characters as strings
ENTRY from_string_text( ) {
	size_t n = sym_pick( "n", 0, 3 ); Arr<char> a( n, "a" );
	auto r = daw::from_string( daw::tag<sv>, sv( a.p, n ) ); CHECK( r and r->data( ) == a.p and r->size( ) == n );
	auto s = daw::from_string( daw::tag<std::string>, sv( a.p, n ) ); CHECK( s and s->size( ) == n ); for( size_t i = 0; i < n; ++i ) CHECK( ( *s )[i] == a[i] );
	sym_reach( "end" );
}
template<typename T>
static T pu( sv s ) { switch( sym_pick( "form", 0, 1 ) ) { case 0: return pr::parse_unsigned_int<T>( s.begin( ), s.end( ) ); default: return pr::parse_unsigned_int<T>( s ); } }
template<typename T>
static T pi( sv s ) { switch( sym_pick( "form", 0, 1 ) ) { case 0: return pr::parse_int<T>( s.begin( ), s.end( ) ); default: return pr::parse_int<T>( s ); } }
//@ q:n=5 t:n=5
//@ bounds: every text of up to n characters, 8 bit and 16 bit results
ENTRY addons_small( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 4 ) );
	switch( sym_pick( "t", 0, 3 ) ) {
	case 0: exact<uint8_t>( pu<uint8_t>, n, 2 ); break;
	case 1: exact<uint8_t>( pi<uint8_t>, n, 2 ); break;
	case 2: exact<int8_t>( pi<int8_t>, n, 2 ); break;
	default: exact<int16_t>( pi<int16_t>, n, 4 ); break;
	}
}
//@ q:w=2,back=5 t:w=2,back=8
//@ bounds: 32 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY addons_32( ) { if( sym_bool( "u" ) ) wide<uint32_t>( pu<uint32_t>, 9 ); else wide<int32_t>( pi<int32_t>, 9 ); }
//@ q:w=2,back=4 t:w=2,back=8
//@ bounds: 64 bit results: every number that differs from a limit of the type, or from a number one digit longer or shorter, in up to w neighbouring digits, at most back places (99: anywhere) before the last
ENTRY addons_64( ) { if( sym_bool( "u" ) ) wide<uint64_t>( pu<uint64_t>, 19 ); else wide<int64_t>( pi<int64_t>, 18 ); }
//@ bounds: every zero terminated text of up to 4 characters
ENTRY addons_cstr( ) {
	size_t n = sym_pick( "n", 0, 4 ); Arr<char> a( n + 1, "a" );
	for( size_t i = 0; i < n; ++i ) sym_assume( a[i] != 0 );
	a[n] = 0;
	Spelled s = spell( a.p, n, false ); bool got = false; uint32_t v = 0;
	try { v = pr::parse_unsigned_int<uint32_t>( daw::not_null<char const *>( a.p ) ); got = true; } catch( ... ) {}
	CHECK( got == s.ok ); if( got ) CHECK( v == static_cast<uint32_t>( s.v ) );
	sym_reach( "end" );
}
//@ q:n=6 t:n=6
//@ bounds: every text of up to n characters
ENTRY number_search( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 4 ) ); Arr<char> a( n, "a" );
	auto dig = []( char c ) { return c >= '0' and c <= '9'; };
	size_t f = 0; while( f < n and not( dig( a[f] ) or a[f] == '-' ) ) ++f;
	bool got = false; size_t b = 0, e = 0;
	try { auto r = pr::find_number( a.begin( ), a.end( ) ); got = true; b = static_cast<size_t>( r.first - a.p ); e = static_cast<size_t>( r.last - a.p ); CHECK( r.found ); } catch( ... ) {}
	CHECK( got == ( f < n ) );
	if( got ) {
		size_t l = f + 1; bool dot = false;
		while( l < n and ( dig( a[l] ) or ( a[l] == '.' and not dot ) ) ) { if( a[l] == '.' ) dot = true; ++l; }
		CHECK( b == f and e == l );
	}
	sym_reach( "end" );
}
//@ q:n=6 t:n=6
//@ bounds: every text of up to n characters: quoted text
ENTRY quoted( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 5 ) ); Arr<char> a( n, "a" );
	size_t e = 1; while( e < n and not( a[e] == '"' and ( e == 1 or a[e - 1] != '\\' ) ) ) ++e;
	bool ok = n >= 2 and a[0] == '"' and e < n;
	bool got = false; sv r;
	try { r = std::get<0>( pr::parse_to<sv>( sv( a.p, n ), Whole{ } ) ); got = true; } catch( ... ) {}
	CHECK( got == ok ); if( got ) CHECK( r.data( ) == a.p + 1 and r.size( ) == e - 1 );
	sym_reach( got ? "text" : "refused" );
}
//@ bounds: every text of up to 5 characters: quoted literals after white space
ENTRY literal( ) {
	size_t n = sym_pick( "n", 0, 5 ); Arr<char> a( n, "a" );
	size_t b = 0; while( b < n and pr::is_unicode_whitespace( a[b] ) ) ++b;
	size_t e = b + 1; while( e < n and not( a[e] == '"' and a[e - 1] != '\\' ) ) ++e;
	bool ok = b < n and a[b] == '"' and e < n;
	bool got = false; char *f = nullptr, *l = nullptr;
	try { auto r = pr::parse_string_literal( a.begin( ), a.end( ) ); got = r.found; f = r.first; l = r.last; } catch( ... ) {}
	CHECK( got == ok ); if( got ) CHECK( f == a.p + b + 1 and l == a.p + e );
	sym_reach( got ? "text" : "refused" );
}
struct Dst { sv a, b; };
using UV = pr::converters::unquoted_string_view;
//@ q:n=6 t:n=6
//@ bounds: every text of up to n characters, delimiters of one and two characters and white space, three fields
ENTRY fields( ) {
	size_t n = sym_pick( "n", 0, sym_param( "n", 5 ) ); Arr<char> a( n, "a" );
	unsigned m = static_cast<unsigned>( sym_pick( "mode", 0, 4 ) );
	char d[2] = { static_cast<char>( sym_u8( "d0" ) ), static_cast<char>( sym_u8( "d1" ) ) };
	sv const str( a.p, n );
	// reference splitting
	size_t fb[3], fe[3], p = 0;
	for( int k = 0; k < 3; ++k ) {
		size_t q = p, skip = 0;
		for( ; q < n; ++q ) {
			if( m == 0 and a[q] == d[0] ) { skip = 1; break; }
			if( m == 1 and q + 1 < n and a[q] == d[0] and a[q + 1] == d[1] ) { skip = 2; break; }
			if( m == 4 and a[q] == ' ' ) { skip = 1; break; }
			if( ( m == 2 or m == 3 ) and pr::is_unicode_whitespace( a[q] ) ) { skip = 1; if( m == 2 ) while( q + skip < n and pr::is_unicode_whitespace( a[q + skip] ) ) ++skip; break; }
		}
		fb[k] = p; fe[k] = q; p = q + skip;
	}
	bool ok = fe[0] > fb[0] and fe[1] > fb[1] and fe[2] > fb[2], got = false;
	auto same = [&]( sv s, int k ) { return s.size( ) == fe[k] - fb[k] and s.data( ) == a.p + fb[k]; };
	try {
		auto chk = [&]( auto const &t ) { got = true; CHECK( same( std::get<0>( t ), 0 ) and same( std::get<1>( t ), 1 ) and same( std::get<2>( t ), 2 ) ); };
		switch( m ) {
		case 0: chk( pr::parse_to<UV, UV, UV>( str, sv( d, 1 ) ) ); break;
		case 1: chk( pr::parse_to<UV, UV, UV>( str, pr::default_splitter{ sv( d, 2 ) } ) ); break;
		case 2: chk( pr::parse_to<UV, UV, UV>( str, pr::whitespace_splitter{ } ) ); break;
		case 3: chk( pr::parse_to<UV, UV, UV>( str, pr::single_whitespace_splitter{ } ) ); break;
		default: chk( pr::parse_to<UV, UV, UV>( str ) ); break;
		}
	} catch( ... ) {}
	CHECK( got == ok );
	sym_reach( got ? "fields" : "refused" );
}
struct XY { int32_t a; char b; uint32_t c; };
//@ bounds: texts of the form digit, any character, two digits with a symbolic delimiter
ENTRY constructing( ) {
	char a[6]; char d = static_cast<char>( sym_u8( "d" ) );
	a[0] = static_cast<char>( sym_range<uint8_t>( "x", '0', '9' ) ); a[1] = d; a[2] = static_cast<char>( sym_u8( "c" ) ); a[3] = d; a[4] = static_cast<char>( sym_range<uint8_t>( "y", '0', '9' ) ); a[5] = static_cast<char>( sym_range<uint8_t>( "z", '0', '9' ) );
	sym_assume( not( d >= '0' and d <= '9' ) and d != '-' and a[2] != d );
	sv s( a, 6 ), dl( &d, 1 ); int32_t x = a[0] - '0'; uint32_t yz = static_cast<uint32_t>( a[4] - '0' ) * 10u + static_cast<uint32_t>( a[5] - '0' );
	auto same = [&]( XY const &r ) { return r.a == x and r.b == a[2] and r.c == yz; };
	auto f = []( int32_t p, char q, uint32_t r ) { return XY{ p, q, r }; };
	switch( sym_pick( "form", 0, 4 ) ) {
	case 0: CHECK( same( daw::construct_from<XY, int32_t, char, uint32_t>( s, dl ) ) ); break;
	case 1: CHECK( same( daw::apply_string2( f, s, dl ) ) ); break;
	case 2: CHECK( same( daw::apply_string<int32_t, char, uint32_t>( f, s, dl ) ) ); break;
	case 3: { auto t = pr::parse_to<int32_t, char, uint32_t>( s, dl ); CHECK( std::get<0>( t ) == x and std::get<1>( t ) == a[2] and std::get<2>( t ) == yz ); } break;
	default: { struct S { std::string st; std::string str( ) const { return st; } } st{ std::string( a, 6 ) }; auto t = daw::values_from_stream<int32_t, char, uint32_t>( st, dl ); CHECK( std::get<0>( t ) == x and std::get<1>( t ) == a[2] and std::get<2>( t ) == yz ); } break;
	}
	sym_reach( "end" );
}
