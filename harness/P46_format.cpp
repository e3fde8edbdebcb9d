// ranges, tuples and string views put into formatted text and printed
//@ bounds: ranges of <=3 elements, symbolic element values of one or two digits, separators and brackets of <=2 characters
#include "stdrt.h"
#include "common.h"
#include <array>
#include <cstdio>
#include <list>
#include <string>
#include <tuple>
#include <utility>
#include <vector>
static std::string out_text; static FILE *out_file;
static char the_stdout;
#undef stdout
#define stdout reinterpret_cast<FILE *>( &the_stdout )
namespace std {
	static size_t rec_fwrite( void const *p, size_t sz, size_t n, FILE *f ) { out_file = f; out_text.append( static_cast<char const *>( p ), sz * n ); return n; }
	static int rec_putchar( int c ) { out_file = stdout; out_text += static_cast<char>( c ); return c; }
} // namespace std
#define fwrite rec_fwrite
#define putchar rec_putchar
#include <daw/daw_print.h>
#include <daw/pipelines/print.h>
#undef fwrite
#undef putchar
#include <daw/daw_format_string_view.h>
static std::string num( int v, int w = 0, char fill = ' ', int base = 10 ) {
	std::string r, d; bool neg = v < 0; if( neg ) v = -v;
	do { d.insert( d.begin( ), "0123456789abcdef"[v % base] ); v /= base; } while( v );
	if( fill == '0' ) { if( neg ) r += '-'; while( static_cast<int>( r.size( ) + d.size( ) ) < w ) r += '0'; return r + d; }
	if( neg ) d = "-" + d;
	while( static_cast<int>( r.size( ) + d.size( ) ) < w ) r += fill;
	return r + d;
}
static std::string lit( char const *n ) { std::string s; int k = sym_pick( n, 0, 2 ); for( int i = 0; i < k; ++i ) s += static_cast<char>( sym_range<int>( "c", 32, 126 ) ); return s; }
static std::vector<int> vals( char const *n, int most, int lo, int hi ) { std::vector<int> v; int k = sym_pick( n, 0, most ); for( int i = 0; i < k; ++i ) v.push_back( sym_range<int>( "x", lo, hi ) ); return v; }
template<typename R, typename F>
static std::string joined( R const &r, F f, std::string const &sep = ",", std::string const &l = "[", std::string const &rr = "]" ) {
	std::string e = l; bool first = true;
	for( auto const &x : r ) { if( not first ) e += sep; first = false; e += f( x ); }
	return e + rr;
}
static auto plain = []( int x ) { return num( x ); };
//@ q:n=2 t:n=3,lo=-12
ENTRY ranges( ) {
	auto v = vals( "n", sym_param( "n", 2 ), sym_param( "lo", -2 ), 12 );
	switch( sym_pick( "f", 0, 4 ) ) {
	case 0: CHECK( std::format( "{}", daw::fmt_range( v ) ) == joined( v, plain ) ); break;
	case 1: CHECK( std::format( "<{:04}>{}", daw::fmt_range( v ), 7 ) == "<" + joined( v, []( int x ) { return num( x, 4, '0' ); } ) + ">7" ); break;
	case 2: CHECK( std::format( "{}{:>4}{}", 1, daw::fmt_range( v ), 2 ) == "1" + joined( v, []( int x ) { return num( x, 4 ); } ) + "2" ); break;
	case 3: CHECK( std::format( "{1:x}{0}", 5, daw::fmt_range( v ) ) == joined( v, []( int x ) { return num( x, 0, ' ', 16 ); } ) + "5" ); break;
	default: { std::list<int> l( v.begin( ), v.end( ) ); CHECK( std::format( "{0}{0:3}", daw::fmt_range( l ) ) == joined( v, plain ) + joined( v, []( int x ) { return num( x, 3 ); } ) ); } break;
	}
	sym_reach( "end" );
}
ENTRY separators( ) {
	auto v = vals( "n", 2, -3, 12 );
	auto s = lit( "s" );
	if( sym_bool( "all" ) ) {
		auto l = lit( "l" ), r = lit( "r" );
		CHECK( std::format( "{}", daw::fmt_range( v, s.c_str( ), l.c_str( ), r.c_str( ) ) ) == joined( v, plain, s, l, r ) );
	} else CHECK( std::format( "{:3}", daw::fmt_range( v, s.c_str( ) ) ) == joined( v, []( int x ) { return num( x, 3 ); }, s ) );
	sym_reach( "end" );
}
//@ q:n=1,lo=-1,hi=10 t:n=2,lo=-9,hi=11
ENTRY nested( ) {
	int lo = sym_param( "lo", -1 ), hi = sym_param( "hi", 10 );
	switch( sym_pick( "f", 0, 3 ) ) {
	case 0: { std::vector<std::vector<int>> v; int n = sym_pick( "n", 0, 2 ); for( int i = 0; i < n; ++i ) v.push_back( vals( "m", sym_param( "n", 1 ), lo, hi ) ); CHECK( std::format( "{:03}", daw::fmt_range( v, ";" ) ) == joined( v, []( auto const &w ) { return joined( w, []( int x ) { return num( x, 3, '0' ); } ); }, ";" ) ); } break;
	case 1: { std::vector<std::tuple<int, int>> v; int n = sym_pick( "n", 0, 2 ); for( int i = 0; i < n; ++i ) v.emplace_back( sym_range<int>( "x", lo, hi ), sym_range<int>( "y", 0, 9 ) ); CHECK( std::format( "{:2}", daw::fmt_range( v ) ) == joined( v, []( auto const &t ) { return "[" + num( std::get<0>( t ), 2 ) + "," + num( std::get<1>( t ), 2 ) + "]"; } ) ); } break;
	case 2: { std::vector<std::string> v; int n = sym_pick( "n", 0, 2 ); for( int i = 0; i < n; ++i ) v.push_back( lit( "t" ) ); CHECK( std::format( "{}", daw::fmt_range( v ) ) == joined( v, []( auto const &t ) { return t; } ) ); } break;
	default: { auto t = lit( "t" ); std::vector<char> v( t.begin( ), t.end( ) ); CHECK( std::format( "{}|{}", daw::fmt_range( t ), daw::fmt_range( v ) ) == t + "|" + t ); } break;
	}
	sym_reach( "end" );
}
//@ q:lo=-1,hi=10 t:lo=-12,hi=20
ENTRY tuples( ) {
	int a = sym_range<int>( "a", sym_param( "lo", -1 ), sym_param( "hi", 10 ) ), b = sym_range<int>( "b", 0, sym_param( "hi", 10 ) ), c = sym_range<int>( "c", -3, 3 );
	switch( sym_pick( "f", 0, 5 ) ) {
	case 0: { std::tuple<int, int, int> t{ a, b, c }; CHECK( std::format( "{}", daw::fmt_tuple( t ) ) == "[" + num( a ) + "," + num( b ) + "," + num( c ) + "]" ); } break;
	case 1: { std::pair<int, unsigned> t{ a, static_cast<unsigned>( b ) }; CHECK( std::format( "{:03}{}", daw::fmt_tuple( t ), c ) == "[" + num( a, 3, '0' ) + "," + num( b, 3, '0' ) + "]" + num( c ) ); } break;
	case 2: { std::tuple<int, int> t{ a, b }; auto s = lit( "s" ); CHECK( std::format( "{}", daw::fmt_tuple( t, s.c_str( ) ) ) == "[" + num( a ) + s + num( b ) + "]" ); } break;
	case 3: { std::tuple<int, int> t{ c, b }; auto s = lit( "s" ), l = lit( "l" ), r = lit( "r" ); CHECK( std::format( "{:3}", daw::fmt_tuple( t, s.c_str( ), l.c_str( ), r.c_str( ) ) ) == l + num( c, 3 ) + s + num( b, 3 ) + r ); } break;
	case 4: { std::tuple<int> t{ a }; CHECK( std::format( "{1:>4}{0}{1}", c, daw::fmt_tuple( t ) ) == "[" + num( a, 4 ) + "]" + num( c ) + "[" + num( a ) + "]" ); } break;
	default: { std::array<int, 2> t{ a, b }; std::tuple<> e{ }; CHECK( std::format( "{}{}", daw::fmt_tuple( t ), daw::fmt_tuple( e ) ) == "[" + num( a ) + "," + num( b ) + "][]" ); } break;
	}
	sym_reach( "end" );
}
ENTRY views( ) {
	auto t = lit( "t" ); std::string back = t + "##"; daw::string_view sv( back.data( ), t.size( ) );
	switch( sym_pick( "f", 0, 2 ) ) {
	case 0: CHECK( std::format( "<{}>", sv ) == "<" + t + ">" ); break;
	case 1: { int p = 4 - static_cast<int>( t.size( ) ); CHECK( std::format( "{:>4}|{:4}|{:*^4}", sv, sv, sv ) == std::string( p, ' ' ) + t + "|" + t + std::string( p, ' ' ) + "|" + std::string( p / 2, '*' ) + t + std::string( p - p / 2, '*' ) ); } break;
	default: CHECK( std::format( "{:.1}|{}", sv, 3 ) == t.substr( 0, 1 ) + "|3" ); break;
	}
	std::vector<int> v{ 1, 2 }; std::tuple<int, int> tp{ 3, 4 };
	static_assert( daw::Range<std::vector<int>> );
	CHECK( std::format( "{}{}{}", daw::fmt_any( 5 ), daw::fmt_any( v ), daw::fmt_any( tp ) ) == "5[1,2][3,4]" );
	sym_reach( "end" );
}
ENTRY printing( ) {
	int a = sym_range<int>( "a", -12, 12 ); auto t = lit( "t" ); auto A = num( a );
	out_text.clear( ); out_file = nullptr; char fake; FILE *f = reinterpret_cast<FILE *>( &fake ); FILE *want = stdout; std::string e;
	switch( sym_pick( "f", 0, 11 ) ) {
	case 0: daw::print( f, "{}-{}", a, t ); want = f; e = A + "-" + t; break;
	case 1: daw::print( "{}-{}", a, t ); e = A + "-" + t; break;
	case 2: daw::println( f, "{1}-{0}", a, t ); want = f; e = t + "-" + A + "\n"; break;
	case 3: daw::println( "{}-{}", a, t ); e = A + "-" + t + "\n"; break;
	case 4: daw::println( ); e = "\n"; break;
	case 5: daw::vprint( f, "{}-{}", a, t ); want = f; e = A + "-" + t; break;
	case 6: daw::vprint( "{}-{}", a, t ); e = A + "-" + t; break;
	case 7: daw::vprintln( f, "{}-{}", a, std::string( t ) ); want = f; e = A + "-" + t + "\n"; break;
	case 8: daw::vprintln( "{}-{}", a, t ); e = A + "-" + t + "\n"; break;
	case 9: daw::dump( a, t ); e = A + " " + t + " \n"; break;
	case 10: daw::dump( a ); e = A + " \n"; break;
	default: { std::vector<int> v{ a, 3 }; daw::println( "{:4}", daw::fmt_range( v ) ); e = "[" + num( a, 4 ) + ",   3]\n"; } break;
	}
	CHECK( out_file == want and out_text == e );
	{
		out_text.clear( );
		std::vector<int> v{ a, 3 };
		auto &&back = daw::pipelines::Print( v );
		CHECK( &back == &v and out_text == "[" + A + ",3]\n" );
		std::tuple<int, int> tp{ 2, a };
		out_text.clear( );
		auto &&bt = daw::pipelines::Print( tp );
		CHECK( &bt == &tp and out_text == "[2," + A + "]\n" );
		out_text.clear( );
		auto &&bi = daw::pipelines::Print( a );
		CHECK( &bi == &a and out_text == A + "\n" );
	}
	sym_reach( "end" );
}
