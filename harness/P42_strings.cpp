#include "common.h"
#include "stdrt.h"
#include <daw/deprecated/daw_string.h>
#include <daw/deprecated/daw_string_split_range.h>
#include <daw/deprecated/daw_safe_string.h>
#include <string>
#include <vector>
namespace ds = daw::string;
using Str = std::string;

Str text( char const *name, size_t lo, size_t hi ) {
	size_t n = sym_pick( name, lo, hi );
	char buf[8];
	sym_bytes( buf, n, name );
	return Str( buf, n );
}
bool in_set( Str const &s, char c ) { bool r = false; for( char d : s ) r |= d == c; return r; }
bool eq_at( Str const &h, size_t i, Str const &n ) {
	if( i + n.size( ) > h.size( ) ) return false;
	bool r = true;
	for( size_t k = 0; k < n.size( ); ++k ) r &= h[i + k] == n[k];
	return r;
}
void part( Str const &r, Str const &t, size_t a, size_t b ) {
	CHECK( r.size( ) == b - a );
	for( size_t i = a; i < b; ++i ) CHECK( r[i - a] == t[i] );
}
template<typename R, typename F>
void pieces( R const &r, Str const &t, F is_delim ) {
	size_t at = 0, k = 0;
	for( ;; ) {
		size_t e = at;
		while( e < t.size( ) and not is_delim( t[e] ) ) ++e;
		CHECK( k < r.size( ) );
		part( r[k++], t, at, e );
		if( e == t.size( ) ) break;
		at = e + 1;
	}
	CHECK( k == r.size( ) );
}
//@ q:L=5 t:L=5
//@ bounds: texts of 0..5 (0..5) characters split at a character, a set of two characters or a predicate
ENTRY split_text( ) {
	Str t = text( "text", 0, sym_param( "L", 3 ) );
	char d = sym<char>( "delim" ), e = sym<char>( "delim2" );
	unsigned how = sym_pick( "how", 0, 2 );
	if( how == 0 ) pieces( ds::split( t, d ), t, [&]( char c ) { return c == d; } );
	if( how == 1 ) {
		Str set( 1, d );
		set.push_back( e );
		pieces( ds::split( t, set ), t, [&]( char c ) { return c == d or c == e; } );
	}
	if( how == 2 ) pieces( ds::split_if( t, [&]( char c ) { return c < d; } ), t, [&]( char c ) { return c < d; } );
	sym_reach( "split_text" );
}
//@ q:L=5 t:L=5
//@ bounds: texts of 0..5 (0..5) characters, sets of 0..2 characters to trim
ENTRY trim_text( ) {
	Str const t = text( "text", 0, sym_param( "L", 3 ) );
	bool dflt = sym_bool( "default_set" );
	Str set = dflt ? Str( " \f\n\r\t\v" ) : text( "set", 0, 2 );
	size_t a = 0, b = t.size( );
	while( a < t.size( ) and in_set( set, t[a] ) ) ++a;
	while( b > 0 and in_set( set, t[b - 1] ) ) --b;
	auto run = [&]( auto &&...s ) {
		{ Str x = t; ds::trim_left( x, s... ); part( x, t, a, t.size( ) ); }
		{ Str x = t; ds::trim_right( x, s... ); part( x, t, 0, b ); }
		{ Str x = t; ds::trim( x, s... ); part( x, t, a, a < b ? b : a ); }
		part( ds::trim_left_copy( t, s... ), t, a, t.size( ) );
		part( ds::trim_right_copy( t, s... ), t, 0, b );
		part( ds::trim_copy( t, s... ), t, a, a < b ? b : a );
		{ daw::String x( t ); daw::String &r = x.trim_left( s... ); CHECK( &r == &x ); part( x.to_string( ), t, a, t.size( ) ); }
		{ daw::String x( t ); daw::String &r = x.trim_right( s... ); CHECK( &r == &x ); part( x.to_string( ), t, 0, b ); }
		{ daw::String x( t ); daw::String &r = x.trim( s... ); CHECK( &r == &x ); part( x.to_string( ), t, a, a < b ? b : a ); }
	};
	if( dflt ) run( ); else run( set );
	sym_reach( "trim_text" );
}
//@ q:L=5 q:N=3 t:L=5 t:N=3
//@ bounds: texts of 0..5 (0..5) characters, endings and matches of 0..3 (0..3)
ENTRY ends_and_contains( ) {
	Str const t = text( "text", 0, sym_param( "L", 3 ) ), n = text( "needle", 0, sym_param( "N", 2 ) );
	bool has = false;
	for( size_t i = 0; i + n.size( ) <= t.size( ); ++i ) has |= eq_at( t, i, n );
	CHECK( ds::contains( t, n ) == has );
	CHECK( ds::in( n, t ) == has );
	CHECK( ds::ends_with( t, n ) == ( n.size( ) <= t.size( ) and eq_at( t, t.size( ) - n.size( ), n ) ) );
	char c = sym<char>( "c" );
	CHECK( ds::ends_with( t, c ) == ( not t.empty( ) and t[t.size( ) - 1] == c ) );
	CHECK( ds::in( c, t ) == in_set( t, c ) );
	sym_reach( "ends_and_contains" );
}
//@ q:L=4 q:N=2 q:R=3 t:L=4 t:N=2 t:R=3
//@ bounds: texts of 0..4 (0..4) characters, search text of 0..2, replacement of 0..3 (0..3)
ENTRY replace_text( ) {
	Str const t = text( "text", 0, sym_param( "L", 3 ) ), n = text( "needle", 0, sym_param( "N", 2 ) ), r = text( "repl", 0, sym_param( "R", 2 ) );
	for( char c : n ) sym_assume( c != 0 );
	for( char c : r ) sym_assume( c != 0 );
	Str want;
	for( size_t i = 0; i < t.size( ); ) {
		if( not n.empty( ) and eq_at( t, i, n ) ) { want += r; i += n.size( ); }
		else want.push_back( t[i++] );
	}
	Str x = t;
	ds::search_replace( x, n.c_str( ), r.c_str( ) );
	part( x, want, 0, want.size( ) );
	part( ds::search_replace_copy( t, n.c_str( ), r.c_str( ) ), want, 0, want.size( ) );
	daw::String y( t );
	y.search_replace( n.c_str( ), r.c_str( ) );
	part( y.to_string( ), want, 0, want.size( ) );
	sym_reach( "replace_text" );
}
//@ bounds: joining two to four pieces of 0..2 characters
ENTRY join_text( ) {
	Str const a = text( "a", 0, 2 ), b = text( "b", 0, 2 ), c = text( "c", 0, 1 ), d = text( "d", 0, 1 );
	Str ab = a; ab += b;
	Str abc = ab; abc += c;
	Str abcd = abc; abcd += d;
	CHECK( ds::string_join( a ) == a );
	CHECK( ds::string_join( a, b ) == ab );
	CHECK( ds::string_join( a, b, c ) == abc );
	CHECK( ds::string_join( a, b, c, d ) == abcd );
	CHECK( ds::to_string( a ) == a );
	char z[3] = { };
	for( size_t i = 0; i < a.size( ); ++i ) { sym_assume( a[i] != 0 ); z[i] = a[i]; }
	CHECK( ds::to_string( static_cast<char const *>( z ) ) == a );
	CHECK( ds::to_string( z ) == a );
	sym_reach( "join_text" );
}
static void pieces_( daw::string_split_range<char> r, char const *t, size_t tn, char const *d, size_t dn ) {
	auto at_ = [&]( size_t f ) { for( size_t i = 0; i < dn; ++i ) if( t[f + i] != d[i] ) return false; return true; };
	auto it = r.begin( ), e = r.end( );
	size_t at = 0;
	for( ;; ) {
		size_t f = at;
		while( f + dn <= tn and not at_( f ) ) ++f;
		bool found = f + dn <= tn;
		size_t pe = found ? f : tn;
		CHECK( it != e and not( it == e ) );
		CHECK( ( *it ).data( ) == t + at and ( *it ).size( ) == pe - at );
		auto was = it;
		CHECK( was == it and not( was != it ) );
		if( sym_bool( "post" ) ) {
			auto old = it++;
			CHECK( old == was );
		} else {
			auto &x = ++it;
			CHECK( &x == &it );
		}
		if( not found ) break;
		CHECK( it != was );
		at = f + dn;
	}
	CHECK( it == e );
	CHECK( r.cbegin( ) == r.begin( ) and r.cend( ) == r.end( ) );
}
//@ q:L=5 q:D=2 t:L=5 t:D=2
//@ bounds: iterating over the pieces of a text of 0..5 (0..5) characters with a delimiter of 1..2
ENTRY split_range( ) {
	Str const t = text( "text", 0, sym_param( "L", 3 ) );
	Str d = text( "delim", 1, sym_param( "D", 2 ) );
	using SV = daw::sv1::string_view;
	unsigned how = sym_pick( "how", 0, 2 );
	daw::string_split_range<char> r = how == 0 ? daw::split_string( SV( t.data( ), t.size( ) ), SV( d.data( ), d.size( ) ) )
	                                : how == 1 ? daw::split_string( t, SV( d.data( ), d.size( ) ) )
	                                           : daw::split_string( t, d );
	pieces_( r, t.data( ), t.size( ), d.data( ), d.size( ) );
	CHECK( daw::string_split_range<char>( ).begin( ) == daw::string_split_range<char>( ).end( ) );
	sym_reach( "split_range" );
}
template<size_t M>
static void literal_split_( ) {
	char d[M + 1] = { }, t[4] = { };
	for( size_t i = 0; i < M; ++i ) { d[i] = sym<char>( "d" ); sym_assume( d[i] != 0 ); }
	for( size_t i = 0; i < 3; ++i ) { t[i] = sym<char>( "t" ); sym_assume( t[i] != 0 ); }
	switch( sym_pick( "how", 0, 2 ) ) {
	case 0: pieces_( daw::split_string( t, d ), t, 3, d, M ); break;
	case 1: { size_t n = sym_pick( "n", 0, 3 ); pieces_( daw::split_string( daw::sv2::string_view( t, n ), d ), t, n, d, M ); } break;
	default: { size_t n = sym_pick( "n", 0, 3 ); pieces_( daw::split_string( daw::sv1::string_view( t, n ), d ), t, n, d, M ); } break;
	}
	sym_reach( "end" );
}
//@ bounds: texts of <=3 characters given as a literal or view, delimiters given as a literal of 1 or 2
ENTRY split_literal( ) { if( sym_bool( "long" ) ) literal_split_<2>( ); else literal_split_<1>( ); }
struct Mask {
	char from = 'a', to = 'b';
	Str operator( )( Str s ) const { for( char &c : s ) if( c == from ) c = to; return s; }
};
//@ bounds: texts of 0..3 characters
ENTRY sanitised( ) {
	Str const t = text( "text", 0, 3 ), u = text( "other", 0, 2 );
	Mask m{ sym<char>( "from" ), sym<char>( "to" ) };
	daw::safe_string<Mask> s( t, m );
	Str want = t;
	for( char &c : want ) if( c == m.from ) c = m.to;
	CHECK( s.get( ) == want );
	CHECK( static_cast<Str>( s ) == want );
	CHECK( s.unsafe_get( ) == t );
	auto c = s;
	s = u;
	CHECK( c.get( ) == want and s.unsafe_get( ) == u );
	CHECK( s.get( ) == m( u ) );
	CHECK( daw::make_safe_string( t, Mask( m ) ).get( ) == want );
	char z[4] = { };
	for( size_t i = 0; i < t.size( ); ++i ) { sym_assume( t[i] != 0 ); z[i] = t[i]; }
	CHECK( daw::safe_string<Mask>( static_cast<char const *>( z ), m ).get( ) == want );
	CHECK( daw::make_safe_string( static_cast<char const *>( z ), Mask( m ) ).get( ) == want );
	sym_reach( "sanitised" );
}
