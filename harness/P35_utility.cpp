// daw_utility: small helpers against the obvious definition
//@ bounds: scalars complete; sequences of <=3..6 elements
#include "stdrt.h"
#include "common.h"
#include <daw/daw_utility.h>
#include <daw/daw_data_end.h>
#include <daw/daw_logic.h>
#include <daw/daw_to_underlying_type.h>
#include <daw/daw_cx_offset_of.h>
#include <list>

extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;

namespace {
	template<typename T>
	std::size_t ones( T v ) {
		std::size_t n = 0;
		auto u = static_cast<std::make_unsigned_t<T>>( v );
		for( unsigned i = 0; i < sizeof( T ) * 8; ++i ) {
			n += static_cast<std::size_t>( ( u >> i ) & 1u );
		}
		return n;
	}
	template<typename T>
	void bits( ) {
		T const a = sym<T>( "a" );
		CHECK( daw::bitcount( a ) == ones( a ) );
	}
	char digit( unsigned n, bool lower ) {
		return static_cast<char>( n < 10 ? '0' + n : ( lower ? 'a' : 'A' ) + ( n - 10 ) );
	}
	struct Three {
		unsigned char b[3];
	};
} // namespace

ENTRY bit_counts( ) {
	bits<uint8_t>( );
	bits<int8_t>( );
	bits<uint16_t>( );
	bits<int32_t>( );
	bits<uint32_t>( );
	bits<int64_t>( );
	bits<uint64_t>( );
	uint8_t const a = sym<uint8_t>( "x" );
	int16_t const b = sym<int16_t>( "y" );
	CHECK( daw::bitcount( a, b ) == ones( a ) + ones( b ) );
	CHECK( daw::bitcount( a, b, a ) == 2 * ones( a ) + ones( b ) );
}
ENTRY hex_digits( ) {
	bool const lower = sym<bool>( "lower" );
	char const c = sym<char>( "c" );
	unsigned const u = static_cast<unsigned char>( c );
	char out[3] = { 'x', 'x', 'x' };
	char *e = lower ? daw::hex_lc( c, out ) : daw::hex( c, out );
	CHECK( e == out + 2 and out[2] == 'x' );
	CHECK( out[0] == digit( u >> 4, lower ) and out[1] == digit( u & 15, lower ) );
}
namespace {
	template<typename T>
	void hex_of( ) {
		T const v = sym<T>( "v" );
		char out[2 * sizeof( T ) + 1];
		out[2 * sizeof( T )] = '#';
		CHECK( daw::hex( v, out ) == out + 2 * sizeof( T ) );
		auto const u = static_cast<std::make_unsigned_t<T>>( v );
		for( std::size_t i = 0; i < 2 * sizeof( T ); ++i ) {
			CHECK( out[i] == digit( static_cast<unsigned>( u >> ( 4 * ( 2 * sizeof( T ) - 1 - i ) ) ) & 15u, false ) );
		}
		CHECK( out[2 * sizeof( T )] == '#' );
	}
} // namespace
ENTRY hex_integers( ) {
	hex_of<uint8_t>( );
	hex_of<int8_t>( );
	hex_of<int16_t>( );
	hex_of<uint32_t>( );
	hex_of<int32_t>( );
	hex_of<uint64_t>( );
	hex_of<int64_t>( );
}
//@ q:k=5 t:k=5
ENTRY hex_ranges( ) {
	std::size_t const n = sym_range<uint8_t>( "n", 0, static_cast<uint8_t>( sym_param( "k", 3 ) ) );
	Arr<uint16_t> a( n, "a" );
	char out[48];
	CHECK( daw::hex( a.begin( ), a.end( ), out ) == out + 4 * n );
	for( std::size_t i = 0; i < 4 * n; ++i ) {
		CHECK( out[i] == digit( ( a[i / 4] >> ( 4 * ( 3 - i % 4 ) ) ) & 15u, false ) );
	}
	Arr<char> t( n, "t" );
	CHECK( daw::hex( static_cast<char const *>( t.begin( ) ), n, out ) == out + 2 * n );
	for( std::size_t i = 0; i < 2 * n; ++i ) {
		CHECK( out[i] == digit( ( static_cast<unsigned char>( t[i / 2] ) >> ( 4 * ( 1 - i % 2 ) ) ) & 15u, false ) );
	}
	CHECK( daw::hex( t.begin( ), t.end( ), out ) == out + 2 * n );
	for( std::size_t i = 0; i < 2 * n; ++i ) {
		CHECK( out[i] == digit( ( static_cast<unsigned char>( t[i / 2] ) >> ( 4 * ( 1 - i % 2 ) ) ) & 15u, false ) );
	}
}
ENTRY hex_objects( ) {
	Three v[2];
	sym_bytes( &v, sizeof v, "v" );
	char out[13];
	out[6] = '#';
	CHECK( daw::hex( v[0], out ) == out + 6 );
	CHECK( out[6] == '#' );
	for( std::size_t i = 0; i < 6; ++i ) {
		CHECK( out[i] == digit( ( v[0].b[i / 2] >> ( 4 * ( 1 - i % 2 ) ) ) & 15u, false ) );
	}
	out[12] = '#';
	CHECK( daw::hex( v + 0, v + 2, out ) == out + 12 );
	for( std::size_t i = 0; i < 12; ++i ) {
		CHECK( out[i] == digit( ( v[i / 6].b[i % 6 / 2] >> ( 4 * ( 1 - i % 2 ) ) ) & 15u, false ) );
	}
	CHECK( out[12] == '#' );
	char const lit[] = "a\x7f" "0";
	CHECK( daw::hex( lit, out ) == out + 6 );
	CHECK( out[0] == '6' and out[1] == '1' and out[2] == '7' and out[3] == 'F' and out[4] == '3' and out[5] == '0' );
}
ENTRY ascii_case( ) {
	char const c = sym<char>( "c" );
	CHECK( daw::AsciiUpper( c ) == ( c >= 'a' and c <= 'z' ? c - 32 : c ) );
	CHECK( daw::AsciiLower( c ) == ( c >= 'A' and c <= 'Z' ? c + 32 : c ) );
	CHECK( daw::is_space( c ) == ( c == ' ' ) );
}
//@ q:k=6 t:k=6
ENTRY ascii_case_strings( ) {
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 3 ) ) ) );
	Arr<char> a( n, "a" );
	std::string const s( a.begin( ), n );
	std::string const u = daw::AsciiUpper( s ), l = daw::AsciiLower( s );
	CHECK( u.size( ) == n and l.size( ) == n );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( u[i] == daw::AsciiUpper( a[i] ) and l[i] == daw::AsciiLower( a[i] ) and s[i] == a[i] );
	}
	if( n <= 3 ) {
		Arr<char16_t> b( n, "b" );
		std::u16string const w( b.begin( ), n );
		std::u16string const wu = daw::AsciiUpper( w ), wl = daw::AsciiLower( w );
		CHECK( wu.size( ) == n and wl.size( ) == n );
		for( std::size_t i = 0; i < n; ++i ) {
			char16_t const c = b[i];
			CHECK( wu[i] == ( c >= u'a' and c <= u'z' ? c - 32 : c ) );
			CHECK( wl[i] == ( c >= u'A' and c <= u'Z' ? c + 32 : c ) );
		}
	}
}
namespace {
	template<typename D, typename S>
	void fits( ) {
		S const v = sym<S>( "v" );
		using W = __int128;
		bool const fit = static_cast<W>( v ) >= static_cast<W>( std::numeric_limits<D>::min( ) ) and static_cast<W>( v ) <= static_cast<W>( std::numeric_limits<D>::max( ) );
		CHECK( daw::can_fit<D>( v ) == fit );
		bool thrown = false;
		D r{ };
		try {
			r = daw::narrow_cast<D>( v );
		} catch( std::out_of_range const & ) { thrown = true; }
		CHECK( thrown == not fit );
		if( fit ) {
			CHECK( static_cast<W>( r ) == static_cast<W>( v ) );
		}
	}
	template<typename S>
	void fits_all( ) {
		switch( sym_pick( "dest", 0, 5 ) ) {
		case 0:
			return fits<int8_t, S>( );
		case 1:
			return fits<uint8_t, S>( );
		case 2:
			return fits<int32_t, S>( );
		case 3:
			return fits<uint32_t, S>( );
		case 4:
			return fits<int64_t, S>( );
		default:
			return fits<uint64_t, S>( );
		}
	}
} // namespace
ENTRY narrowing( ) {
	switch( sym_pick( "source", 0, 5 ) ) {
	case 0:
		return fits_all<int8_t>( );
	case 1:
		return fits_all<uint8_t>( );
	case 2:
		return fits_all<int32_t>( );
	case 3:
		return fits_all<uint32_t>( );
	case 4:
		return fits_all<int64_t>( );
	default:
		return fits_all<uint64_t>( );
	}
}
ENTRY bounds_and_membership( ) {
	int32_t const a = sym<int32_t>( "a" ), b = sym<int32_t>( "b" ), c = sym<int32_t>( "c" ), d = sym<int32_t>( "d" );
	CHECK( daw::in_range( a, b, c ) == ( b <= a and a < c ) );
	uint16_t const h = sym<uint16_t>( "h" );
	CHECK( daw::in_range( h, b, c ) == ( b <= h and h < c ) );
	CHECK( daw::value_is( a ).one_of( b, c, d ) == ( a == b or a == c or a == d ) );
	CHECK( daw::value_is( a ).none_of( b, c, d ) == ( a != b and a != c and a != d ) );
	CHECK( daw::value_is( a + 0ll ).one_of( b ) == ( a == b ) );
	CHECK( not daw::value_is( a ).one_of( ) and daw::value_is( a ).none_of( ) );
	int32_t m = a;
	CHECK( daw::value_is( m ).none_of( c ) == ( a != c ) and m == a );
	CHECK( daw::or_all( a, b, c ) == ( a | b | c ) and daw::or_all( a ) == a and daw::or_all( ) == false );
	bool const p = sym<bool>( "p" ), q = sym<bool>( "q" ), r = sym<bool>( "r" );
	CHECK( daw::or_all( p, q ) == ( p or q ) );
	CHECK( daw::nsc_and( p, q, r ) == ( p and q and r ) and daw::nsc_or( p, q, r ) == ( p or q or r ) and daw::nsc_and( p ) == p and daw::nsc_or( p ) == p );
	CHECK( daw::nsc_and( a, b ) == ( a != 0 and b != 0 ) and daw::nsc_or( a, b ) == ( a != 0 or b != 0 ) );
	CHECK( daw::cast<int64_t>( a ) == a );
	CHECK( ( daw::cast<int16_t, true>( a ) ) == static_cast<int16_t>( a ) );
	enum class E : uint16_t {};
	CHECK( daw::to_underlying( static_cast<E>( h ) ) == h );
}
ENTRY adaptors( ) {
	int32_t const a = sym<int32_t>( "a" ), b = sym<int32_t>( "b" ), c = sym<int32_t>( "c" );
	auto eq = daw::equal_to( a );
	CHECK( eq( b ) == ( a == b ) and eq( c ) == ( a == c ) and eq( a ) );
	auto nt = daw::Not( [&]( int32_t x, int32_t y ) { return x < y; } );
	CHECK( nt( a, b ) == ( a >= b ) );
	daw::equal_to_last<int32_t> last{ };
	CHECK( not last( a ) );
	CHECK( last( b ) == ( a == b ) );
	CHECK( last( c ) == ( b == c ) );
	CHECK( last( a ) == ( a == c ) );
	int32_t m = a;
	auto &&cp = daw::copy( m );
	m = b;
	CHECK( cp == a );
	CHECK( daw::copy( b + 0ll ) == b );
	int32_t const *np = daw::copy_ptr_value( &m );
	CHECK( *np == b and np != &m );
	delete np;
	CHECK( daw::null_v<int> == nullptr );
}
ENTRY weak_runner( ) {
	LeakGuard g;
	int32_t const v = sym<int32_t>( "v" );
	bool const gone = sym<bool>( "gone" );
	auto sp = std::make_shared<int32_t>( v );
	auto run = daw::RunIfValid( std::weak_ptr<int32_t>( sp ) );
	int calls = 0;
	int32_t seen = 0;
	if( gone ) {
		sp.reset( );
	}
	bool const ran = run( [&]( auto const &p ) {
		++calls;
		seen = *p;
	} );
	CHECK( ran == not gone and calls == ( gone ? 0 : 1 ) );
	if( not gone ) {
		CHECK( seen == v );
	}
}
//@ q:k=5 t:k=5
ENTRY sequences( ) {
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 3 ) ) ) );
	Arr<int16_t> a( n, "a" );
	int16_t const x = sym<int16_t>( "x" );
	std::vector<int16_t> v( a.begin( ), a.end( ) );
	bool has = false;
	std::size_t at = n;
	for( std::size_t i = n; i-- > 0; ) {
		if( a[i] == x ) {
			has = true;
			at = i;
		}
	}
	CHECK( daw::contains( v, x ) == has );
	CHECK( daw::index_of( v, x ) == static_cast<std::ptrdiff_t>( at ) );
	auto const pos = daw::find_all_where( v, [&]( int16_t y ) { return y < x; } );
	std::size_t k = 0;
	for( std::size_t i = 0; i < n; ++i ) {
		if( a[i] < x ) {
			CHECK( k < pos.size( ) and pos[k] - v.cbegin( ) == static_cast<std::ptrdiff_t>( i ) );
			++k;
		}
	}
	CHECK( k == pos.size( ) );
	Arr<int16_t> out( n + 1, "out" );
	int16_t const tail = out[n];
	CHECK( daw::cxpr_copy( a.begin( ), a.end( ), out.begin( ) ) == out.begin( ) + n );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( out[i] == a[i] );
	}
	CHECK( out[n] == tail );
	CHECK( *daw::append( v, x, int16_t{ 7 } ) == x );
	CHECK( v.size( ) == n + 2 and v[n] == x and v[n + 1] == 7 );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( v[i] == a[i] );
	}
}
//@ q:k=3 t:k=3
ENTRY sequences_of_objects( ) {
	LeakGuard g;
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 2 ) ) ) );
	std::vector<std::unique_ptr<int32_t>> a, b( n );
	for( std::size_t i = 0; i < n; ++i ) {
		a.push_back( std::make_unique<int32_t>( sym<int32_t>( "v" ) ) );
	}
	std::vector<int32_t *> raw;
	for( auto &p : a ) {
		raw.push_back( p.get( ) );
	}
	CHECK( daw::cxpr_move( a.begin( ), a.end( ), b.begin( ) ) == b.end( ) );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( b[i].get( ) == raw[i] and a[i] == nullptr );
	}
}
//@ q:k=5 t:k=5
ENTRY vectors_copied( ) {
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 3 ) ) ) );
	Arr<int16_t> a( n, "a" );
	std::vector<int16_t> const v( a.begin( ), a.end( ) );
	std::size_t const m = sym<std::size_t>( "m" );
	std::vector<int16_t> r;
	bool const t = throws( [&] { r = daw::copy_vector( v, m ); } );
	CHECK( t == ( m > n ) );
	if( not t ) {
		CHECK( r.size( ) == m );
		for( std::size_t i = 0; i < r.size( ); ++i ) {
			CHECK( r[i] == a[i] );
		}
	}
}
ENTRY iterator_pairs( ) {
	Arr<int16_t> a( 6, "a" );
	std::size_t const x = sym_range<uint8_t>( "x", 0, 6 ), y = sym_range<uint8_t>( "y", 0, 6 );
	sym_assume( x + y <= 4 );
	auto r = daw::make_range( a.begin( ), a.end( ) );
	CHECK( r.begin( ) == a.begin( ) and r.end( ) == a.end( ) );
	r.remove_prefix( x );
	r.remove_suffix( y );
	r.remove_prefix( );
	r.remove_suffix( );
	auto const &cr = r;
	CHECK( cr.begin( ) == a.begin( ) + x + 1 and cr.end( ) == a.end( ) - y - 1 );
	CHECK( r.begin( ) == a.begin( ) + x + 1 and r.end( ) == a.end( ) - y - 1 );
	std::list<int> l{ 1, 2, 3, 4 };
	auto lr = daw::make_range( l.begin( ), l.end( ) );
	lr.remove_prefix( 2 );
	lr.remove_suffix( );
	CHECK( *lr.begin( ) == 3 and std::next( lr.begin( ) ) == lr.end( ) );
}
ENTRY bytes_and_values( ) {
	uint8_t b[8];
	sym_bytes( b, sizeof b, "b" );
	uint64_t w = 0;
	for( uint8_t x : b ) {
		w = w << 8 | x;
	}
	CHECK( ( daw::value_from_chars<uint8_t>( b, std::integral_constant<std::size_t, 1>{ } ) == b[0] ) );
	CHECK( ( daw::value_from_chars<uint16_t>( b, std::integral_constant<std::size_t, 2>{ } ) == w >> 48 ) );
	CHECK( ( daw::value_from_chars<uint32_t>( b, std::integral_constant<std::size_t, 4>{ } ) == w >> 32 ) );
	CHECK( ( daw::value_from_chars<uint64_t>( b, std::integral_constant<std::size_t, 8>{ } ) == w ) );
	uint64_t v;
	__builtin_memcpy( &v, b, 8 );
	auto const c = daw::as_char_array( v );
	auto const h = daw::to_array_of<uint16_t>( v );
	auto const o = daw::to_array_of<uint8_t>( v );
	auto const f = daw::to_array_of<uint32_t>( v );
	CHECK( c.size( ) == 8 and h.size( ) == 4 and o.size( ) == 8 and f.size( ) == 2 );
	for( unsigned i = 0; i < 8; ++i ) {
		CHECK( c[i] == b[i] and o[i] == b[i] );
	}
	for( unsigned i = 0; i < 4; ++i ) {
		CHECK( h[i] == ( b[2 * i] << 8 | b[2 * i + 1] ) );
	}
	CHECK( f[0] == w >> 32 and f[1] == static_cast<uint32_t>( w ) );
}
ENTRY packs( ) {
	int8_t a = sym<int8_t>( "a" );
	int64_t b = sym<int64_t>( "b" );
	uint16_t const c = sym<uint16_t>( "c" );
	CHECK( &daw::pack_get<0>( a, b, c ) == &a and &daw::pack_get<1>( a, b, c ) == &b and &daw::pack_get<2>( a, b, c ) == &c );
	std::size_t const n = sym<std::size_t>( "n" );
	int calls = 0;
	int64_t got = 0;
	daw::pack_apply( n, [&]( auto const &x ) { ++calls; got = x; }, a, b, c );
	CHECK( calls == ( n < 3 ? 1 : 0 ) );
	CHECK( got == ( n == 0 ? a : n == 1 ? b : n == 2 ? c : 0 ) );
	struct P {
		int8_t x;
		int64_t y;
	};
	auto const p = daw::construct_from<P>( std::tuple<int8_t, int64_t>( a, b ) );
	CHECK( p.x == a and p.y == b );
	std::tuple<int64_t, int64_t> const t( b, 5 );
	auto const q = daw::construct_from<std::pair<int64_t, int64_t>>( t );
	CHECK( q.first == b and q.second == 5 );
	CHECK( ( daw::pack_index_of_v<int, char, long, int> ) == 2 and ( daw::pack_index_of_v<int, char> ) == 1 );
	auto const w = daw::construct_a<std::vector<int8_t>>( 3u, a );
	CHECK( w.size( ) == 3 and w[2] == a );
	CHECK( daw::offset_of( &P::y ) == offsetof( P, y ) and daw::offset_of( &P::x ) == 0 );
}
ENTRY ends_of_data( ) {
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	Arr<int16_t> a( n, "a" );
	std::vector<int16_t> v( a.begin( ), a.end( ) );
	CHECK( daw::data( v ) == v.data( ) and daw::data_end( v ) == v.data( ) + n );
	int16_t arr[4] = { };
	CHECK( daw::data( arr ) == arr and daw::data_end( arr ) == arr + 4 );
	std::string const s( "abc" );
	CHECK( daw::data_end( s ) - daw::data( s ) == 3 );
}
ENTRY buffers( ) {
	LeakGuard g;
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 1, 3 ) );
	uint64_t *p = daw::get_buffer<uint64_t>( n );
	if( p ) {
		for( std::size_t i = 0; i < n; ++i ) {
			p[i] = i;
		}
		CHECK( reinterpret_cast<std::uintptr_t>( p ) % alignof( uint64_t ) == 0 and p[n - 1] == n - 1 );
	}
	daw::return_buffer( p );
	auto *q = daw::get_buffer<char, 64>( 64 );
	CHECK( not q or reinterpret_cast<std::uintptr_t>( q ) % 64 == 0 );
	if( q ) {
		q[63] = 1;
	}
	daw::return_buffer( q );
}
