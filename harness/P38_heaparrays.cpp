// fixed_array, heap_array and carray as sequences, and ordered_map as a map in insertion order
//@ bounds: <=3 elements (copies, moves and assignments between arrays of <=3 and <=3); values complete
#include "stdrt.h"
#include "common.h"
#include <daw/deprecated/daw_fixed_array.h>
#include <daw/deprecated/daw_heap_array.h>
#include <daw/deprecated/daw_carray.h>
#include <daw/deprecated/daw_ordered_map.h>
#include <stdexcept>
#include <string>

namespace {
	struct Model {
		uint32_t v[6];
		std::size_t n = 0;
	};
	inline uint32_t rd( Track const &t ) {
		return t.get( );
	}
	inline uint32_t rd( uint32_t v ) {
		return v;
	}
	template<typename T>
	bool nothing( daw::fixed_array<T> const &a ) {
		return a.size( ) == 0 and ( a.data( ) == nullptr or a.begin( ) == a.end( ) );
	}
	template<typename T>
	bool nothing( daw::heap_array<T> const &a ) {
		return a.size( ) == 0 and a.empty( ) and a.begin( ) == a.end( ) and a.cbegin( ) == a.cend( );
	}
	template<typename A>
	void same( A const &a, Model const &m ) {
		CHECK( a.size( ) == m.n );
		CHECK( a.end( ) - a.begin( ) == static_cast<std::ptrdiff_t>( m.n ) );
		CHECK( a.cend( ) == a.end( ) and a.cbegin( ) == a.begin( ) );
		std::size_t i = 0;
		for( auto const &x : a ) {
			CHECK( rd( x ) == m.v[i] and &x == &a[i] and &x == a.data( ) + i );
			++i;
		}
		CHECK( i == m.n );
		if( m.n ) {
			CHECK( &a.front( ) == &a[0] and &a.back( ) == &a[m.n - 1] );
		}
	}
	template<typename A>
	void same_mut( A &a, Model const &m ) {
		same( a, m );
		CHECK( a.end( ) - a.begin( ) == static_cast<std::ptrdiff_t>( m.n ) );
		for( std::size_t i = 0; i < m.n; ++i ) {
			CHECK( &a[i] == a.data( ) + i and &*( a.begin( ) + static_cast<std::ptrdiff_t>( i ) ) == a.data( ) + i );
		}
		if( m.n ) {
			CHECK( &a.front( ) == &a[0] and &a.back( ) == &a[m.n - 1] );
		}
	}
	template<typename A>
	void fill( A &a, Model &m, std::size_t n ) {
		m.n = n;
		for( std::size_t i = 0; i < n; ++i ) {
			m.v[i] = sym<uint32_t>( "v" );
			a[i] = m.v[i];
		}
	}
	template<typename T, typename A>
	void life( int how, std::size_t n, std::size_t k ) {
		A a( n );
		Model m;
		CHECK( a.size( ) == n );
		fill( a, m, n );
		same_mut( a, m );
		A b( k );
		Model mb;
		fill( b, mb, k );
		switch( how ) {
		case 0: {
			A c( a );
			same( c, m );
			same( a, m );
			if( n ) {
				CHECK( c.data( ) != a.data( ) );
			}
			break;
		}
		case 1: {
			T const *p = a.data( );
			A c( std::move( a ) );
			same( c, m );
			CHECK( c.data( ) == p );
			CHECK( nothing( a ) );
			break;
		}
		case 2:
			b = a;
			same( b, m );
			same( a, m );
			if( n ) {
				CHECK( b.data( ) != a.data( ) );
			}
			break;
		case 3: {
			T const *p = a.data( );
			b = std::move( a );
			same( b, m );
			CHECK( b.data( ) == p );
			CHECK( nothing( a ) );
			a = b;
			same( a, m );
			same( b, m );
			break;
		}
		case 4: {
			a.clear( );
			CHECK( nothing( a ) );
			a = b;
			same( a, mb );
			a.clear( );
			a.clear( );
			CHECK( nothing( a ) );
			A c( a );
			CHECK( nothing( c ) );
			break;
		}
		case 5: {
			A &self = a;
			a = static_cast<A const &>( self );
			same( a, m );
			break;
		}
		default: {
			A e;
			CHECK( nothing( e ) );
			A c( e );
			CHECK( c.size( ) == 0 );
			e = a;
			same( e, m );
			break;
		}
		}
	}
} // namespace
ENTRY fixed_arrays( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	auto const k = static_cast<std::size_t>( sym_pick( "k", 0, 2 ) );
	int const how = sym_pick( "how", 0, 6 );
	life<uint32_t, daw::fixed_array<uint32_t>>( how, n, k );
}
ENTRY fixed_arrays_of_objects( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 2 ) );
	auto const k = static_cast<std::size_t>( sym_pick( "k", 0, 1 ) );
	int const how = sym_pick( "how", 0, 6 );
	life<Track, daw::fixed_array<Track>>( how, n, k );
}
//@ known=F-P38-1
ENTRY fixed_array_iterate_nothing( ) {
	daw::fixed_array<uint32_t> a;
	if( sym<bool>( "released" ) ) {
		a = daw::fixed_array<uint32_t>( 2 );
		(void)a.release( );
	}
	std::size_t n = 0;
	for( auto x : a ) {
		n += x;
	}
	CHECK( n == 0 );
}
ENTRY fixed_array_construction( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	uint32_t src[4];
	Model m;
	m.n = n;
	for( std::size_t i = 0; i < 4; ++i ) {
		src[i] = m.v[i] = sym<uint32_t>( "v" );
	}
	daw::fixed_array<uint32_t> z( n );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( z[i] == 0 );
	}
	daw::fixed_array<uint32_t> f( n, src[3] );
	CHECK( f.size( ) == n );
	for( auto x : f ) {
		CHECK( x == src[3] );
	}
	daw::fixed_array<uint32_t> o( daw::construct_for_overwrite, n );
	CHECK( o.size( ) == n );
	daw::fixed_array<uint32_t> it( static_cast<uint32_t const *>( src ), n );
	same( it, m );
	daw::fixed_array<uint32_t> rng( static_cast<uint32_t const *>( src ), static_cast<uint32_t const *>( src ) + n );
	same( rng, m );
	m.n = 3;
	daw::fixed_array<uint32_t> ip( std::in_place, src[0], src[1], src[2] );
	same( ip, m );
	daw::fixed_array<uint32_t> ipt( std::in_place_type<uint32_t>, src[0], src[1], src[2] );
	same( ipt, m );
	auto *raw = new uint32_t[2]{ src[0], src[1] };
	daw::fixed_array<uint32_t> own( raw, 2 );
	m.n = 2;
	same( own, m );
	CHECK( own.data( ) == raw );
	auto up = own.release( );
	CHECK( up.get( ) == raw and own.size( ) == 0 and own.data( ) == nullptr );
	CHECK( up[0] == src[0] and up[1] == src[1] );
}
ENTRY heap_arrays( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	auto const k = static_cast<std::size_t>( sym_pick( "k", 0, 2 ) );
	int const how = sym_pick( "how", 0, 6 );
	life<uint32_t, daw::heap_array<uint32_t>>( how, n, k );
}
ENTRY heap_arrays_of_objects( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 2 ) );
	auto const k = static_cast<std::size_t>( sym_pick( "k", 0, 1 ) );
	int const how = sym_pick( "how", 0, 6 );
	life<Track, daw::heap_array<Track>>( how, n, k );
}
ENTRY heap_array_access( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	uint32_t src[3] = { sym<uint32_t>( "a" ), sym<uint32_t>( "b" ), sym<uint32_t>( "c" ) };
	daw::heap_array<uint32_t> a( src, n );
	daw::heap_array<uint32_t> const &ca = a;
	CHECK( a.empty( ) == ( n == 0 ) and a.size( ) == n );
	CHECK( static_cast<bool>( a ) );
	auto const pos = sym<std::size_t>( "pos" );
	if( pos < n ) {
		CHECK( &a.at( pos ) == &a[pos] and &ca.at( pos ) == &a[pos] and a[pos] == sel( pos == 0, src[0], sel( pos == 1, src[1], src[2] ) ) );
	} else {
		CHECK( throws_as<std::out_of_range>( [&] { (void)a.at( pos ); } ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)ca.at( pos ); } ) );
	}
	uint32_t const d = sym<uint32_t>( "d" );
	daw::heap_array<uint32_t> f( n, d );
	CHECK( f.size( ) == n );
	for( auto x : f ) {
		CHECK( x == d );
	}
	daw::heap_array<uint32_t> none;
	CHECK( none.empty( ) and none.size( ) == 0 and not static_cast<bool>( none ) );
	// swap
	swap( a, f );
	CHECK( a.size( ) == n and f.size( ) == n );
	for( std::size_t i = 0; i < n; ++i ) {
		CHECK( a[i] == d and f[i] == src[i] );
	}
	a.swap( none );
	CHECK( a.size( ) == 0 and a.empty( ) and none.size( ) == n );
	// list assignment
	f = { src[2], src[0] };
	CHECK( f.size( ) == 2 and f[0] == src[2] and f[1] == src[0] );
}
namespace {
	void check_find( daw::heap_array<uint32_t> const &h, std::size_t n ) {
		uint32_t const needle = sym<uint32_t>( "needle" );
		std::size_t const start = static_cast<std::size_t>( sym_pick( "start", 0, 3 ) );
		if( start > n ) {
			return;
		}
		std::size_t want = n;
		for( std::size_t i = n; i-- > start; ) {
			if( h[i] == needle ) {
				want = i;
			}
		}
		CHECK( h.find_first_of( needle, h.begin( ) + start ) == h.begin( ) + want );
		if( start == 0 ) {
			CHECK( h.find_first_of( needle ) == h.begin( ) + want );
		}
		CHECK( h.size( ) == n );
	}
} // namespace
ENTRY heap_array_find( ) {
	LeakGuard g;
	auto const n = static_cast<std::size_t>( sym_pick( "n", 0, 3 ) );
	uint32_t src[3] = { sym<uint32_t>( "a" ), sym<uint32_t>( "b" ), sym<uint32_t>( "c" ) };
	switch( sym_pick( "how", 0, 3 ) ) {
	case 0: {
		daw::heap_array<uint32_t> a( src, n );
		check_find( a, n );
		break;
	}
	case 1: {
		daw::heap_array<uint32_t> a( n );
		for( std::size_t i = 0; i < n; ++i ) {
			a[i] = src[i];
		}
		daw::heap_array<uint32_t> b( a );
		check_find( b, n );
		break;
	}
	case 2: {
		daw::heap_array<uint32_t> a( n );
		for( std::size_t i = 0; i < n; ++i ) {
			a[i] = src[i];
		}
		daw::heap_array<uint32_t> b( 1 );
		b = a;
		check_find( b, n );
		break;
	}
	default: {
		daw::heap_array<uint32_t> a( n );
		for( std::size_t i = 0; i < n; ++i ) {
			a[i] = src[i];
		}
		daw::heap_array<uint32_t> b( std::move( a ) );
		check_find( b, n );
		break;
	}
	}
}
ENTRY carrays( ) {
	int v[3] = { sym<int>( "a" ), sym<int>( "b" ), sym<int>( "c" ) };
	using A = daw::carray<int, 3>;
	A a( v );
	A const &ca = a;
	CHECK( a.size( ) == 3 and a.max_size( ) == 3 and not a.empty( ) );
	CHECK( a.end( ) - a.begin( ) == 3 and ca.end( ) - ca.begin( ) == 3 and a.cend( ) - a.cbegin( ) == 3 );
	for( std::size_t i = 0; i < 3; ++i ) {
		CHECK( a[i] == v[i] and ca[i] == v[i] and &a[i] == a.begin( ) + i and &ca[i] == ca.data( ) + i and &ca[i] == ca.cbegin( ) + i );
	}
	std::size_t i = 3;
	for( auto it = a.rbegin( ); it != a.rend( ); ++it ) {
		CHECK( i > 0 );
		--i;
		CHECK( &*it == &a[i] );
	}
	CHECK( i == 0 );
	i = 3;
	for( auto it = ca.rbegin( ); it != ca.rend( ); ++it ) {
		CHECK( i > 0 );
		--i;
		CHECK( &*it == &ca[i] );
	}
	CHECK( i == 0 );
	i = 3;
	for( auto it = ca.crbegin( ); it != ca.crend( ); ++it ) {
		CHECK( i > 0 );
		--i;
		CHECK( &*it == &ca[i] );
	}
	CHECK( i == 0 );
	CHECK( &a.front( ) == &a[0] and &a.back( ) == &a[2] and &ca.front( ) == &a[0] and &ca.back( ) == &a[2] );
	auto const pos = sym<std::size_t>( "pos" );
	if( pos < 3 ) {
		CHECK( &a.at( pos ) == &a[pos] and &ca.at( pos ) == &a[pos] );
	} else {
		CHECK( throws_as<std::out_of_range>( [&] { (void)a.at( pos ); } ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)ca.at( pos ); } ) );
	}
	A b( 1, 2, 3 );
	CHECK( b[0] == 1 and b[1] == 2 and b[2] == 3 );
	A p( v[1], v[2] );
	CHECK( p[0] == v[1] and p[1] == v[2] and p[2] == 0 );
	A z;
	CHECK( z[0] == 0 and z[1] == 0 and z[2] == 0 );
	A c( ca );
	CHECK( c[0] == v[0] and c[1] == v[1] and c[2] == v[2] );
	swap( b, c );
	CHECK( b[0] == v[0] and b[1] == v[1] and b[2] == v[2] and c[0] == 1 and c[1] == 2 and c[2] == 3 );
	A mv( std::move( b ) );
	CHECK( mv[0] == v[0] and mv[1] == v[1] and mv[2] == v[2] );
	c = ca;
	CHECK( c[0] == v[0] and c[1] == v[1] and c[2] == v[2] );
	int w[3] = { v[2], v[0], v[1] };
	c = w;
	CHECK( c[0] == v[2] and c[1] == v[0] and c[2] == v[1] );
	c = std::move( mv );
	CHECK( c[0] == v[0] and c[1] == v[1] and c[2] == v[2] );
	c.fill( v[1] );
	CHECK( c[0] == v[1] and c[1] == v[1] and c[2] == v[1] );
}
namespace {
	struct OModel {
		uint8_t k[8];
		uint32_t v[8];
		std::size_t n = 0;
		std::size_t find( uint8_t key ) const {
			for( std::size_t i = 0; i < n; ++i ) {
				if( k[i] == key ) {
					return i;
				}
			}
			return n;
		}
		void add( uint8_t key, uint32_t val ) {
			k[n] = key;
			v[n] = val;
			++n;
		}
	};
	template<typename M>
	void same_map( M const &o, OModel const &m ) {
		CHECK( o.size( ) == m.n and o.empty( ) == ( m.n == 0 ) );
		std::size_t i = 0;
		for( auto const &kv : o ) {
			CHECK( kv.first == m.k[i] and kv.second == m.v[i] );
			++i;
		}
		CHECK( i == m.n );
	}
} // namespace
//@ q:ops=5 t:ops=5
ENTRY ordered_maps( ) {
	LeakGuard g;
	daw::ordered_map<uint8_t, uint32_t> o;
	OModel m;
	int const ops = static_cast<int>( sym_param( "ops", 4 ) );
	for( int op = 0; op < ops; ++op ) {
		uint8_t const k = sym<uint8_t>( "key" );
		uint32_t const v = sym<uint32_t>( "value" );
		std::size_t const at = m.find( k );
		switch( sym_pick( "op", 0, 4 ) ) {
		case 0: {
			std::pair<uint8_t const, uint32_t> const kv( k, v );
			auto r = o.insert( kv );
			CHECK( r.second == ( at == m.n ) );
			CHECK( static_cast<std::size_t>( r.first - o.begin( ) ) == at );
			if( at == m.n ) {
				m.add( k, v );
			}
			break;
		}
		case 1: {
			auto r = o.insert( std::pair<uint8_t, uint32_t>( k, v ) );
			CHECK( r.second == ( at == m.n ) );
			CHECK( static_cast<std::size_t>( r.first - o.begin( ) ) == at );
			if( at == m.n ) {
				m.add( k, v );
			}
			break;
		}
		case 2: {
			uint32_t &x = o[k];
			if( at == m.n ) {
				CHECK( x == 0 );
				m.add( k, 0 );
			} else {
				CHECK( x == m.v[at] );
			}
			x = v;
			m.v[at] = v;
			break;
		}
		case 3:
			if( at == m.n ) {
				CHECK( throws_as<std::out_of_range>( [&] { (void)o.at( k ); } ) );
				CHECK( throws_as<std::out_of_range>( [&] { (void)std::as_const( o ).at( k ); } ) );
				CHECK( o.find( k ) == o.end( ) and std::as_const( o ).find( k ) == o.cend( ) );
			} else {
				CHECK( o.at( k ) == m.v[at] and std::as_const( o ).at( k ) == m.v[at] );
				CHECK( static_cast<std::size_t>( o.find( k ) - o.begin( ) ) == at );
				CHECK( static_cast<std::size_t>( std::as_const( o ).find( k ) - o.cbegin( ) ) == at );
				o.at( k ) = v;
				m.v[at] = v;
			}
			break;
		default:
			o.clear( );
			m.n = 0;
			break;
		}
		same_map( o, m );
	}
	if( m.n ) {
		CHECK( o.front( ).first == m.k[0] and o.back( ).first == m.k[m.n - 1] );
		CHECK( std::as_const( o ).front( ).second == m.v[0] and std::as_const( o ).back( ).second == m.v[m.n - 1] );
	}
	std::size_t i = m.n;
	for( auto it = o.rbegin( ); it != o.rend( ); ++it ) {
		CHECK( i > 0 );
		--i;
		CHECK( it->first == m.k[i] );
	}
	CHECK( i == 0 );
	for( auto it = std::as_const( o ).crbegin( ); it != std::as_const( o ).crend( ); ++it ) {
		CHECK( it->first == m.k[m.n - 1 - i] );
		++i;
	}
	CHECK( i == m.n );
}
ENTRY ordered_map_construction( ) {
	LeakGuard g;
	using O = daw::ordered_map<uint8_t, uint32_t>;
	std::pair<uint8_t, uint32_t> src[3];
	OModel m;
	for( auto &p : src ) {
		p.first = sym<uint8_t>( "key" );
		p.second = sym<uint32_t>( "value" );
		if( m.find( p.first ) == m.n ) {
			m.add( p.first, p.second );
		}
	}
	O a( src, src + 3 );
	same_map( a, m );
	O b( { { src[0].first, src[0].second }, { src[1].first, src[1].second }, { src[2].first, src[2].second } }, std::allocator<std::pair<uint8_t, uint32_t>>{ } );
	same_map( b, m );
	using V = std::pair<uint8_t const, uint32_t>;
	std::allocator<std::pair<uint8_t, uint32_t>> const al{ };
	O a2( src, src + 3, al );
	same_map( a2, m );
	O a3( src, src + 3, std::less<uint8_t>{ }, al );
	same_map( a3, m );
	std::initializer_list<V> const il = { { src[0].first, src[0].second }, { src[1].first, src[1].second }, { src[2].first, src[2].second } };
	O b2( il, std::less<uint8_t>{ }, al );
	same_map( b2, m );
	O b3( il, al );
	same_map( b3, m );
	O c( a );
	same_map( c, m );
	O d( std::move( c ) );
	same_map( d, m );
	O e( std::less<uint8_t>{ }, std::allocator<std::pair<uint8_t, uint32_t>>{ } );
	CHECK( e.empty( ) );
	e = a;
	same_map( e, m );
}
//@ bounds: 20 given keys in an order that is not theirs, any one written again
ENTRY ordered_map_many( ) {
	LeakGuard g;
	static constexpr unsigned N = 20;
	daw::ordered_map<uint8_t, uint32_t> o;
	uint32_t v[N];
	auto key = []( unsigned k ) { return static_cast<uint8_t>( k * 7 % 23 ); };
	for( unsigned k = 0; k < N; ++k ) {
		v[k] = sym<uint32_t>( "v" );
		o[key( k )] = v[k];
		CHECK( o.size( ) == k + 1 );
	}
	unsigned const i = static_cast<unsigned>( sym_pick( "i", 0, N - 1 ) );
	unsigned n = 0;
	for( auto const &kv : o ) {
		CHECK( kv.first == key( n ) and kv.second == v[n] );
		++n;
	}
	CHECK( n == N and o.find( key( i ) )->second == v[i] );
	o[key( i )] = v[0];
	CHECK( o.size( ) == N and o[key( i )] == v[0] );
}
