#include "common.h"
#include <daw/daw_hash_set.h>
#include <daw/static_hash_table.h>
#include <daw/daw_min_perfect_hash.h>
#include <utility>

using U = uint32_t;
struct Ident { size_t operator( )( uint64_t k ) const { return k; } };
struct Flat { size_t operator( )( uint64_t ) const { return 1; } };
static constexpr unsigned MX = 4;
template<typename H>
static void set_history( ) {
	unsigned cap = static_cast<unsigned>( sym_pick( "cap", 1, 3 ) );
	LeakGuard g;
	{
		daw::hash_set_t<uint64_t, H> s( cap );
		uint64_t keys[4]; bool in[4]{};
		static uint64_t const ks[3][4] = { { 0, 1, 2, 3 }, { 6, 3, 9, 1 }, { 5, 11, ~0ull, 1ull << 40 } };
		unsigned w = static_cast<unsigned>( sym_pick( "w", 0, std::is_same_v<H, Ident> ? 2 : 0 ) );
		for( int i = 0; i < 4; ++i ) keys[i] = ks[w][i];
		CHECK( s.capacity( ) == cap and s.size( ) == 0 and not s.exists( keys[0] ) );
		unsigned n = static_cast<unsigned>( sym_param( "n", 3 ) ), cnt = 0;
		for( unsigned q = 0; q < n; ++q ) {
			unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 3 ) );
			if( sym_pick( "op", 0, 1 ) == 0 ) {
				bool full = not in[i] and cnt == cap, thrown = false;
				try { auto p = s.insert( keys[i] ); CHECK( p < cap ); } catch( std::out_of_range const & ) { thrown = true; }
				CHECK( thrown == full );
				if( not full and not in[i] ) { in[i] = true; ++cnt; }
			} else {
				auto r = s.erase( keys[i] );
				CHECK( r.has_value( ) == in[i] );
				if( in[i] ) { in[i] = false; --cnt; }
			}
		}
		for( unsigned k = 0; k < 4; ++k ) CHECK( s.exists( keys[k] ) == in[k] and s.count( keys[k] ) == ( in[k] ? 1u : 0u ) );
		uint64_t o = std::is_same_v<H, Ident> ? keys[0] + 1 : sym_u64( "o" );
		bool known = false; for( unsigned k = 0; k < 4; ++k ) known |= in[k] and keys[k] == o;
		CHECK( s.exists( o ) == known );
		CHECK( s.size( ) == cnt and s.capacity( ) == cap );
	}
	sym_reach( "end" );
}
//@ bounds: capacity up to 3, three sets of 4 keys, histories of 4 insertions and removals, lookups of any 64 bit key
//@ q:n=4,time=200 t:n=4,time=800
ENTRY set_spread( ) { set_history<Ident>( ); }
//@ bounds: as before, every key hashes alike
//@ q:n=4,time=200 t:n=4,time=800
ENTRY set_collide( ) { set_history<Flat>( ); }
//@ bounds: tables of 4 slots with integer keys, all values
ENTRY fixed_table( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" ), c = sym_u32( "c" ), d = sym_u32( "d" );
	daw::static_hash_t<U, 4> t{ { "alpha", a }, { "beta", b } };
	CHECK( t["alpha"] == a and t["beta"] == b );
	auto const &ct = t;
	CHECK( ct["alpha"] == a and ct["beta"] == b );
	t["gamma"] = c; CHECK( t["alpha"] == a and t["beta"] == b and t["gamma"] == c and ct["gamma"] == c );
	t["alpha"] = d; CHECK( t["alpha"] == d and t["beta"] == b and t["gamma"] == c );
	daw::static_hash_t<U, 4> e; CHECK( e["x"] == 0 );
	using P = std::initializer_list<std::pair<int, U>>;
	daw::static_hash_t<U, 4> k( P{ { 10, a }, { 20, b }, { 30, c }, { -4, d } } );
	auto const &ck = k;
	CHECK( k[10] == a and k[20] == b and k[30] == c and k[-4] == d and ck[10] == a and ck[-4] == d and k.find( 20 ) < 4 and k.find( 20 ) != k.find( 30 ) );
	k[20] = a; CHECK( k[20] == a and k[10] == a and k[30] == c and k[-4] == d );
	sym_reach( "end" );
}
//@ bounds: any second key, capacity 3
//@ q:time=200
ENTRY fixed_symbolic( ) {
	U a = sym_u32( "a" ), b = sym_u32( "b" ); uint8_t key = sym_u8( "key" );
	daw::static_hash_t<U, 3> t{ };
	t[uint8_t{ 7 }] = a; t[key] = b;
	CHECK( t[key] == b and t[uint8_t{ 7 }] == ( key == 7 ? b : a ) );
	auto const &c = t; CHECK( c[key] == b );
	sym_reach( "end" );
}
//@ bounds: one key more than the table has room for
ENTRY fixed_full( ) {
	U a = sym_u32( "a" );
	LeakGuard g;
	{
		daw::static_hash_t<U, 2> t{ { "a", a }, { "b", a + 1 } };
		auto const &c = t;
		CHECK( throws_as<std::out_of_range>( [&] { t["c"] = 1; } ) and throws_as<std::out_of_range>( [&] { (void)c["d"]; } ) and t.find( 99 ) == 2 );
		CHECK( t["a"] == a and t["b"] == a + 1 );
		CHECK( throws_as<std::out_of_range>( [&] { daw::static_hash_t<U, 1> z{ { "a", a }, { "b", a } }; } ) );
	}
	sym_reach( "end" );
}
template<size_t N, typename H = Ident>
static void perfect( uint64_t const ( &k )[N] ) {
	std::pair<uint64_t, U> d[N];
	for( size_t i = 0; i < N; ++i ) { d[i].first = k[i]; d[i].second = sym_u32( "v" ); }
	daw::perfect_hash_table<N, uint64_t, U, H> t( d );
	auto const &c = t;
	CHECK( t.size( ) == N );
	for( size_t i = 0; i < N; ++i ) {
		CHECK( t.contains( k[i] ) and t[k[i]] == d[i].second and c[k[i]] == d[i].second and t.find( k[i] ) != nullptr and *t.find( k[i] ) == d[i].second and *c.find( k[i] ) == d[i].second );
	}
	uint64_t o = sym_u64( "o" );
	bool in = false; for( auto x : k ) in |= x == o;
	CHECK( t.contains( o ) == in and ( c.find( o ) != nullptr ) == in and ( t.find( o ) != nullptr ) == in );
	t[k[0]] = 77; CHECK( *t.find( k[0] ) == 77 );
	for( size_t i = 1; i < N; ++i ) CHECK( t[k[i]] == d[i].second );
	sym_reach( "end" );
}
static uint64_t const pool[] = { 0, 1, 2, 4, 8, 12, 255, ~0ull, 3, 5, 6, 7, 16, 100, 101, 1u << 20 };
//@ bounds: tables of 3 keys, any 3 of 8 (thorough 16) given keys, all values, lookups of any 64 bit key
//@ q:top=7,time=200 t:top=15,time=800
ENTRY perfect3( ) {
	unsigned top = static_cast<unsigned>( sym_param( "top", 15 ) );
	unsigned a = static_cast<unsigned>( sym_pick( "a", 0, top - 2 ) ), b = static_cast<unsigned>( sym_pick( "b", a + 1, top - 1 ) ), e = static_cast<unsigned>( sym_pick( "e", b + 1, top ) );
	uint64_t k[3] = { pool[b], pool[a], pool[e] };
	perfect<3>( k );
}
//@ bounds: any single key, lookups of any 64 bit key
ENTRY perfect1( ) {
	uint64_t k[1] = { sym_u64( "key" ) };
	perfect<1>( k );
}
//@ bounds: tables of 7 consecutive, spread or clustered keys, lookups of any 64 bit key
//@ q:time=200
ENTRY perfect7( ) {
	static uint64_t const sets[6][7] = { { 0, 1, 2, 3, 4, 5, 6 }, { 0, 4, 8, 12, 1, 2, 3 }, { 10, 20, 30, 40, 50, 60, 70 }, { 4, 8, 12, 16, 20, 24, 28 }, { 1, 5, 9, 2, 6, 3, 7 }, { ~0ull, ~1ull, 1u << 30, 5, 77, 1ull << 40, 3 } };
	perfect<7>( sets[sym_pick( "set", 0, 5 )] );
}
//@ bounds: tables of 8 and 13 keys, lookups of any 64 bit key
//@ q:time=200
ENTRY perfect_more( ) {
	static uint64_t const a[8] = { 9, 8, 7, 6, 5, 4, 3, 2 };
	static uint64_t const b[13] = { 100, 101, 102, 200, 201, 202, 203, 204, 205, 206, 207, 208, 226 };
	if( sym_pick( "w", 0, 1 ) ) perfect<8>( a ); else perfect<13>( b );
}
//@ bounds: a set of capacity 17 filled with given keys (in order, colliding or far apart), any one taken out, another added, lookups of any key
ENTRY set_many( ) {
	static constexpr unsigned CAP = 17;
	unsigned const w = static_cast<unsigned>( sym_pick( "w", 0, 2 ) ), out = static_cast<unsigned>( sym_pick( "out", 0, CAP - 1 ) );
	auto key = [w]( unsigned k ) -> uint64_t { return w == 0 ? k : w == 1 ? uint64_t( k % 3 ) + CAP * uint64_t( k ) : uint64_t( k ) << 40; };
	LeakGuard g;
	{
		daw::hash_set_t<uint64_t, Ident> s( CAP );
		for( unsigned k = 0; k < CAP; ++k ) { CHECK( not s.exists( key( k ) ) ); (void)s.insert( key( k ) ); CHECK( s.size( ) == k + 1 ); }
		for( unsigned k = 0; k < CAP; ++k ) CHECK( s.exists( key( k ) ) );
		CHECK( throws_as<std::out_of_range>( [&] { (void)s.insert( key( CAP ) ); } ) and s.size( ) == CAP );
		CHECK( s.erase( key( out ) ).has_value( ) and not s.erase( key( out ) ).has_value( ) and s.size( ) == CAP - 1 );
		for( unsigned k = 0; k < CAP; ++k ) CHECK( s.exists( key( k ) ) == ( k != out ) and s.count( key( k ) ) == ( k != out ? 1u : 0u ) );
		(void)s.insert( key( CAP + 4 ) );
		for( unsigned k = 0; k < CAP; ++k ) CHECK( s.exists( key( k ) ) == ( k != out ) );
		CHECK( s.exists( key( CAP + 4 ) ) and s.size( ) == CAP );
	}
	sym_reach( "end" );
}
//@ bounds: a table of 20 slots with 20 integer keys, any one of them written again
ENTRY fixed_many( ) {
	static constexpr unsigned CAP = 20;
	daw::static_hash_t<U, CAP> t{ };
	U v[CAP];
	for( unsigned k = 0; k < CAP; ++k ) { v[k] = sym_u32( "v" ); t[k * 37u] = v[k]; }
	unsigned const i = static_cast<unsigned>( sym_pick( "i", 0, CAP - 1 ) );
	t[i * 37u] = v[i] = sym_u32( "again" );
	auto const &c = t;
	for( unsigned k = 0; k < CAP; ++k ) CHECK( t[k * 37u] == v[k] and c[k * 37u] == v[k] and t.find( k * 37u ) < CAP );
	CHECK( throws_as<std::out_of_range>( [&] { t[5000u] = 1; } ) );
	sym_reach( "end" );
}
