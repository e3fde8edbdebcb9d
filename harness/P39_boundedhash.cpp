// bounded_hash_map, bounded_hash_set, fixed_lookup and the bounded graph built on them
//@ bounds: capacity 3, sequences of 3-4 (4-5) operations; colliding hashes with fully symbolic keys, spread hashes with 5 keys; graphs of <=3 nodes
#include "stdrt.h"
#include "common.h"
#include <daw/deprecated/daw_bounded_hash_map.h>
#include <daw/deprecated/daw_bounded_hash_set.h>
#include <daw/deprecated/daw_bounded_graph.h>
#include <daw/deprecated/daw_fixed_lookup.h>

namespace {
	struct Collide {
		constexpr std::size_t operator( )( uint32_t ) const noexcept {
			return 7;
		}
	};
	struct Spread {
		constexpr std::size_t operator( )( uint32_t k ) const noexcept {
			return k;
		}
	};
	inline constexpr std::size_t CAP = 3;
	struct Model {
		uint32_t k[CAP + 1];
		uint32_t v[CAP + 1];
		std::size_t n = 0;
		std::size_t find( uint32_t key ) const {
			for( std::size_t i = 0; i < n; ++i ) {
				if( k[i] == key ) {
					return i;
				}
			}
			return n;
		}
		void put( uint32_t key, uint32_t val ) {
			auto const i = find( key );
			k[i] = key;
			v[i] = val;
			if( i == n ) {
				++n;
			}
		}
		void drop( uint32_t key ) {
			auto const i = find( key );
			if( i != n ) {
				--n;
				k[i] = k[n];
				v[i] = v[n];
			}
		}
	};
	template<bool Symbolic>
	uint32_t key( ) {
		if constexpr( Symbolic ) {
			return sym<uint8_t>( "key" );
		} else {
			return static_cast<uint32_t>( sym_pick( "key", 0, 4 ) );
		}
	}
	template<typename M>
	void probe( M &b, Model const &m, uint32_t k ) {
		M const &cb = b;
		auto const i = m.find( k );
		bool const in = i != m.n;
		CHECK( cb.exists( k ) == in );
		CHECK( cb.count( k ) == ( in ? 1u : 0u ) );
		if( in ) {
			CHECK( b.find( k ) != b.end( ) and b.find( k )->key == k and b.find( k )->value == m.v[i] );
			CHECK( cb.find( k ) != cb.end( ) and cb.find( k )->key == k and ( *cb.find( k ) ).value == m.v[i] );
			CHECK( cb.try_get( k ) and *cb.try_get( k ) == m.v[i] );
			CHECK( cb[k] == m.v[i] and b[k] == m.v[i] );
		} else {
			CHECK( b.find( k ) == b.end( ) and cb.find( k ) == cb.end( ) and cb.find( k ) == cb.cend( ) );
			CHECK( not cb.try_get( k ) );
		}
	}
	template<typename M>
	void whole( M &b, Model const &m ) {
		M const &cb = b;
		CHECK( cb.size( ) == m.n and static_cast<bool>( cb.empty( ) ) == ( m.n == 0 ) and cb.capacity( ) == CAP );
		std::size_t n = 0;
		for( auto &kv : b ) {
			auto const i = m.find( kv.key );
			CHECK( i != m.n and kv.value == m.v[i] );
			++n;
		}
		CHECK( n == m.n );
		n = 0;
		for( auto it = cb.begin( ); it != cb.end( ); it++ ) {
			auto const i = m.find( it->key );
			CHECK( i != m.n and ( *it ).value == m.v[i] );
			++n;
		}
		CHECK( n == m.n );
		CHECK( cb.begin( ) == cb.cbegin( ) and b.begin( ) == cb.begin( ) );
		// backwards over the same items
		auto bk = b.end( );
		auto cbk = cb.end( );
		while( n > 0 ) {
			--bk;
			--cbk;
			--n;
			CHECK( bk == cbk and m.find( bk->key ) != m.n and bk->value == m.v[m.find( bk->key )] );
		}
		CHECK( bk == b.begin( ) and cbk == cb.begin( ) );
		for( std::size_t i = 0; i < m.n; ++i ) {
			CHECK( cb.exists( m.k[i] ) and *cb.try_get( m.k[i] ) == m.v[i] );
		}
	}
	template<typename H, bool S>
	void map_history( int ops ) {
		daw::bounded_hash_map<uint32_t, uint32_t, CAP, H> b;
		Model m;
		whole( b, m );
		for( int op = 0; op < ops; ++op ) {
			uint32_t const k = key<S>( );
			uint32_t const v = sym<uint32_t>( "value" );
			bool const room = m.find( k ) != m.n or m.n < CAP;
			switch( sym_pick( "op", 0, 3 ) ) {
			case 0:
				if( not room ) {
					sym_expect_terminate( true );
				}
				b.insert( k, v );
				m.put( k, v );
				break;
			case 1:
				if( not room ) {
					sym_expect_terminate( true );
				}
				b.insert( std::pair<uint32_t const, uint32_t>( k, v ) );
				m.put( k, v );
				break;
			case 2: {
				if( not room ) {
					sym_expect_terminate( true );
				}
				bool const had = m.find( k ) != m.n;
				uint32_t &r = op & 1 ? b[k] : b[uint32_t( k )];
				CHECK( r == ( had ? m.v[m.find( k )] : 0u ) );
				r = v;
				m.put( k, v );
				break;
			}
			default:
				b.erase( k );
				m.drop( k );
				break;
			}
			CHECK( room or true );
			whole( b, m );
		}
		probe( b, m, key<S>( ) );
		auto c = b;
		whole( c, m );
	}
	template<typename H, bool S>
	void set_history( int ops ) {
		daw::bounded_hash_set_t<uint32_t, CAP, H> b;
		auto const &cb = b;
		Model m;
		for( int op = 0; op < ops; ++op ) {
			uint32_t const k = key<S>( );
			bool const in = m.find( k ) != m.n;
			bool const room = in or m.n < CAP;
			switch( sym_pick( "op", 0, 2 ) ) {
			case 0:
				if( not room ) {
					sym_expect_terminate( true );
				}
				CHECK( *b.insert( static_cast<uint32_t const &>( k ) ) == k );
				m.put( k, 0 );
				break;
			case 1:
				if( not room ) {
					sym_expect_terminate( true );
				}
				CHECK( *b.insert( uint32_t( k ) ) == k );
				m.put( k, 0 );
				break;
			default:
				CHECK( b.erase( k ).has_value( ) == in );
				m.drop( k );
				break;
			}
			CHECK( b.size( ) == m.n and static_cast<bool>( b.empty( ) ) == ( m.n == 0 ) and b.capacity( ) == CAP );
			std::size_t n = 0;
			for( auto x : b ) {
				CHECK( m.find( x ) != m.n );
				++n;
			}
			CHECK( n == m.n );
			n = 0;
			for( auto x : cb ) {
				CHECK( m.find( x ) != m.n );
				++n;
			}
			CHECK( n == m.n );
			auto bk = b.end( );
			auto cbk = cb.cend( );
			while( n > 0 ) {
				--bk;
				--cbk;
				--n;
				CHECK( bk == cbk and m.find( *bk ) != m.n );
			}
			CHECK( bk == b.begin( ) and cbk == cb.cbegin( ) );
			for( std::size_t i = 0; i < m.n; ++i ) {
				CHECK( cb.exists( m.k[i] ) );
			}
		}
		uint32_t const k = key<S>( );
		bool const in = m.find( k ) != m.n;
		CHECK( cb.exists( k ) == in and cb.count( k ) == in );
		if( in ) {
			CHECK( *b.find( k ) == k and *cb.find( k ) == k );
		} else {
			CHECK( b.find( k ) == b.end( ) and cb.find( k ) == cb.end( ) );
		}
	}
} // namespace
//@ q:ops=4 t:ops=5
ENTRY map_colliding( ) {
	map_history<Collide, true>( static_cast<int>( sym_param( "ops", 4 ) ) );
}
//@ q:ops=3 t:ops=4
ENTRY map_spread( ) {
	map_history<Spread, false>( static_cast<int>( sym_param( "ops", 3 ) ) );
}
// filled first, so that taking out and wrapping around are reached with few operations
ENTRY map_full( ) {
	daw::bounded_hash_map<uint32_t, uint32_t, CAP, Spread> b;
	Model m;
	uint32_t k0 = key<false>( ), k1 = key<false>( ), k2 = key<false>( );
	if( k0 == k1 or k0 == k2 or k1 == k2 ) {
		return;
	}
	for( uint32_t k : { k0, k1, k2 } ) {
		uint32_t const v = sym<uint32_t>( "value" );
		b.insert( k, v );
		m.put( k, v );
	}
	whole( b, m );
	uint32_t const d = key<false>( );
	b.erase( d );
	m.drop( d );
	whole( b, m );
	probe( b, m, key<false>( ) );
	if( m.n < CAP ) {
		uint32_t const k = key<false>( );
		uint32_t const v = sym<uint32_t>( "value" );
		b.insert( k, v );
		m.put( k, v );
		whole( b, m );
	}
}
ENTRY map_missing( ) {
	daw::bounded_hash_map<uint32_t, uint32_t, CAP, Spread> b;
	b.insert( uint32_t{ 1 }, uint32_t{ 5 } );
	auto const k = sym_range<uint32_t>( "key", 0, 3 );
	if( k != 1 ) {
		sym_expect_terminate( true );
	}
	CHECK( std::as_const( b )[k] == 5 );
	CHECK( k == 1 );
}
namespace {
	// every comparison of positions i and j, mutable and constant
	template<typename It, typename CIt>
	void compare_all( It a, CIt ca, It b, CIt cb, int i, int j ) {
		bool const eq = i == j;
		int const want = i < j ? -1 : i > j ? 1 : 0;
		CHECK( ( a == b ) == eq and ( ca == cb ) == eq and ( a == cb ) == eq and ( ca == b ) == eq );
		CHECK( ( a != b ) != eq and ( ca != cb ) != eq and ( a != cb ) != eq and ( ca != b ) != eq );
		CHECK( a.compare( b ) == want and ca.compare( cb ) == want and a.compare( cb ) == want and ca.compare( b ) == want );
		CIt const conv = a;
		CHECK( ( conv == ca ) );
	}
	template<typename C, typename Key>
	void walk( C &c, Key key_of, std::size_t n ) {
		auto const &cc = c;
		int const i = sym_pick( "i", 0, 3 ), j = sym_pick( "j", 0, 3 );
		if( i > static_cast<int>( n ) or j > static_cast<int>( n ) ) {
			return;
		}
		auto a = c.begin( ), b = c.begin( );
		auto ca = cc.begin( ), cb = cc.cbegin( );
		for( int k = 0; k < i; ++k ) {
			auto old = a++;
			auto cold = ca++;
			CHECK( old.compare( a ) == -1 and cold.compare( ca ) == -1 );
		}
		for( int k = 0; k < j; ++k ) {
			++b;
			++cb;
		}
		compare_all( a, ca, b, cb, i, j );
		for( int k = i; k > 0; --k ) {
			auto old = a--;
			auto cold = ca--;
			CHECK( old.compare( a ) == 1 and cold.compare( ca ) == 1 and cold.compare( old ) == 0 );
		}
		CHECK( a == c.begin( ) and ca == cc.begin( ) );
		// from a found key in both directions
		if( j < static_cast<int>( n ) ) {
			auto const key = key_of( b );
			auto f = c.find( key );
			auto cf = cc.find( key );
			CHECK( f == b and cf == cb );
			for( int k = j; k > 0; --k ) {
				--f;
				--cf;
			}
			CHECK( f == c.begin( ) and cf == cc.begin( ) );
		}
	}
} // namespace
ENTRY map_positions( ) {
	daw::bounded_hash_map<uint32_t, uint32_t, CAP, Spread> b;
	std::size_t n = 0;
	for( uint32_t k = 0; k < 5 and n < CAP; ++k ) {
		if( sym<bool>( "in" ) ) {
			b.insert( uint32_t( k ), uint32_t( k ) );
			++n;
		}
	}
	walk( b, []( auto &it ) { return it->key; }, n );
}
ENTRY set_positions( ) {
	daw::bounded_hash_set_t<uint32_t, CAP, Spread> b;
	std::size_t n = 0;
	for( uint32_t k = 0; k < 5 and n < CAP; ++k ) {
		if( sym<bool>( "in" ) ) {
			auto it = b.insert( k );
			auto const &cit = it;
			CHECK( *it.operator->( ) == k and *cit == k );
			++n;
		}
	}
	walk( b, []( auto &it ) { return *it; }, n );
}
ENTRY map_made( ) {
	std::pair<uint32_t, uint32_t> const items[3] = { { sym<uint8_t>( "k" ), sym<uint32_t>( "v" ) }, { sym<uint8_t>( "k" ), sym<uint32_t>( "v" ) }, { sym<uint8_t>( "k" ), sym<uint32_t>( "v" ) } };
	Model m;
	for( auto const &i : items ) {
		m.put( i.first, i.second );
	}
	daw::bounded_hash_map<uint32_t, uint32_t, CAP, Collide> a( items );
	whole( a, m );
	daw::bounded_hash_map<uint32_t, uint32_t, CAP, Collide> b( items, items + 3 );
	whole( b, m );
	static constexpr std::pair<uint32_t, uint32_t> fixed[2] = { { 4, 40 }, { 9, 90 } };
	constexpr auto c = daw::make_bounded_hash_map<uint32_t, uint32_t, Spread>( fixed );
	CHECK( c.size( ) == 2 and c[4] == 40 and c[9] == 90 and not c.exists( 5 ) );
}
//@ q:ops=5 t:ops=5
ENTRY set_colliding( ) {
	set_history<Collide, true>( static_cast<int>( sym_param( "ops", 4 ) ) );
}
//@ q:ops=4 t:ops=4
ENTRY set_spread( ) {
	set_history<Spread, false>( static_cast<int>( sym_param( "ops", 4 ) ) );
}
ENTRY set_made( ) {
	uint32_t const items[3] = { sym<uint8_t>( "k" ), sym<uint8_t>( "k" ), sym<uint8_t>( "k" ) };
	auto s = daw::make_bounded_hash_set<uint32_t, Collide>( items );
	std::size_t const distinct = 1u + ( items[1] != items[0] ) + ( items[2] != items[0] and items[2] != items[1] );
	CHECK( s.size( ) == distinct );
	for( auto k : items ) {
		CHECK( s.exists( k ) );
	}
	uint32_t const o = sym<uint8_t>( "other" );
	CHECK( s.exists( o ) == ( o == items[0] or o == items[1] or o == items[2] ) );
}
namespace {
	template<std::size_t HashSize>
	void lookup( ) {
		LeakGuard g;
		{
			daw::fixed_lookup<Track, CAP, HashSize> f;
			CHECK( f.size( ) == 0 and f.capacity( ) == CAP );
			Model m;
			for( int op = 0; op < 3; ++op ) {
				uint32_t const k = key<false>( );
				uint32_t const v = sym<uint32_t>( "value" );
				auto const at = m.find( k );
				CHECK( f.exists( k ) == ( at != m.n ) );
				if( op & 1 ) {
					auto const pos = f.insert( k, Track( v ) );
					CHECK( pos < CAP and f.get_existing( pos ).get( ) == v and std::as_const( f ).get_existing( pos ).get( ) == v and f.find_existing( k ) == pos );
				} else {
					CHECK( f[k].get( ) == ( at != m.n ? m.v[at] : 0u ) );
					f[k] = Track( v );
				}
				m.put( k, v );
				CHECK( f.size( ) == m.n );
				for( std::size_t i = 0; i < m.n; ++i ) {
					CHECK( f.exists( m.k[i] ) and std::as_const( f )[m.k[i]].get( ) == m.v[i] );
				}
			}
			uint32_t const k = key<false>( );
			if( m.find( k ) == m.n ) {
				CHECK( not f.exists( k ) );
				CHECK( throws( [&] { (void)f.find_existing( k ); } ) );
				CHECK( throws( [&] { (void)std::as_const( f )[k]; } ) );
				if( m.n == CAP ) {
					CHECK( throws( [&] { (void)f[k]; } ) );
					CHECK( throws( [&] { (void)f.insert( k, Track( 1u ) ); } ) );
					CHECK( f.size( ) == CAP and not f.exists( k ) );
				}
			}
			auto c = f;
			for( std::size_t i = 0; i < m.n; ++i ) {
				CHECK( c.exists( m.k[i] ) and c[m.k[i]].get( ) == m.v[i] );
			}
		}
	}
} // namespace
ENTRY lookup_wide( ) {
	lookup<8>( );
}
ENTRY lookup_narrow( ) {
	lookup<4>( );
}
ENTRY lookup_made( ) {
	auto f = daw::make_fixed_lookup<uint32_t>( 3, 70, 11 );
	CHECK( f.size( ) == 3 and f.exists( 3 ) and f.exists( 70 ) and f.exists( 11 ) and not f.exists( 4 ) );
	uint32_t const v = sym<uint32_t>( "v" );
	f[70] = v;
	CHECK( f[70] == v and f[3] == 0 and f[11] == 0 );
}
namespace {
	using G = daw::bounded_graph_t<uint32_t, 4, std::hash<std::size_t>>;
	struct GM {
		bool node[4] = { };
		uint32_t value[4] = { };
		bool edge[4][4] = { };
		std::size_t made = 0;
	};
	void same( G &g, GM const &m ) {
		G const &cg = g;
		std::size_t n = 0;
		for( std::size_t i = 0; i < m.made; ++i ) {
			auto const id = daw::node_id_t( i );
			CHECK( cg.has_node( id ) == m.node[i] );
			if( not m.node[i] ) {
				continue;
			}
			++n;
			CHECK( cg.get_node( id ).value( ) == m.value[i] and g.get_node( id ).value( ) == m.value[i] and cg.get_raw_node( id ).value( ) == m.value[i] );
			CHECK( cg.get_node( id ).id( ) == id and g.get_raw_node( id ).id( ) == id and cg.get_node( id ).graph( ) == &g );
			std::size_t out = 0, in = 0;
			for( std::size_t j = 0; j < m.made; ++j ) {
				auto const jd = daw::node_id_t( j );
				CHECK( cg.get_node( id ).outgoing_edges( ).exists( jd ) == m.edge[i][j] );
				CHECK( g.get_node( id ).incoming_edges( ).exists( jd ) == m.edge[j][i] );
				out += m.edge[i][j];
				in += m.edge[j][i];
			}
			CHECK( g.get_node( id ).outgoing_edges( ).size( ) == out and cg.get_node( id ).incoming_edges( ).size( ) == in );
		}
		CHECK( cg.size( ) == n );
		auto const roots = cg.find_roots( );
		auto const leaves = cg.find_leaves( );
		std::size_t nr = 0, nl = 0;
		for( std::size_t i = 0; i < m.made; ++i ) {
			bool root = m.node[i], leaf = m.node[i];
			for( std::size_t j = 0; j < m.made; ++j ) {
				root = root and not m.edge[j][i];
				leaf = leaf and not m.edge[i][j];
			}
			std::size_t cr = 0, cl = 0;
			for( auto x : roots ) {
				cr += x == daw::node_id_t( i );
			}
			for( auto x : leaves ) {
				cl += x == daw::node_id_t( i );
			}
			CHECK( cr == root and cl == leaf );
			nr += root;
			nl += leaf;
		}
		CHECK( roots.size( ) == nr and leaves.size( ) == nl );
	}
} // namespace
//@ q:ops=3 t:ops=4
ENTRY bounded_graphs( ) {
	G g;
	GM m;
	for( int i = 0; i < 3; ++i ) {
		m.value[i] = sym<uint32_t>( "value" );
		auto id = g.add_node( m.value[i] );
		CHECK( id == daw::node_id_t( static_cast<std::size_t>( i ) ) and static_cast<bool>( id ) );
		m.node[i] = true;
		++m.made;
	}
	int const ops = static_cast<int>( sym_param( "ops", 3 ) );
	for( int op = 0; op < ops; ++op ) {
		auto const a = static_cast<std::size_t>( sym_pick( "a", 0, 2 ) );
		int const how = sym_pick( "op", 0, 4 );
		auto const b = how == 4 ? a : static_cast<std::size_t>( sym_pick( "b", 0, 2 ) );
		if( not m.node[a] or not m.node[b] ) {
			return;
		}
		auto const ia = daw::node_id_t( a ), ib = daw::node_id_t( b );
		switch( how ) {
		case 0:
			g.add_directed_edge( ia, ib );
			m.edge[a][b] = true;
			break;
		case 1:
			g.add_undirected_edge( ia, ib );
			m.edge[a][b] = m.edge[b][a] = true;
			break;
		case 2:
			g.remove_directed_edge( ia, ib );
			m.edge[a][b] = false;
			break;
		case 3:
			g.remove_edges( ia, ib );
			m.edge[a][b] = m.edge[b][a] = false;
			break;
		default:
			g.remove_node( ia );
			m.node[a] = false;
			for( std::size_t i = 0; i < 4; ++i ) {
				m.edge[a][i] = m.edge[i][a] = false;
			}
			break;
		}
	}
	same( g, m );
}
ENTRY bounded_graph_queries( ) {
	G g;
	GM m;
	for( int i = 0; i < 3; ++i ) {
		m.value[i] = sym<uint8_t>( "value" );
		g.add_node( m.value[i] );
		m.node[i] = true;
		++m.made;
	}
	uint32_t const needle = sym<uint8_t>( "needle" );
	auto const by = std::as_const( g ).find_by_value( needle );
	auto const less = std::as_const( g ).find( [&]( auto const &n ) {
		if constexpr( requires { n.value( ); } ) {
			return n.value( ) < needle;
		}
	} );
	std::size_t nb = 0, nl = 0;
	for( std::size_t i = 0; i < 3; ++i ) {
		std::size_t cb = 0, cl = 0;
		for( auto x : by ) {
			cb += x == daw::node_id_t( i );
		}
		for( auto x : less ) {
			cl += x == daw::node_id_t( i );
		}
		CHECK( cb == ( m.value[i] == needle ) and cl == ( m.value[i] < needle ) );
		nb += cb;
		nl += cl;
	}
	CHECK( by.size( ) == nb and less.size( ) == nl );
	// visiting changes exactly what the predicate selects
	g.visit( [&]( auto const &n ) { return n.value( ) == needle; }, []( auto &&n ) { n.value( ) = 1000; } );
	for( std::size_t i = 0; i < 3; ++i ) {
		CHECK( g.get_node( daw::node_id_t( i ) ).value( ) == ( m.value[i] == needle ? 1000u : m.value[i] ) );
	}
	// node handles
	auto const i0 = daw::node_id_t( 0 ), i1 = daw::node_id_t( 1 );
	G other;
	other.add_node( 1u );
	CHECK( g.get_node( i0 ) == g.get_node( i0 ) and not( g.get_node( i0 ) != g.get_node( i0 ) ) );
	CHECK( g.get_node( i0 ) != g.get_node( i1 ) and not( g.get_node( i0 ) == g.get_node( i1 ) ) );
	CHECK( g.get_node( i0 ) != other.get_node( i0 ) and not( g.get_node( i0 ) == other.get_node( i0 ) ) );
	CHECK( std::as_const( g ).get_node( i0 ) == std::as_const( g ).get_node( i0 ) and not( std::as_const( g ).get_node( i0 ) == std::as_const( g ).get_node( i1 ) ) );
	CHECK( g.get_node( i0 ) < g.get_node( i1 ) and not( g.get_node( i1 ) < g.get_node( i0 ) ) );
	CHECK( not daw::node_id_t{ } and i0 < i1 and i0.hash( ) != i1.hash( ) );
}
// every operation refuses a node that is not there
ENTRY bounded_graph_missing( ) {
	G g;
	auto const a = g.add_node( 1u );
	auto const gone = g.add_node( 2u );
	g.add_undirected_edge( a, gone );
	g.remove_node( gone );
	CHECK( g.get_raw_node( a ).outgoing_edges( ).empty( ) and not g.has_node( gone ) );
	CHECK( not g.get_raw_node( a ).empty( ) and static_cast<bool>( g.get_raw_node( a ) ) );
	CHECK( not g.get_node( a ).empty( ) and static_cast<bool>( g.get_node( a ) ) and not std::as_const( g ).get_node( a ).empty( ) and static_cast<bool>( std::as_const( g ).get_node( a ) ) );
	G::node_t const none{ };
	G::const_node_t const cnone{ };
	CHECK( none.empty( ) and not none and cnone.empty( ) and not cnone );
	CHECK( not daw::node_id_t{ } and a.compare( gone ) == -1 and gone.compare( a ) == 1 and a.compare( a ) == 0 and a != gone and not( a != a ) and not( gone < a ) );
	sym_expect_terminate( true );
	switch( sym_pick( "op", 0, 14 ) ) {
	case 0:
		(void)g.get_node( gone );
		break;
	case 1:
		(void)std::as_const( g ).get_node( gone );
		break;
	case 2:
		(void)g.get_raw_node( gone );
		break;
	case 3:
		(void)std::as_const( g ).get_raw_node( gone );
		break;
	case 4:
		g.add_directed_edge( a, gone );
		break;
	case 5:
		g.add_directed_edge( gone, a );
		break;
	case 6:
		g.add_undirected_edge( a, gone );
		break;
	case 7:
		g.add_undirected_edge( gone, a );
		break;
	case 8:
		g.remove_node( gone );
		break;
	case 9:
		g.remove_directed_edge( a, gone );
		break;
	case 10:
		g.remove_directed_edge( gone, a );
		break;
	case 11:
		g.remove_edges( a, gone );
		break;
	case 12:
		g.remove_edges( gone, a );
		break;
	case 13:
		(void)g.has_node( daw::node_id_t{ } );
		break;
	default:
		(void)none.value( );
		break;
	}
	sym_assert( false, "an operation on a missing node went through" );
}
//@ bounds: a map of capacity 17 filled with given keys (in order, colliding or far apart), any one taken out, another added
ENTRY map_many( ) {
	static constexpr std::size_t N = 17;
	unsigned const w = static_cast<unsigned>( sym_pick( "w", 0, 2 ) );
	std::size_t const out = static_cast<std::size_t>( sym_pick( "out", 0, N - 1 ) );
	auto key = [w]( std::size_t k ) { return static_cast<uint32_t>( w == 0 ? k : w == 1 ? k % 3 + N * k : k << 24 ); };
	daw::bounded_hash_map<uint32_t, uint32_t, N, Spread> b;
	uint32_t v[N];
	for( std::size_t k = 0; k < N; ++k ) {
		v[k] = sym<uint32_t>( "v" );
		CHECK( not b.exists( key( k ) ) );
		b.insert( key( k ), v[k] );
		CHECK( b.size( ) == k + 1 );
	}
	for( std::size_t k = 0; k < N; ++k ) {
		CHECK( b.exists( key( k ) ) and b[key( k )] == v[k] );
	}
	b.erase( key( out ) );
	CHECK( b.size( ) == N - 1 );
	std::size_t n = 0;
	for( auto &kv : b ) {
		CHECK( kv.key != key( out ) );
		++n;
	}
	CHECK( n == N - 1 );
	auto const x = sym<uint32_t>( "x" );
	b.insert( key( N + 3 ), x );
	for( std::size_t k = 0; k < N; ++k ) {
		CHECK( b.exists( key( k ) ) == ( k != out ) );
		if( k != out ) {
			CHECK( *b.try_get( key( k ) ) == v[k] );
		}
	}
	CHECK( b[key( N + 3 )] == x and b.size( ) == N );
}
