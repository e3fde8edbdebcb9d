#include "common.h"
#include "stdrt.h"
#include <memory>
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;
#include <daw/daw_graph.h>
#include <daw/daw_graph_algorithm.h>

using U = uint32_t;
using G = daw::graph_t<U>;
using daw::node_id_t;
static constexpr unsigned MX = 6;
struct Model {
	unsigned n = 0; // ids handed out
	bool has[MX]{};
	U val[MX]{};
	bool e[MX][MX]{};
	bool reach[MX][MX]{};
	void close( ) {
		for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) reach[i][j] = i == j or e[i][j];
		for( unsigned k = 0; k < n; ++k ) for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) reach[i][j] |= reach[i][k] and reach[k][j];
	}
	bool cyclic( ) const {
		for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) if( e[i][j] and reach[j][i] ) return true;
		return false;
	}
};
static unsigned idx( node_id_t id, unsigned n ) {
	for( unsigned i = 0; i < n; ++i ) if( id == node_id_t{ i } ) return i;
	return MX;
}
static void same( G const &g, Model const &m ) {
	unsigned cnt = 0;
	for( unsigned i = 0; i < m.n; ++i ) {
		node_id_t a{ i };
		CHECK( g.has_node( a ) == m.has[i] );
		if( not m.has[i] ) continue;
		++cnt;
		auto nd = g.get_node( a );
		CHECK( nd.id( ) == a and nd.graph( ) == &g and nd.value( ) == m.val[i] and static_cast<bool>( nd ) and not nd.empty( ) );
		unsigned in = 0, ou = 0;
		for( unsigned j = 0; j < m.n; ++j ) {
			bool o = m.has[j] and m.e[i][j], c = m.has[j] and m.e[j][i];
			CHECK( ( nd.outgoing_edges( ).count( node_id_t{ j } ) == 1 ) == o and ( nd.incoming_edges( ).count( node_id_t{ j } ) == 1 ) == c );
			ou += o; in += c;
		}
		CHECK( nd.outgoing_edges( ).size( ) == ou and nd.incoming_edges( ).size( ) == in );
	}
	CHECK( g.size( ) == cnt and g.empty( ) == ( cnt == 0 ) and not g.has_node( node_id_t{ m.n } ) );
}
template<typename V, typename P>
static void exactly( V const &v, Model const &m, P p ) {
	unsigned cnt = 0;
	for( unsigned i = 0; i < m.n; ++i ) {
		unsigned c = 0;
		for( auto const &x : v ) if( x == node_id_t{ i } ) ++c;
		bool w = m.has[i] and p( i );
		CHECK( c == ( w ? 1u : 0u ) );
		cnt += w;
	}
	CHECK( v.size( ) == cnt );
}
//@ bounds: 3 nodes, histories of 4 operations (thorough 5), all values
//@ q:n=3,time=100 t:n=4,time=800
ENTRY editing( ) {
	G g; Model m;
	auto add = [&] { U v = sym_u32( "v" ); auto id = g.add_node( v ); CHECK( id == node_id_t{ m.n } ); m.has[m.n] = true; m.val[m.n++] = v; };
	add( ); add( ); add( );
	unsigned n = static_cast<unsigned>( sym_param( "n", 3 ) );
	for( unsigned s = 0; s < n; ++s ) {
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
		if( op == 0 ) { if( m.n < MX ) add( ); }
		else {
			unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 2 ) );
			if( not m.has[i] ) continue;
			node_id_t a{ i };
			if( op == 1 ) { g.remove_node( a ); m.has[i] = false; for( unsigned j = 0; j < MX; ++j ) m.e[i][j] = m.e[j][i] = false; }
			else {
				unsigned j = static_cast<unsigned>( sym_pick( "j", 0, 2 ) );
				if( not m.has[j] ) continue;
				node_id_t b{ j };
				switch( op ) {
				case 2: g.add_directed_edge( a, b ); m.e[i][j] = true; break;
				case 3: g.add_undirected_edge( a, b ); m.e[i][j] = m.e[j][i] = true; break;
				case 4: g.remove_directed_edge( a, b ); m.e[i][j] = false; break;
				default: g.remove_edges( a, b ); m.e[i][j] = m.e[j][i] = false; break;
				}
			}
		}
	}
	same( g, m );
	G c = g; same( c, m );
	sym_reach( "end" );
}
//@ bounds: 3 nodes with any edges, all values and predicates over them
//@ q:time=100
ENTRY queries( ) {
	G g; Model m;
	bool dead = sym_pick( "dead", 0, 1 );
	for( unsigned i = 0; i < 4; ++i ) { U v = sym_u32( "v" ); g.add_node( v ); m.has[i] = true; m.val[i] = v; ++m.n; }
	for( unsigned i = 0; i < 3; ++i ) for( unsigned j = 0; j < 3; ++j ) if( i != j and sym_pick( "e", 0, 1 ) ) { g.add_directed_edge( node_id_t{ i }, node_id_t{ j } ); m.e[i][j] = true; }
	g.add_directed_edge( node_id_t{ 1 }, node_id_t{ 3 } ); m.e[1][3] = true;
	if( dead ) { g.remove_node( node_id_t{ 1 } ); m.has[1] = false; for( unsigned j = 0; j < MX; ++j ) m.e[1][j] = m.e[j][1] = false; }
	G const &cg = g;
	exactly( cg.find_roots( ), m, [&]( unsigned i ) { for( unsigned j = 0; j < m.n; ++j ) if( m.e[j][i] ) return false; return true; } );
	exactly( cg.find_leaves( ), m, [&]( unsigned i ) { for( unsigned j = 0; j < m.n; ++j ) if( m.e[i][j] ) return false; return true; } );
	same( g, m );
	sym_reach( "end" );
}
//@ bounds: 3 nodes, all values
//@ q:time=100
ENTRY values( ) {
	G g; Model m;
	for( unsigned i = 0; i < 3; ++i ) { U v = sym_u32( "v" ); g.add_node( v ); m.has[i] = true; m.val[i] = v; ++m.n; }
	U k = sym_u32( "k" );
	G const &cg = g;
	exactly( cg.find_by_value( k ), m, [&]( unsigned i ) { return m.val[i] == k; } );
	exactly( cg.find_by_value( k, []( U a, U b ) { return a < b; } ), m, [&]( unsigned i ) { return m.val[i] < k; } );
	exactly( cg.find( [&]( auto const &n ) { return n.value( ) > k; } ), m, [&]( unsigned i ) { return m.val[i] > k; } );
	std::vector<node_id_t> seen;
	cg.visit( [&]( auto const &n ) { seen.push_back( n.id( ) ); } ); exactly( seen, m, []( unsigned ) { return true; } );
	seen.clear( ); cg.visit( [&]( auto const &n ) { return n.value( ) == k; }, [&]( auto const &n ) { seen.push_back( n.id( ) ); } ); exactly( seen, m, [&]( unsigned i ) { return m.val[i] == k; } );
	g.visit( [&]( auto const &n ) { return n.value( ) == k; }, []( auto n ) { n.value( ) += 1; } );
	for( unsigned i = 0; i < 3; ++i ) if( m.val[i] == k ) m.val[i] += 1;
	same( g, m );
	seen.clear( ); g.visit( [&]( auto n ) { n.value( ) ^= 3u; seen.push_back( n.id( ) ); } ); exactly( seen, m, []( unsigned ) { return true; } );
	for( unsigned i = 0; i < 3; ++i ) m.val[i] ^= 3u;
	same( g, m );
	sym_reach( "end" );
}
//@ bounds: all pairs of 3 nodes of two graphs and null nodes
ENTRY nodes( ) {
	G g, h;
	for( unsigned i = 0; i < 3; ++i ) { g.add_node( i ); h.add_node( i ); }
	unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 2 ) ), j = static_cast<unsigned>( sym_pick( "j", 0, 2 ) );
	G &o = sym_pick( "o", 0, 1 ) ? g : h;
	bool eq = i == j and &o == &g;
	auto a = g.get_node( node_id_t{ i } ); auto b = o.get_node( node_id_t{ j } );
	G const &cg = g, &co = o;
	auto const ca = cg.get_node( node_id_t{ i } ); auto const cb = co.get_node( node_id_t{ j } );
	auto const ka = a;
	daw::const_graph_node_t<U> cc = b;
	CHECK( ( a == b ) == eq and ( a != b ) == not eq and ( ca == cb ) == eq and ( ca != cb ) == not eq and ( ka == b ) == eq and ( ca == cc ) == eq );
	CHECK( a.operator==( cb ) == eq and ca.operator!=( b ) == not eq );
	if( &o == &g ) CHECK( ( a < b ) == ( i < j ) and ( ca < cb ) == ( i < j ) );
	a.value( ) = 9; CHECK( ca.value( ) == 9 and ka.value( ) == 9 and g.get_raw_node( node_id_t{ i } ).value( ) == 9 and cg.get_raw_node( node_id_t{ i } ).id( ) == node_id_t{ i } );
	daw::graph_node_t<U> n; daw::const_graph_node_t<U> cn;
	CHECK( n.empty( ) and not n and cn.empty( ) and not cn and not node_id_t{ } and node_id_t{ 0 } and a != n and cn != ca );
	CHECK( ( node_id_t{ i } == node_id_t{ j } ) == ( i == j ) and ( node_id_t{ i } != node_id_t{ j } ) == ( i != j ) and ( node_id_t{ i } < node_id_t{ j } ) == ( i < j ) );
	sym_reach( "end" );
}
static unsigned build( G &g, Model &m, bool may_loop ) {
	// three nodes with loops from a node to itself, or all of them without
	unsigned n = static_cast<unsigned>( sym_param( "nodes", 4 ) );
	bool const loops = may_loop and ( n < 4 or sym_pick( "loops", 0, 1 ) == 1 );
	if( loops ) n = 3;
	for( unsigned i = 0; i < n; ++i ) { g.add_node( i * 10 ); m.has[i] = true; m.val[i] = i * 10; }
	m.n = n;
	for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) {
		if( i == j and not loops ) continue;
		if( sym_pick( "e", 0, 1 ) ) { g.add_directed_edge( node_id_t{ i }, node_id_t{ j } ); m.e[i][j] = true; }
	}
	m.close( );
	return n;
}
static void topo( std::vector<unsigned> const &v, Model const &m ) {
	// every node that no cycle leads to, exactly once, after all its predecessors
	bool done[MX]{};
	for( unsigned x : v ) {
		CHECK( x < m.n and not done[x] );
		for( unsigned p = 0; p < m.n; ++p ) CHECK( not m.e[p][x] or done[p] );
		done[x] = true;
	}
	for( unsigned x = 0; x < m.n; ++x ) {
		bool blocked = false;
		for( unsigned a = 0; a < m.n; ++a ) for( unsigned b = 0; b < m.n; ++b ) blocked |= m.e[a][b] and m.reach[b][a] and m.reach[a][x];
		CHECK( done[x] == not blocked );
	}
}
//@ bounds: every directed graph of 3 nodes including loops and of 4 nodes without loops
//@ q:nodes=4,time=150 t:nodes=4,time=800
ENTRY topological( ) {
	G g; Model m;
	unsigned n = build( g, m, true );
	G const &cg = g;
	std::vector<unsigned> v;
	daw::topological_sorted_walk( g, [&]( auto const &x ) { v.push_back( idx( x.id( ), n ) ); } );
	topo( v, m );
	std::vector<unsigned> w;
	auto less = []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); };
	daw::topological_sorted_walk( cg, [&]( auto const &x ) { w.push_back( idx( x.id( ), n ) ); }, less );
	topo( w, m );
	{ // among the nodes that are ready, the greatest comes first
		bool done[MX]{};
		for( unsigned x : w ) {
			for( unsigned y = x + 1; y < n; ++y ) {
				bool ready = not done[y];
				for( unsigned p = 0; p < n; ++p ) if( m.e[p][y] and not done[p] ) ready = false;
				CHECK( not ready );
			}
			done[x] = true;
		}
	}
	std::vector<unsigned> r;
	daw::reverse_topological_sorted_walk( cg, [&]( auto const &x ) { r.push_back( idx( x.id( ), n ) ); }, less );
	CHECK( r.size( ) == w.size( ) );
	for( size_t i = 0; i < r.size( ); ++i ) CHECK( r[i] == w[w.size( ) - 1 - i] );
	r.clear( ); daw::reverse_topological_sorted_walk( g, [&]( auto const &x ) { r.push_back( idx( x.id( ), n ) ); }, less );
	for( size_t i = 0; i < r.size( ); ++i ) CHECK( r[i] == w[w.size( ) - 1 - i] );
	CHECK( r.size( ) == w.size( ) );
	auto rng = daw::make_topological_sorted_range( g, less );
	CHECK( rng.size( ) == w.size( ) and rng.empty( ) == w.empty( ) );
	size_t k = 0;
	for( auto it = rng.begin( ); it != rng.end( ); ++it, ++k ) CHECK( k < w.size( ) and idx( it->id( ), n ) == w[k] and idx( ( *it ).id( ), n ) == w[k] );
	CHECK( k == w.size( ) );
	for( auto it = rng.rbegin( ); it != rng.rend( ); ++it ) { CHECK( k > 0 and idx( ( *it ).id( ), n ) == w[k - 1] ); --k; }
	CHECK( k == 0 );
	auto rr = daw::make_reverse_topological_sorted_range( cg, less );
	k = w.size( );
	for( auto it = rr.begin( ); it != rr.end( ); ++it ) { CHECK( k > 0 and idx( ( *it ).id( ), n ) == w[k - 1] ); --k; }
	CHECK( k == 0 );
	for( auto it = rr.rbegin( ); it != rr.rend( ); it++ ) { CHECK( k < w.size( ) and idx( it->id( ), n ) == w[k] ); ++k; }
	CHECK( k == w.size( ) and rr.size( ) == k );
	if( k > 1 ) {
		auto b = rng.begin( ); auto const e = b.end( ); auto l = e; l--; --l;
		CHECK( ( b < e ) and b <= e and not( b > e ) and e >= b and b == rng.begin( ) and idx( ( b + 1 )->id( ), n ) == w[1] and ( e - 1 ) != b and idx( l->id( ), n ) == w[k - 2] and e.end( ) == e );
		b += 1; CHECK( b.size( ) == k - 1 ); b -= 1; CHECK( b.size( ) == k );
		auto const &cb = b; CHECK( cb.end( ) == e and idx( ( *cb ).id( ), n ) == w[0] and idx( cb->id( ), n ) == w[0] and not cb.empty( ) and e.empty( ) and e.size( ) == 0 );
		CHECK( not( b < b ) and b <= b and not( b > b ) and b >= b and not( b != b ) and e > b and not( e <= b ) and not( b >= e ) and not( e < b ) );
		auto old = b++; CHECK( idx( old->id( ), n ) == w[0] and idx( b->id( ), n ) == w[1] ); old = b--; CHECK( idx( old->id( ), n ) == w[1] and idx( b->id( ), n ) == w[0] );
		auto &r1 = ++b; CHECK( &r1 == &b and idx( b->id( ), n ) == w[1] ); auto &r2 = --b; CHECK( &r2 == &b ); auto &r3 = ( b += static_cast<std::ptrdiff_t>( k ) ); CHECK( &r3 == &b and b == e ); auto &r4 = ( b -= static_cast<std::ptrdiff_t>( k ) ); CHECK( &r4 == &b and b == rng.begin( ) and b + static_cast<std::ptrdiff_t>( k ) == e and e - static_cast<std::ptrdiff_t>( k ) == b );
	}
	sym_reach( "end" );
}
//@ bounds: 3 nodes without edges or with a common parent, every ordering of the values, equal values included
ENTRY topological_order( ) {
	G g; U v[3];
	for( unsigned i = 0; i < 3; ++i ) { v[i] = sym_u32( "v" ); g.add_node( v[i] ); }
	unsigned par = static_cast<unsigned>( sym_pick( "parent", 0, 1 ) );
	if( par ) { auto p = g.add_node( 5u ); for( unsigned i = 0; i < 3; ++i ) g.add_directed_edge( p, node_id_t{ i } ); }
	std::vector<unsigned> w;
	daw::topological_sorted_walk( g, [&]( auto const &x ) { w.push_back( idx( x.id( ), 4 ) ); }, []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); } );
	CHECK( w.size( ) == 3 + par );
	if( par ) CHECK( w[0] == 3 );
	if( w.size( ) == 3 + par ) {
		unsigned a = w[par], b = w[par + 1], c = w[par + 2];
		CHECK( a < 3 and b < 3 and c < 3 and a != b and b != c and a != c and v[a] >= v[b] and v[b] >= v[c] );
	}
	sym_reach( "end" );
}
//@ bounds: a parent of 18 children with few distinct values
ENTRY topological_many( ) {
	G g;
	auto p = g.add_node( 1000u );
	U one = sym_pick( "one", 0, 1 ) ? 1u : 7u;
	for( U i = 0; i < 18; ++i ) { auto c = g.add_node( i % 2 ? one : 7u ); g.add_directed_edge( p, c ); }
	U last = 2000, cnt = 0;
	daw::topological_sorted_walk( g, [&]( auto const &x ) { CHECK( x.value( ) <= last ); last = x.value( ); ++cnt; }, []( auto const &a, auto const &b ) { return a.value( ) < b.value( ); } );
	CHECK( cnt == 19 );
	last = 0; cnt = 0;
	daw::dfs_walk( g, p, [&]( auto const &x ) { if( cnt ) { CHECK( x.value( ) >= last ); last = x.value( ); } ++cnt; }, std::less<>{ } );
	CHECK( cnt == 19 );
	sym_reach( "end" );
}
static void first_visits( std::vector<unsigned> &v ) {
	std::vector<unsigned> r; bool seen[MX + 1]{};
	for( unsigned x : v ) if( not seen[x] ) { seen[x] = true; r.push_back( x ); }
	v = r;
}
static void rec( Model const &m, unsigned x, bool *seen, std::vector<unsigned> &o ) {
	seen[x] = true; o.push_back( x );
	for( unsigned y = 0; y < m.n; ++y ) if( m.e[x][y] and not seen[y] ) rec( m, y, seen, o );
}
static bool eqv( std::vector<unsigned> const &a, std::vector<unsigned> const &b ) {
	if( a.size( ) != b.size( ) ) return false;
	for( size_t i = 0; i < a.size( ); ++i ) if( a[i] != b[i] ) return false;
	return true;
}
//@ bounds: every directed graph of 3 nodes and of 4 nodes without loops, the order of first visits
//@ q:nodes=4,time=150 t:nodes=4,time=800
ENTRY walks( ) {
	G g; Model m;
	unsigned n = build( g, m, true );
	G const &cg = g;
	std::vector<unsigned> b, d, ub, ud, ob, od;
	auto into = [n]( std::vector<unsigned> &o ) { return [&o, n]( auto const &x ) { o.push_back( idx( x.id( ), n ) ); CHECK( x.value( ) == o.back( ) * 10 ); }; };
	node_id_t s{ 0 };
	daw::bfs_walk( cg, s, into( b ), std::less<>{ } ); first_visits( b );
	daw::dfs_walk( cg, s, into( d ), std::less<>{ } ); first_visits( d );
	daw::bfs_walk( g, s, into( ub ) ); first_visits( ub );
	daw::dfs_walk( g, s, into( ud ) ); first_visits( ud );
	// oracles
	{ bool seen[MX]{}; rec( m, 0, seen, od ); }
	{ bool seen[MX]{}; ob.push_back( 0 ); seen[0] = true; for( size_t i = 0; i < ob.size( ); ++i ) for( unsigned y = 0; y < n; ++y ) if( m.e[ob[i]][y] and not seen[y] ) { seen[y] = true; ob.push_back( y ); } }
	CHECK( eqv( b, ob ) ); CHECK( eqv( d, od ) );
	for( auto *v : { &ub, &ud } ) {
		CHECK( v->size( ) == ob.size( ) and ( *v )[0] == 0 );
		for( unsigned x : *v ) CHECK( x < n and m.reach[0][x] );
	}
	{ // unordered: distances never decrease
		unsigned dist[MX]; for( unsigned i = 0; i < n; ++i ) dist[i] = 99; dist[0] = 0;
		for( unsigned x : ob ) for( unsigned y = 0; y < n; ++y ) if( m.e[x][y] and dist[y] > dist[x] + 1 ) dist[y] = dist[x] + 1;
		for( size_t i = 1; i < ub.size( ); ++i ) CHECK( dist[ub[i - 1]] <= dist[ub[i]] );
	}
	// unordered depth first: a node is only left when everything reachable through unvisited nodes was visited
	for( size_t i = 1; i < ud.size( ); ++i ) {
		size_t k = i; // parent is the latest earlier node with an edge here; nodes in between have nothing unvisited left
		while( k > 0 ) { --k; bool more = false; for( size_t q = i; q < ud.size( ); ++q ) more |= m.e[ud[k]][ud[q]]; if( more ) break; }
		CHECK( m.e[ud[k]][ud[i]] );
	}
	sym_reach( "end" );
}
//@ bounds: every directed graph of 4 nodes whose only root is the first
//@ q:nodes=4,time=150 t:nodes=4,time=800
ENTRY spanning( ) {
	G g; Model m;
	unsigned n = build( g, m, false );
	std::vector<unsigned> roots;
	for( unsigned i = 0; i < n; ++i ) { bool in = false; for( unsigned j = 0; j < n; ++j ) in |= m.e[j][i]; if( not in ) roots.push_back( i ); }
	daw::mst( g );
	Model t; t.n = n;
	for( unsigned i = 0; i < n; ++i ) for( unsigned j = 0; j < n; ++j ) { t.e[i][j] = g.get_node( node_id_t{ i } ).outgoing_edges( ).count( node_id_t{ j } ) == 1; CHECK( not t.e[i][j] or m.e[i][j] ); t.has[i] = true; t.val[i] = m.val[i]; }
	t.close( );
	same( g, t );
	for( unsigned x = 0; x < n; ++x ) {
		bool was = false, is = false; unsigned in = 0;
		for( unsigned r : roots ) { was |= m.reach[r][x]; is |= t.reach[r][x]; }
		CHECK( was == is );
		if( roots.size( ) == 1 and was ) {
			for( unsigned p = 0; p < n; ++p ) in += t.e[p][x] and m.reach[roots[0]][p];
			CHECK( in == ( x == roots[0] ? 0u : 1u ) );
		}
	}
	sym_reach( "end" );
}
//@ bounds: nodes that do not exist are refused
ENTRY invalid( ) {
	G g; g.add_node( 1u ); auto b = g.add_node( 2u ); g.remove_node( b );
	node_id_t bad = sym_pick( "kind", 0, 1 ) ? b : node_id_t{ 7 };
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 4 ) );
	sym_expect_terminate( true );
	switch( op ) {
	case 0: (void)g.get_node( bad ); break;
	case 1: g.remove_node( bad ); break;
	case 2: g.add_directed_edge( node_id_t{ 0 }, bad ); break;
	case 3: g.add_undirected_edge( bad, node_id_t{ 0 } ); break;
	default: g.remove_edges( node_id_t{ 0 }, bad ); break;
	}
	CHECK( false );
}
