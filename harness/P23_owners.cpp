#include "common.h"
#include <daw/daw_unique_ptr.h>
#include <daw/daw_maybe_unique_ptr.h>
#include <daw/daw_value_ptr.h>
#include <daw/deprecated/daw_heap_value.h>
#include <daw/deprecated/daw_copiable_unique_ptr.h>
#include <daw/daw_ref_counted_pointer.h>
#include <vector>

using U = uint32_t;
struct Base { Track t; explicit Base( U x = 0 ) : t( x ) {} virtual ~Base( ) = default; virtual U f( ) const { return t.get( ); } };
struct Derived : Base { Track k; explicit Derived( U x ) : Base( x ), k( ~x ) {} U f( ) const override { return k.get( ); } };
struct Agg { U a; U b; Track t; };
struct TagDel { using pointer = Base *; static inline U calls, last_tag; static inline Base *last; U tag = 7; void operator( )( Base *p ) const { ++calls; last_tag = tag; last = p; delete p; } };
struct FdDel { using pointer = int; using does_validity_check = void; static constexpr int default_pointer_value = -1; static inline uint64_t closed; void operator( )( int fd ) const { if( fd != -1 ) { sym_assert( fd >= 0 and fd < 16, "a handle never given" ); closed += uint64_t( 1 ) << ( fd * 4 ); } } };
template<template<typename...> class P, typename D>
using ptr = P<Base, D>;

// model: which object each pointer holds
template<typename P>
static void holds( P const &p, Base *x, U v, bool der ) {
	CHECK( p.get( ) == x and static_cast<bool>( p ) == ( x != nullptr ) and p.operator->( ) == x );
	if( x ) CHECK( &*p == x and p->f( ) == ( der ? ~v : v ) and ( *p ).t.get( ) == v );
}
//@ q:N=4 t:N=4
//@ bounds: N operations on two owners, all values, base or derived objects
ENTRY unique_ops( ) {
	LeakGuard g;
	{
	using P = daw::unique_ptr<Base>;
	struct M { Base *x = nullptr; U v = 0; bool d = false; } ma, mb;
	P a, b;
	unsigned n = static_cast<unsigned>( sym_param( "N", 2 ) );
	int64_t extra = 0;
	auto live = [&] { return ( ma.x ? 1 + ma.d : 0 ) + ( mb.x ? 1 + mb.d : 0 ) + extra; };
	for( unsigned i = 0; i < n; ++i ) {
		U w = sym_u32( "w" );
		switch( sym_pick( "op", 0, 13 ) ) {
		case 0: a.reset( ); ma = { }; break;
		case 1: { auto *x = new Base( w ); a.reset( x ); ma = { x, w, false }; break; }
		case 2: { a = daw::make_unique<Base>( w ); ma = { a.get( ), w, false }; break; }
		case 3: { a = daw::make_unique<Derived>( w ); ma = { a.get( ), w, true }; break; }
		case 4: a = std::move( b ); ma = mb; mb = { }; break;
		case 5: a.swap( b ); std::swap( ma, mb ); break;
		case 6: { auto *r = a.release( ); CHECK( r == ma.x and not a ); delete r; ma = { }; break; }
		case 7: { P c( std::move( a ) ); holds( c, ma.x, ma.v, ma.d ); holds( a, nullptr, 0, false ); b = std::move( c ); holds( c, nullptr, 0, false ); mb = ma; ma = { }; break; }
		case 8: { auto *x = new Derived( w ); P c( x ); b = std::move( c ); mb = { x, w, true }; break; }
		case 9: { P &r = a; a = std::move( r ); break; }
		case 10: { auto *x = new Base( w ); *a.get_out( ) ? (void)a.reset( ) : (void)0; *a.get_out( ) = x; ma = { x, w, false }; break; }
		case 11: { daw::unique_ptr<Derived> c( new Derived( w ) ); Base *x = c.get( ); a = std::move( c ); CHECK( not c ); ma = { x, w, true }; break; }
		case 12: a = nullptr; ma = { }; break;
		default: { auto *x = new Derived( w ); a.reset( x ); ma = { x, w, true }; break; }
		}
		holds( a, ma.x, ma.v, ma.d );
		holds( b, mb.x, mb.v, mb.d );
		CHECK( Track::live == live( ) );
	}
	CHECK( ( a == b ) == ( ma.x == mb.x ) and ( a != b ) == ( ma.x != mb.x ) );
	std::less<Base *> lt;
	CHECK( ( a < b ) == lt( ma.x, mb.x ) and ( a > b ) == lt( mb.x, ma.x ) and ( a <= b ) == not lt( mb.x, ma.x ) and ( a >= b ) == not lt( ma.x, mb.x ) );
	}
	sym_reach( "end" );
}
//@ bounds: two elements of one array, arrays of <=3 objects, all values
ENTRY unique_array( ) {
	LeakGuard g;
	{
	using P = daw::unique_ptr<Track[]>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	std::size_t n = sym_pick( "n", 0, 3 );
	P a = daw::make_unique<Track[]>( n );
	CHECK( Track::live == int64_t( n ) );
	for( std::size_t i = 0; i < n; ++i ) { CHECK( a[i].get( ) == 0 and &a[i] == a.get( ) + i ); }
	P b = daw::make_unique_array<Track[]>( v, w );
	CHECK( b[0].get( ) == v and b[1].get( ) == w and ( *b ).get( ) == v and b->get( ) == v );
	auto *p = a.get( ), *q = b.get( );
	switch( sym_pick( "op", 0, 5 ) ) {
	case 0: a = std::move( b ); CHECK( a.get( ) == q and not b and Track::live == 2 ); break;
	case 1: a.swap( b ); CHECK( a.get( ) == q and b.get( ) == p ); break;
	case 2: a.reset( ); CHECK( not a and Track::live == 2 ); break;
	case 3: { P c( std::move( b ) ); CHECK( c.get( ) == q and not b ); break; }
	case 4: { auto *r = b.release( ); CHECK( r == q and not b ); delete[] r; break; }
	default: { P c( nullptr ), d; CHECK( not c and not d and a ); } break;
	}
	auto ints = daw::make_unique<U[]>( 3 );
	CHECK( ints[0] == 0 and ints[1] == 0 and ints[2] == 0 );
	}
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY unique_misc( ) {
	LeakGuard g;
	{
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	auto a = daw::make_unique<Agg>( v, w, Track( v ) );
	CHECK( a->a == v and a->b == w and a->t.get( ) == v );
	auto o = daw::make_unique_for_overwrite<Track>( ); CHECK( o->get( ) == 0 );
	// list whose head is popped through itself
	struct N { Track t; daw::unique_ptr<N> next; };
	daw::unique_ptr<N> h( new N{ Track( v ), daw::unique_ptr<N>( new N{ Track( w ), nullptr } ) } );
	h = std::move( h->next );
	CHECK( h and h->t.get( ) == w and not h->next );
	h = std::move( h->next );
	CHECK( not h );
	// monadic operations
	bool has = sym_bool( "has" );
	auto mk = [&] { return has ? daw::make_unique<Base>( v ) : daw::unique_ptr<Base>( ); };
	auto r = mk( ).and_then( []( auto p ) { return daw::make_unique<Derived>( p->f( ) ); } );
	CHECK( static_cast<bool>( r ) == has and ( not has or r->f( ) == ~v ) );
	bool called = false;
	auto s = mk( ).or_else( [&] { called = true; return daw::make_unique<Base>( w ); } );
	CHECK( called == not has and s->f( ) == ( has ? v : w ) );
	CHECK( s.transform( []( auto const &p ) { return p->f( ); } ) == ( has ? v : w ) );
	auto const &cs = s;
	CHECK( cs.transform( []( auto const &p ) { return p->f( ); } ) == ( has ? v : w ) );
	CHECK( std::move( s ).transform( []( auto p ) { return p->f( ); } ) == ( has ? v : w ) and not s );
	}
	sym_reach( "end" );
}
//@ bounds: one operation, deleters with a state, non-pointer handles
ENTRY unique_deleters( ) {
	LeakGuard g;
	{
	using P = daw::unique_ptr<Base, TagDel>;
	TagDel::calls = 0;
	U v = sym_u32( "v" ), t = sym_u32( "t" );
	auto *x = new Base( v ), *y = new Base( v + 1 );
	{
		P a( x ), b( y );
		a.get_deleter( ).tag = t;
		switch( sym_pick( "op", 0, 4 ) ) {
		case 0: a.reset( ); CHECK( TagDel::calls == 1 and TagDel::last == x and TagDel::last_tag == t ); break;
		case 1: { P c( std::move( a ) ); CHECK( c.get_deleter( ).tag == t and TagDel::calls == 0 ); } CHECK( TagDel::calls == 1 and TagDel::last == x and TagDel::last_tag == t ); break;
		case 2: b = std::move( a ); CHECK( TagDel::calls == 1 and TagDel::last == y and TagDel::last_tag == 7 and b.get_deleter( ).tag == t ); b.reset( ); CHECK( TagDel::calls == 2 and TagDel::last == x and TagDel::last_tag == t ); break;
		case 3: a.swap( b ); CHECK( TagDel::calls == 0 and b.get_deleter( ).tag == t and a.get_deleter( ).tag == 7 ); break;
		default: { auto const &c = a; CHECK( c.get_deleter( ).tag == t ); a.reset( new Base( v ) ); CHECK( TagDel::calls == 1 and TagDel::last == x ); auto *r = a.release( ); CHECK( TagDel::calls == 1 ); delete r; } break;
		}
	}
	using F = daw::unique_ptr<int, FdDel>;
	FdDel::closed = 0;
	{
		F a, b( 0 ), c( 3 );
		CHECK( a.get( ) == -1 and b.get( ) == 0 );
		switch( sym_pick( "op", 0, 3 ) ) {
		case 0: a = std::move( b ); CHECK( a.get( ) == 0 and b.get( ) == -1 and FdDel::closed == 0 ); break;
		case 1: c = std::move( b ); CHECK( FdDel::closed == 0x1000 and c.get( ) == 0 ); c.reset( 3 ); CHECK( FdDel::closed == 0x1001 ); FdDel::closed -= 0x1000; break;
		case 2: c.reset( ); CHECK( c.get( ) == -1 and FdDel::closed == 0x1000 ); break;
		default: CHECK( c.release( ) == 3 and c.get( ) == -1 ); FdDel::closed += 0x1000; break;
		}
	}
	CHECK( FdDel::closed == 0x1001 );
	}
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: N operations on two owners, owned or merely borrowed objects
ENTRY maybe_ops( ) {
	LeakGuard g;
	{
	using P = daw::maybe_unique_ptr<Base>;
	Base lo( 1 ), lo2( 2 );
	Derived ld( 3 );
	struct M { Base *x = nullptr; U v = 0; bool d = false, own = false; } ma, mb;
	P a, b;
	unsigned n = static_cast<unsigned>( sym_param( "N", 2 ) );
	auto live = [&] { return ( ma.own ? 1 + ma.d : 0 ) + ( mb.own ? 1 + mb.d : 0 ) + 4; };
	for( unsigned i = 0; i < n; ++i ) {
		U w = sym_u32( "w" );
		switch( sym_pick( "op", 0, 14 ) ) {
		case 0: a.reset( ); ma = { }; break;
		case 1: { auto *x = new Base( w ); a.reset( x ); ma = { x, w, false, true }; break; }
		case 2: a.reset( &lo, false ); ma = { &lo, 1, false, false }; break;
		case 3: { a = daw::make_maybe_unique<Base>( w ); ma = { a.get( ), w, false, true }; break; }
		case 4: a = P( &lo2, false ); ma = { &lo2, 2, false, false }; break;
		case 5: a = std::move( b ); ma = mb; mb = { }; break;
		case 6: a.swap( b ); std::swap( ma, mb ); break;
		case 7: { auto *r = a.release( ); CHECK( r == ma.x and not a ); if( ma.own ) delete r; ma = { }; break; }
		case 8: { P c( std::move( a ) ); holds( c, ma.x, ma.v, ma.d ); holds( a, nullptr, 0, false ); b = std::move( c ); holds( c, nullptr, 0, false ); mb = ma; ma = { }; break; }
		case 9: { daw::maybe_unique_ptr<Derived> c( new Derived( w ) ); Base *x = c.get( ); a = std::move( c ); CHECK( not c ); ma = { x, w, true, true }; break; }
		case 10: { daw::maybe_unique_ptr<Derived> c( &ld, false ); a = std::move( c ); CHECK( not c ); ma = { &ld, 3, true, false }; break; }
		case 11: { daw::unique_ptr<Derived> c( new Derived( w ) ); Base *x = c.get( ); a = std::move( c ); CHECK( not c ); ma = { x, w, true, true }; break; }
		case 12: { bool o = sym_bool( "own" ); Derived *x = o ? new Derived( w ) : &ld; P c( x, o ); b = std::move( c ); mb = { x, o ? w : 3, true, o }; break; }
		case 13: { bool o = sym_bool( "own" ); daw::maybe_unique_ptr<Derived> c( o ? new Derived( w ) : &ld, o ); Base *x = c.get( ); P d( std::move( c ) ); CHECK( not c ); a = std::move( d ); ma = { x, o ? w : 3, true, o }; break; }
		default: { P &r = a; a = std::move( r ); break; }
		}
		holds( a, ma.x, ma.v, ma.d );
		holds( b, mb.x, mb.v, mb.d );
		CHECK( Track::live == live( ) );
	}
	CHECK( ( a == b ) == ( ma.x == mb.x ) and ( a != b ) == ( ma.x != mb.x ) );
	std::less<Base *> lt;
	CHECK( ( a < b ) == lt( ma.x, mb.x ) and ( a > b ) == lt( mb.x, ma.x ) and ( a <= b ) == not lt( mb.x, ma.x ) and ( a >= b ) == not lt( ma.x, mb.x ) );
	}
	sym_reach( "end" );
}
//@ bounds: arrays, aggregates, conversion from the unconditional owner, chaining
ENTRY maybe_misc( ) {
	LeakGuard g;
	{
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	auto a = daw::make_maybe_unique<Agg>( v, w, Track( v ) );
	CHECK( a->a == v and a->b == w );
	auto o = daw::make_maybe_unique_for_overwrite<Track>( ); CHECK( o->get( ) == 0 );
	auto arr = daw::make_maybe_unique_array<Track[]>( v, w );
	CHECK( arr[0].get( ) == v and arr[1].get( ) == w );
	auto arr2 = daw::make_maybe_unique<Track[]>( 2 ); CHECK( arr2[1].get( ) == 0 );
	daw::maybe_unique_ptr<Base> f( daw::make_unique<Derived>( v ) ); CHECK( f->f( ) == ~v );
	bool has = sym_bool( "has" ), own = sym_bool( "own" );
	Base lo( v );
	auto mk = [&] { return has ? own ? daw::maybe_unique_ptr<Base>( new Base( v ) ) : daw::maybe_unique_ptr<Base>( &lo, false ) : daw::maybe_unique_ptr<Base>( nullptr ); };
	auto r = mk( ).and_then( []( auto p ) { return daw::make_maybe_unique<Derived>( p->f( ) ); } );
	CHECK( static_cast<bool>( r ) == has and ( not has or r->f( ) == ~v ) );
	auto s = mk( ).or_else( [&] { return daw::make_maybe_unique<Base>( w ); } );
	CHECK( s->f( ) == ( has ? v : w ) );
	CHECK( s.transform( []( auto const &p ) { return p->f( ); } ) == ( has ? v : w ) );
	CHECK( std::move( s ).transform( []( auto p ) { return p->f( ); } ) == ( has ? v : w ) and not s );
	}
	sym_reach( "end" );
}
template<typename V>
static void val_is( V &p, bool has, U v ) {
	V const &c = p;
	CHECK( static_cast<bool>( p ) == has and ( p.get( ) != nullptr ) == has and ( c.get( ) != nullptr ) == has );
	if( has ) CHECK( ( *p ).get( ) == v and p->get( ) == v and ( *c ).get( ) == v and c->get( ) == v and &*p == p.get( ) and &static_cast<Track &>( p ) == p.get( ) );
}
//@ q:N=4 t:N=4
//@ bounds: N operations on two values, one possibly empty
ENTRY value_ops( ) {
	LeakGuard g;
	{
	using P = daw::value_ptr<Track>;
	U v = sym_u32( "v" );
	bool ha = true, hb = false;
	U va = v, vb = 0;
	P a( v ), b( std::nullopt );
	unsigned n = static_cast<unsigned>( sym_param( "N", 2 ) );
	val_is( a, true, v ); val_is( b, false, 0 );
	for( unsigned i = 0; i < n; ++i ) {
		U w = sym_u32( "w" );
		Track t( w );
		switch( sym_pick( "op", 0, 10 ) ) {
		case 0: a.reset( ); ha = false; break;
		case 1: a = t; ha = true; va = w; break;
		case 2: a = Track( w ); ha = true; va = w; break;
		case 3: a = b; ha = hb; va = vb; break;
		case 4: b = std::move( a ); hb = ha; vb = va; ha = false; break;
		case 5: a.swap( b ); std::swap( ha, hb ); std::swap( va, vb ); break;
		case 6: { P c( a ); val_is( c, ha, va ); if( ha ) { *c = t; val_is( a, true, va ); } break; }
		case 7: { P c( std::move( a ) ); val_is( c, ha, va ); b = c; hb = ha; vb = va; ha = false; val_is( c, hb, vb ); break; }
		case 8: { auto *p = a.release( ); CHECK( ( p != nullptr ) == ha ); if( p ) { CHECK( p->get( ) == va ); delete p; } ha = false; break; }
		case 9: { P &r = a; a = r; break; }
		default: swap( a, b ); std::swap( ha, hb ); std::swap( va, vb ); break;
		}
		val_is( a, ha, va );
		val_is( b, hb, vb );
		CHECK( Track::live == ha + hb + 1 );
	}
	}
	sym_reach( "end" );
}
struct Calls { virtual ~Calls( ) = default; virtual U operator( )( U x ) const { return x + 1; } };
struct Calls2 : Calls { U k; explicit Calls2( U x ) : k( x ) {} U operator( )( U x ) const override { return x ^ k; } };
//@ bounds: all values, every combination of presence
ENTRY value_compare( ) {
	LeakGuard g;
	{
	using P = daw::value_ptr<U>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	bool ha = sym_bool( "ha" ), hb = sym_bool( "hb" );
	P a( v ), b( w );
	if( not ha ) a.reset( );
	if( not hb ) b.reset( );
	int c = not ha ? ( hb ? -1 : 0 ) : not hb ? 1 : v < w ? -1 : v > w ? 1 : 0;
	CHECK( ( a == b ) == ( c == 0 ) and ( a != b ) == ( c != 0 ) and ( a < b ) == ( c < 0 ) and ( a <= b ) == ( c <= 0 ) and ( a > b ) == ( c > 0 ) and ( a >= b ) == ( c >= 0 ) );
	int d = a.compare( b ); CHECK( ( d < 0 ) == ( c < 0 ) and ( d == 0 ) == ( c == 0 ) );
	if( ha ) CHECK( std::hash<P>{ }( a ) == std::hash<U>{ }( v ) );
	P def; CHECK( def and *def == 0 );
	auto e = daw::value_ptr<Calls>( ); auto f = daw::value_ptr<Calls>::emplace<Calls2>( v );
	CHECK( e( w ) == w + 1 and f( w ) == ( w ^ v ) );
	}
	sym_reach( "end" );
}
struct Vec3 { U x[3]; U &operator[]( std::size_t i ) { return x[i]; } U const &operator[]( std::size_t i ) const { return x[i]; } U operator( )( U a, U b ) const { return a + b + x[0]; } };
//@ q:N=4 t:N=4
//@ bounds: N operations on two values
ENTRY heap_value_ops( ) {
	LeakGuard g;
	{
	using P = daw::heap_value<Track>;
	U v = sym_u32( "v" );
	P a( v ), b;
	U va = v, vb = 0;
	bool ha = true, hb = true;
	auto is = []( P &p, U x ) { P const &c = p; CHECK( ( *p ).get( ) == x and p->get( ) == x and ( *c ).get( ) == x and c->get( ) == x and p.get( ).get( ) == x and c.get( ).get( ) == x and p.ptr( ) == &*p and c.ptr( ) == &*p ); };
	unsigned n = static_cast<unsigned>( sym_param( "N", 2 ) );
	is( a, v ); is( b, 0 );
	for( unsigned i = 0; i < n; ++i ) {
		U w = sym_u32( "w" );
		Track t( w );
		switch( sym_pick( "op", 0, 7 ) ) {
		case 0: a = P( w ); va = w; ha = true; break;
		case 1: a = b; va = vb; ha = hb; break;
		case 2: b = std::move( a ); vb = va; hb = ha; ha = false; break;
		case 3: a.swap( b ); std::swap( va, vb ); std::swap( ha, hb ); break;
		case 4: { P c( a ); if( ha ) { is( c, va ); *c = t; is( a, va ); is( c, w ); } break; }
		case 5: { P const d( t ); P c( d ); is( c, w ); b = c; vb = w; hb = true; is( c, w ); break; }
		case 6: { P c( Track{ w } ); a = std::move( c ); va = w; ha = true; break; }
		default: swap( a, b ); std::swap( va, vb ); std::swap( ha, hb ); break;
		}
		if( ha ) is( a, va );
		if( hb ) is( b, vb );
		CHECK( Track::live >= ha + hb + 1 );
	}
	}
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY heap_value_compare( ) {
	LeakGuard g;
	{
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	daw::heap_value<U> a( v ), b( w );
	CHECK( ( a == b ) == ( v == w ) and ( a != b ) == ( v != w ) and ( a < b ) == ( v < w ) and ( a <= b ) == ( v <= w ) and ( a > b ) == ( v > w ) and ( a >= b ) == ( v >= w ) );
	daw::heap_value<Vec3> f( Vec3{ { v, w, 7 } } );
	auto const &cf = f;
	CHECK( f[0] == v and cf[1] == w and f( v, w ) == v + w + v and cf( 1u, 2u ) == v + 3 );
	f[1] = v; CHECK( f->x[1] == v );
	daw::heap_value<std::pair<U, U>> p( v, w ); CHECK( p->first == v and p->second == w );
	}
	sym_reach( "end" );
}
//@ q:N=4 t:N=4
//@ bounds: N operations on two owners
ENTRY copiable_ops( ) {
	LeakGuard g;
	{
	using P = daw::copiable_unique_ptr<Track>;
	U v = sym_u32( "v" );
	P a( new Track( v ) ), b;
	U va = v, vb = 0;
	bool ha = true, hb = false;
	auto is = []( P &p, bool h, U x ) { P const &c = p; CHECK( static_cast<bool>( c ) == h and ( p.get( ) != nullptr ) == h and p.get( ) == c.get( ) and p.operator->( ) == p.get( ) ); if( h ) CHECK( ( *p ).get( ) == x and c->get( ) == x and ( *c ).get( ) == x ); };
	unsigned n = static_cast<unsigned>( sym_param( "N", 2 ) );
	for( unsigned i = 0; i < n; ++i ) {
		U w = sym_u32( "w" );
		switch( sym_pick( "op", 0, 7 ) ) {
		case 0: a.reset( ); ha = false; break;
		case 1: a = daw::make_copiable_unique_ptr<Track>( w ); va = w; ha = true; break;
		case 2: a = b; va = vb; ha = hb; CHECK( not ha or a.get( ) != b.get( ) ); break;
		case 3: { auto *p = a.get( ); b = std::move( a ); CHECK( b.get( ) == p ); vb = va; hb = ha; a.reset( ); ha = false; break; }
		case 4: a.swap( b ); std::swap( va, vb ); std::swap( ha, hb ); break;
		case 5: { P c( a ); is( c, ha, va ); CHECK( not ha or c.get( ) != a.get( ) ); P d( std::move( c ) ); is( d, ha, va ); is( c, false, 0 ); P &r = d; d = r; is( d, ha, va ); break; }
		case 6: { auto *p = a.release( ); CHECK( ( p != nullptr ) == ha ); delete p; ha = false; break; }
		default: swap( a, b ); std::swap( va, vb ); std::swap( ha, hb ); break;
		}
		is( a, ha, va );
		is( b, hb, vb );
		CHECK( Track::live == ha + hb );
	}
	std::less<Track *> lt;
	auto *x = a.get( ), *y = b.get( );
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) and ( a < b ) == lt( x, y ) and ( a > b ) == lt( y, x ) and ( a <= b ) == not lt( y, x ) and ( a >= b ) == not lt( x, y ) );
	CHECK( ( a == nullptr ) == not ha and ( nullptr == a ) == not ha and ( a != nullptr ) == ha and ( nullptr != a ) == ha );
	CHECK( ( a < nullptr ) == false and ( nullptr < a ) == ha and ( a <= nullptr ) == not ha and ( nullptr <= a ) == true and ( a > nullptr ) == ha and ( nullptr > a ) == false and ( a >= nullptr ) == true and ( nullptr >= a ) == not ha );
	CHECK( std::hash<P>{ }( a ) == std::hash<Track const *>{ }( x ) );
	}
	sym_reach( "end" );
}
struct CountDel { static inline U calls; void operator( )( Track *p ) const noexcept { ++calls; delete p; } };
struct ADel { static inline U calls; void operator( )( Track *p ) const noexcept { ++calls; delete[] p; } };
template<typename P, typename Mk>
static void rc_ops_impl( Mk mk, unsigned n ) {
	// objects 0..n are made on demand; slot[i] says which object pointer i holds (-1 none)
	P p[3];
	int slot[3] = { -1, -1, -1 };
	Track *obj[8];
	U val[8];
	int made = 0;
	auto uses = [&]( int o ) { return std::size_t( ( slot[0] == o ) + ( slot[1] == o ) + ( slot[2] == o ) ); };
	auto check = [&] {
		int64_t lv = 0;
		for( int o = 0; o < made; ++o ) lv += uses( o ) > 0;
		CHECK( Track::live == lv );
		for( int i = 0; i < 3; ++i ) {
			P const &c = p[i];
			CHECK( static_cast<bool>( c ) == ( slot[i] >= 0 ) and ( c == nullptr ) == ( slot[i] < 0 ) and ( c != nullptr ) == ( slot[i] >= 0 ) );
			if( slot[i] >= 0 ) CHECK( c.get( ) == obj[slot[i]] and c->get( ) == val[slot[i]] and ( *c ).get( ) == val[slot[i]] and c.ref_count( ) == uses( slot[i] ) and p[i].ref_count( ) == uses( slot[i] ) );
			else CHECK( c.get( ) == nullptr );
		}
	};
	for( unsigned k = 0; k < n; ++k ) {
		unsigned i = static_cast<unsigned>( sym_pick( "i", 0, 1 ) );
		unsigned j = static_cast<unsigned>( sym_pick( "j", 0, 2 ) );
		switch( sym_pick( "op", 0, 6 ) ) {
		case 0: { U w = sym_u32( "w" ); p[i] = mk( w ); val[made] = w; obj[made] = p[i].get( ); slot[i] = made++; break; }
		case 1: p[i] = p[j]; slot[i] = slot[j]; break;
		case 2: if( i != j ) { p[i] = std::move( p[j] ); slot[i] = slot[j]; slot[j] = -1; } break;
		case 3: p[i].swap( p[j] ); std::swap( slot[i], slot[j] ); break;
		case 4: p[i].reset( ); slot[i] = -1; break;
		case 5: { P c( p[i] ); CHECK( c == p[i] and ( slot[i] < 0 or c.ref_count( ) == uses( slot[i] ) + 1 ) ); P d( std::move( c ) ); CHECK( d == p[i] and not c and ( slot[i] < 0 or d.ref_count( ) == uses( slot[i] ) + 1 ) ); break; }
		default: swap( p[i], p[j] ); std::swap( slot[i], slot[j] ); break;
		}
		check( );
	}
	std::less<Track *> lt;
	auto *x = p[0].get( ), *y = p[1].get( );
	auto const &a = p[0]; auto const &b = p[1];
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) and ( a < b ) == lt( x, y ) and ( a > b ) == lt( y, x ) and ( a <= b ) == not lt( y, x ) and ( a >= b ) == not lt( x, y ) );
	bool ha = x != nullptr;
	CHECK( ( a < nullptr ) == false and ( a <= nullptr ) == not ha and ( a > nullptr ) == ha and ( a >= nullptr ) == true );
}
//@ q:N=3 t:N=4
//@ bounds: N operations on three shared owners
ENTRY rc_ops( ) {
	LeakGuard g;
	CountDel::calls = 0;
	rc_ops_impl<daw::rc_ptr<Track, CountDel>>( []( U w ) { return daw::rc_ptr<Track, CountDel>( new Track( w ) ); }, static_cast<unsigned>( sym_param( "N", 3 ) ) );
	CHECK( Track::live == 0 );
	sym_reach( "end" );
}
//@ q:N=3 t:N=3
//@ bounds: N operations on three shared owners of one-element arrays
ENTRY rc_array_ops( ) {
	LeakGuard g;
	rc_ops_impl<daw::rc_ptr<Track[], ADel>>( []( U w ) { return daw::rc_ptr<Track[], ADel>( new Track[1]{ Track( w ) } ); }, static_cast<unsigned>( sym_param( "N", 3 ) ) );
	CHECK( Track::live == 0 );
	sym_reach( "end" );
}
struct RN;
struct RNDel { void operator( )( RN *p ) const noexcept; };
struct RN { Track t; daw::rc_ptr<RN, RNDel> next; };
void RNDel::operator( )( RN *p ) const noexcept { delete p; }
//@ bounds: makers, self-referencing lists, arrays of <=3
ENTRY rc_misc( ) {
	LeakGuard g;
	{
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	auto a = daw::make_rc_ptr<Track>( v ); CHECK( a->get( ) == v and a.ref_count( ) == 1 );
	auto b = daw::make_rc_ptr<Agg>( v, w, Track( v ) ); CHECK( b->a == v and b->b == w );
	std::size_t n = sym_pick( "n", 0, 3 );
	auto c = daw::make_rc_ptr<Track[]>( n );
	for( std::size_t i = 0; i < n; ++i ) CHECK( c[i].get( ) == 0 and &c[i] == c.get( ) + i );
	auto c2 = c; CHECK( c2.get( ) == c.get( ) and c.ref_count( ) == 2 );
	auto d = daw::make_rc_ptr_for_overwrite<U[]>( n ); CHECK( d );
	daw::rc_ptr<Track> e( static_cast<Track *>( nullptr ) ); CHECK( not e and e.get( ) == nullptr ); auto f = e; CHECK( not f );
	auto h = daw::rc_ptr<RN, RNDel>( new RN{ Track( v ), daw::rc_ptr<RN, RNDel>( new RN{ Track( w ), { } } ) } );
	if( sym_bool( "mv" ) ) h = std::move( h->next ); else h = h->next;
	CHECK( h and h->t.get( ) == w and h.ref_count( ) == 1 );
	}
	CHECK( Track::live == 0 );
	sym_reach( "end" );
}
