#include "common.h"
#include <daw/daw_expected.h>
#include <daw/daw_optional.h>
#include <daw/daw_validated.h>
#include <daw/deprecated/daw_optional_poly.h>
#include <daw/deprecated/daw_checked_expected.h>

using U = uint32_t;
struct Ex1 : std::exception { U n; explicit Ex1( U x ) : n( x ) {} char const *what( ) const noexcept override { return "ex1"; } };
struct Ex2 { U n; };

// ---- expected
struct EModel { int kind; U v; }; // 0 empty, 1 value, 2 exception Ex1(v)
template<typename E>
static void same( E const &e, EModel m ) {
	CHECK( e.empty( ) == ( m.kind == 0 ) and e.has_value( ) == ( m.kind == 1 ) and e.has_exception( ) == ( m.kind == 2 ) and static_cast<bool>( e ) == ( m.kind != 0 ) );
	if( m.kind == 2 ) {
		bool got = false;
		try { (void)e.get( ); } catch( Ex1 const &x ) { got = x.n == m.v; }
		CHECK( got );
		got = false;
		try { e.throw_if_exception( ); } catch( Ex1 const &x ) { got = x.n == m.v; }
		CHECK( got );
		CHECK( e.get_exception_message( ) == "ex1" and e.get_exception_ptr( ) != nullptr );
	} else {
		CHECK( not throws( [&] { e.throw_if_exception( ); } ) and e.get_exception_message( ).empty( ) );
	}
}
template<typename T>
static void same_v( daw::expected_t<T> &e, EModel m ) {
	same( e, m );
	if( m.kind == 1 ) { auto const &c = e; CHECK( e.get( ) == T( m.v ) and *e == T( m.v ) and c.get( ) == T( m.v ) and *c == T( m.v ) and *e.operator->( ) == T( m.v ) and c.operator->( ) == &*e ); }
}
static std::exception_ptr mk( U v ) { return std::make_exception_ptr( Ex1( v ) ); }
template<typename T>
static daw::expected_t<T> build( EModel &m, char const *n ) {
	m.v = sym_u32( n );
	unsigned how = static_cast<unsigned>( sym_pick( n, 0, 9 ) );
	U v = m.v;
	T const lv( v );
	switch( how ) {
	case 0: m.kind = 0; return daw::expected_t<T>( );
	case 1: m.kind = 1; return daw::expected_t<T>( T( v ) );
	case 2: m.kind = 1; return daw::expected_t<T>( lv );
	case 3: m.kind = 2; return daw::expected_t<T>( mk( v ) );
	case 4: m.kind = 2; return daw::expected_t<T>( typename daw::expected_t<T>::exception_tag{ }, Ex1( v ) );
	case 5: m.kind = 1; return daw::expected_t<T>( []( U x ) -> T { return T( x ); }, v );
	case 6: m.kind = 2; return daw::expected_t<T>( []( U x ) -> T { throw Ex1( x ); }, v );
	case 7: m.kind = sym_bool( "thr" ) ? 2 : 1; return daw::expected_from_code( [k = m.kind]( U x ) -> T { if( k == 2 ) throw Ex1( x ); return T( x ); }, v );
	case 8: m.kind = 2; try { throw Ex1( v ); } catch( ... ) { if( sym_bool( "tag" ) ) return daw::expected_t<T>( typename daw::expected_t<T>::exception_tag{ } ); return daw::expected_from_exception<T>( ); }
	default: m.kind = sym_bool( "thr" ) ? 2 : 1; return daw::expected_t<T>::from_code( [k = m.kind]( U x ) -> T { if( k == 2 ) throw Ex1( x ); return T( x ); }, v );
	}
}
template<typename T>
static void expected_all( ) {
	LeakGuard g;
	{
	EModel m, k{ 0, 0 };
	daw::expected_t<T> e = build<T>( m, "e" );
	same_v( e, m );
	U w = sym_u32( "w" );
	T lw( w );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 9 ) );
	if( op == 0 ) { e.set_value( lw ); m = { 1, w }; }
	else if( op == 1 ) { e.set_value( T( w ) ); m = { 1, w }; }
	else if( op == 2 ) { e = lw; m = { 1, w }; }
	else if( op == 3 ) { e = T( w ); m = { 1, w }; }
	else if( op == 4 ) { e = mk( w ); m = { 2, w }; }
	else if( op == 5 ) { if( sym_bool( "arg" ) ) e.set_exception( mk( w ) ); else try { throw Ex1( w ); } catch( ... ) { e.set_exception( ); } m = { 2, w }; }
	else if( op == 6 ) { e.clear( ); m = { 0, 0 }; }
	else if( op == 7 ) { daw::expected_t<T> f( e ); same_v( f, m ); CHECK( e == f and not( e != f ) ); daw::expected_t<T> h; h = e; same_v( h, m ); CHECK( e == h ); if( m.kind == 1 ) { f.get( ) = lw; same_v( f, { 1, w } ); same_v( e, m ); CHECK( ( e == f ) == ( w == m.v ) and ( e != f ) == ( w != m.v ) ); } f.clear( ); CHECK( ( e == f ) == ( m.kind == 0 ) and ( e != f ) == ( m.kind != 0 ) ); }
	else if( op == 8 ) { daw::expected_t<T> f( std::move( e ) ); same_v( f, m ); daw::expected_t<T> h( lw ); h = std::move( f ); same_v( h, m ); e = std::move( h ); same_v( e, m ); }
	else { if( m.kind == 1 ) { T x = std::move( e ).get( ); CHECK( x == T( m.v ) ); e = lw; m = { 1, w }; } }
	same_v( e, m );
	(void)k;
	}
	sym_reach( "end" );
}
//@ bounds: every way of making one, then one modification, all values
ENTRY expected_int( ) { expected_all<U>( ); }
//@ bounds: same, life-cycle checked values
ENTRY expected_obj( ) { expected_all<Track>( ); }
//@ bounds: every way of making one, then one modification
ENTRY expected_void( ) {
	LeakGuard g;
	{
	using E = daw::expected_t<void>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	bool thr = sym_bool( "thr" ), ran = false;
	EModel m;
	auto f = [&]( U x ) { ran = true; if( thr ) throw Ex1( x ); return x; };
	unsigned how = static_cast<unsigned>( sym_pick( "how", 0, 6 ) );
	auto mkk = [&]( ) -> E {
		if( how == 0 ) { m = { 0, 0 }; return E( ); }
		if( how == 1 ) { m = { 2, v }; return E( mk( v ) ); }
		if( how == 2 ) { m = { 2, v }; return E( E::exception_tag{ }, Ex1( v ) ); }
		m = { thr ? 2 : 1, v };
		if( how == 3 ) return E( f, v );
		if( how == 4 ) return E::from_code( f, v );
		if( how == 5 ) return daw::expected_from_code( [&]( U x ) { (void)f( x ); }, v );
		m = { 2, v };
		try { throw Ex1( v ); } catch( ... ) { return E( E::exception_tag{ } ); }
	};
	E e = mkk( );
	CHECK( ran == ( how >= 3 and how <= 5 ) );
	same( e, m );
	E c( e ); same( c, m ); CHECK( c == e and not( c != e ) );
	E d; d = e; same( d, m );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 5 ) );
	if( op == 0 ) { e.set_value( ); m = { 1, 0 }; }
	else if( op == 1 ) { e = sym_bool( "b" ); m = { 1, 0 }; }
	else if( op == 2 ) { e = mk( w ); m = { 2, w }; }
	else if( op == 3 ) { e.set_exception( mk( w ) ); m = { 2, w }; }
	else if( op == 4 ) { e.clear( ); m = { 0, 0 }; }
	else { e.set_value( 5 ); m = { 1, 0 }; }
	same( e, m );
	if( m.kind == 1 ) CHECK( not throws( [&] { e.get( ); } ) );
	}
	sym_reach( "end" );
}
//@ bounds: result type named explicitly; other exception types; empty access refused
ENTRY expected_edges( ) {
	U v = sym_u32( "v" );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 3 ) );
	if( op == 0 ) { auto e = daw::expected_from_code<uint64_t>( [&] { return v; } ); CHECK( e.has_value( ) and e.get( ) == v ); auto x = daw::expected_from_exception<U>( std::make_exception_ptr( Ex2{ v } ) ); CHECK( x.has_exception( ) and x.get_exception_message( ).empty( ) and throws_as<Ex2>( [&] { (void)*x; } ) ); sym_reach( "named" ); }
	else if( op == 1 ) { daw::expected_t<U> e; sym_expect_terminate( true ); (void)e.get( ); CHECK( false ); }
	else if( op == 2 ) { daw::expected_t<void> const e; sym_expect_terminate( true ); e.get( ); CHECK( false ); }
	else { daw::expected_t<U> const e; sym_expect_terminate( true ); (void)*e; CHECK( false ); }
}
// ---- optional
template<typename T>
static void opt_all( ) {
	LeakGuard g;
	{
	using O = daw::optional<T>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	bool has = sym_bool( "has" );
	T lv( v ), lw( w );
	unsigned how = static_cast<unsigned>( sym_pick( "how", 0, 2 ) );
	O a = how == 0 ? ( has ? O( T( v ) ) : O( ) ) : how == 1 ? ( has ? O( lv ) : O( daw::nullopt ) ) : O( );
	if( how == 2 and has ) CHECK( &a.emplace( v ) == &*a );
	auto same = []( O &o, bool h, U x ) {
		O const &c = o;
		CHECK( o.has_value( ) == h and static_cast<bool>( c ) == h and ( o == daw::nullopt ) == not h and ( daw::nullopt == o ) == not h and ( o != daw::nullopt ) == h and ( daw::nullopt != o ) == h );
		if( h ) { CHECK( *o == T( x ) and *c == T( x ) and o.value( ) == T( x ) and c.value( ) == T( x ) and o.operator->( ) == &*o and c.operator->( ) == &*o ); }
		else CHECK( throws_as<std::bad_optional_access>( [&] { (void)o.value( ); } ) and throws_as<std::bad_optional_access>( [&] { (void)c.value( ); } ) );
	};
	same( a, has, v );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 8 ) );
	if( op == 0 ) { a.reset( ); same( a, false, 0 ); }
	else if( op == 1 ) { a = daw::nullopt; same( a, false, 0 ); }
	else if( op == 2 ) { a = lw; same( a, true, w ); }
	else if( op == 3 ) { a = T( w ); same( a, true, w ); }
	else if( op == 4 ) { CHECK( a.emplace( w ) == lw ); same( a, true, w ); }
	else if( op == 5 ) { O b = sym_bool( "bh" ) ? O( lw ) : O( ); bool bh = b.has_value( ); a.swap( b ); same( a, bh, w ); same( b, has, v ); }
	else if( op == 6 ) { O b( a ); same( b, has, v ); O c( lw ); c = a; same( c, has, v ); same( a, has, v ); if( has ) { *b = lw; same( a, true, v ); } }
	else if( op == 7 ) { O b( std::move( a ) ); same( b, has, v ); O c( lw ); c = std::move( b ); same( c, has, v ); }
	else if( has ) { T x = *std::move( a ); CHECK( x == lv ); a = x; T y = std::move( a ).value( ); CHECK( y == lv ); }
	}
	sym_reach( "end" );
}
//@ bounds: every way of making one, then one modification, all values
ENTRY optional_int( ) { opt_all<U>( ); }
//@ bounds: same, life-cycle checked values
ENTRY optional_obj( ) { opt_all<Track>( ); }
//@ bounds: all values, every presence combination
ENTRY optional_compare( ) {
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	bool ha = sym_bool( "ha" ), hb = sym_bool( "hb" );
	daw::optional<U> a, b;
	if( ha ) a = v;
	if( hb ) b = w;
	std::optional<U> x, y;
	if( ha ) x = v;
	if( hb ) y = w;
	CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) );
	CHECK( ( a < b ) == ( x < y ) and ( a <= b ) == ( x <= y ) );
	CHECK( ( a > b ) == ( x > y ) and ( a >= b ) == ( x >= y ) );
	CHECK( ( a == w ) == ( x == w ) and ( a != w ) == ( x != w ) );
	CHECK( ( a < w ) == ( x < w ) and ( a <= w ) == ( x <= w ) );
	CHECK( ( a > w ) == ( x > w ) and ( a >= w ) == ( x >= w ) );
	CHECK( ( w == a ) == ( w == x ) and ( w != a ) == ( w != x ) );
	CHECK( ( w < a ) == ( w < x ) and ( w <= a ) == ( w <= x ) );
	CHECK( ( w > a ) == ( w > x ) );
	CHECK( ( w >= a ) == ( w >= x ) );
	auto n = daw::nullopt;
	CHECK( ( a < n ) == ( x < n ) and ( a <= n ) == ( x <= n ) and ( a > n ) == ( x > n ) and ( a >= n ) == ( x >= n ) );
	CHECK( ( n < a ) == ( n < x ) and ( n <= a ) == ( n <= x ) and ( n > a ) == ( n > x ) );
	CHECK( ( n >= a ) == ( n >= x ) );
	daw::optional<uint64_t> l; if( hb ) l = w;
	CHECK( ( a == l ) == ( x == y ) and ( a < l ) == ( x < y ) and ( a >= l ) == ( x >= y ) );
	sym_reach( "end" );
}
//@ bounds: all values
ENTRY optional_reference( ) {
	U x = sym_u32( "x" ), y = sym_u32( "y" ), ox = x;
	using O = daw::optional<U &>;
	O a, b( x ), c( daw::nullopt );
	CHECK( not a.has_value( ) and not c.has_value( ) and b.has_value( ) and static_cast<bool>( b ) and &*b == &x and b.operator->( ) == &x and &b.value( ) == &x );
	O const d( b );
	CHECK( &*d == &x and &d.value( ) == &x and d.operator->( ) == &x );
	*b = y; CHECK( x == y and *d == y );
	a.swap( b ); CHECK( &*a == &x and not b.has_value( ) and x == y );
	O e( y ); e = a; CHECK( &*e == &x and y == x );
	a.reset( ); CHECK( not a and throws_as<std::bad_optional_access>( [&] { (void)a.value( ); } ) );
	e = daw::nullopt; CHECK( not e );
	daw::optional<U const &> f( ox ); CHECK( &*f == &ox );
	sym_reach( "end" );
}
// ---- validated
struct Even { bool operator( )( U v ) const { return ( v & 1 ) == 0; } };
struct EvenT { bool operator( )( Track const &v ) const { return ( v.get( ) & 1 ) == 0; } };
enum class Color : uint8_t { r, g, b };
struct IsColor { constexpr bool operator( )( uint8_t v ) const { return v <= 2; } };
//@ bounds: all values
ENTRY validated_int( ) {
	using V = daw::validated<U, Even>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	V d; CHECK( d.get( ) == 0 );
	bool ok = ( v & 1 ) == 0, okw = ( w & 1 ) == 0;
	CHECK( throws_as<std::out_of_range>( [&] { V x( v ); } ) == not ok );
	CHECK( throws_as<std::out_of_range>( [&] { V x( std::in_place, v ); } ) == not ok );
	if( ok ) {
		V a( v ), b( std::in_place, v );
		CHECK( a.get( ) == v and *b == v and static_cast<U const &>( a ) == v and *a.operator->( ) == v and V( a ).get( ) == v );
		bool lval = sym_bool( "lval" );
		bool t = throws_as<std::out_of_range>( [&] { if( lval ) a = w; else a = U( w ); } );
		CHECK( t == not okw and a.get( ) == ( okw ? w : v ) );
		b = a; CHECK( *b == *a );
	}
	uint8_t c = sym_u8( "c" );
	using C = daw::validated<Color, IsColor>;
	CHECK( throws_as<std::out_of_range>( [&] { C x( c ); } ) == ( c > 2 ) );
	if( c <= 2 ) { C x( c ); CHECK( x.get( ) == static_cast<Color>( c ) ); }
	sym_reach( "end" );
}
//@ bounds: life-cycle checked values
ENTRY validated_obj( ) {
	LeakGuard g;
	{
	using V = daw::validated<Track, EvenT>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	bool ok = ( v & 1 ) == 0, okw = ( w & 1 ) == 0;
	CHECK( throws_as<std::out_of_range>( [&] { V x( v ); } ) == not ok );
	if( ok ) {
		V a( v );
		CHECK( a->get( ) == v );
		Track t( w );
		bool lval = sym_bool( "lval" );
		bool thr = throws_as<std::out_of_range>( [&] { if( lval ) a = t; else a = Track( w ); } );
		CHECK( thr == not okw and a.get( ).get( ) == ( okw ? w : v ) );
		Track o = std::move( a ).get( ); CHECK( o.get( ) == ( okw ? w : v ) );
	}
	}
	sym_reach( "end" );
}
// ---- optional of a polymorphic type
struct Base { U n; explicit Base( U x ) : n( x ) { ++Track::live; } Base( Base const &b ) : n( b.n ) { ++Track::live; } virtual ~Base( ) { --Track::live; } virtual U f( ) const { return n; } friend bool operator==( Base const &a, Base const &b ) { return a.n == b.n; } friend bool operator!=( Base const &a, Base const &b ) { return a.n != b.n; } friend bool operator<( Base const &a, Base const &b ) { return a.n < b.n; } friend bool operator<=( Base const &a, Base const &b ) { return a.n <= b.n; } friend bool operator>( Base const &a, Base const &b ) { return a.n > b.n; } friend bool operator>=( Base const &a, Base const &b ) { return a.n >= b.n; } };
struct Derived : Base { U k; explicit Derived( U x ) : Base( x ), k( ~x ) {} U f( ) const override { return k; } };
//@ bounds: all values, base or derived contents
ENTRY optional_polymorphic( ) {
	LeakGuard g;
	{
	using O = daw::optional_poly<Base>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	unsigned how = static_cast<unsigned>( sym_pick( "how", 0, 4 ) );
	bool der = how == 2 or how == 3;
	Derived const dv( v ); Base const bv( v );
	O a = how == 0 ? O( ) : how == 1 ? O( Base( v ) ) : how == 2 ? O( Derived( v ) ) : how == 3 ? O( dv ) : daw::make_optional_poly<Base>( v );
	bool has = how != 0;
	auto same = []( O &o, bool h, U n, bool d ) { O const &c = o; CHECK( o.has_value( ) == h and o.empty( ) == not h and static_cast<bool>( o ) == h ); if( h ) { CHECK( o->f( ) == ( d ? ~n : n ) and ( *c ).n == n and c->n == n and o.get( ).n == n and c.get( ).n == n and ( *o ).n == n ); } };
	same( a, has, v, der );
	unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 8 ) );
	if( op == 0 ) { a.reset( ); same( a, false, 0, false ); }
	else if( op == 1 ) { a.emplace( w ); same( a, true, w, false ); }
	else if( op == 2 ) { a = Derived( w ); same( a, true, w, true ); }
	else if( op == 3 ) { Base b( w ); a = b; same( a, true, w, false ); }
	else if( op == 4 ) { O b( std::move( a ) ); same( b, has, v, der ); same( a, false, 0, false ); O c( Base( 1u ) ); c = std::move( b ); same( c, has, v, der ); }
	else if( op == 5 ) { O b( a ); CHECK( b.has_value( ) == has and ( not has or b->n == v ) ); O c( Base( 1u ) ); c = a; CHECK( c.has_value( ) == has and ( not has or c->n == v ) ); same( a, has, v, der ); a = *&a; CHECK( a.has_value( ) == has and ( not has or a->n == v ) ); }
	else if( op == 6 ) { daw::optional_poly<Derived> d( Derived{ w } ); O b( std::move( d ) ); same( b, true, w, true ); daw::optional_poly<Derived> e( Derived{ v } ); b = std::move( e ); same( b, true, v, true ); CHECK( not e ); daw::optional_poly<Derived> const h( Derived{ w } ); O i( h ); same( i, true, w, true ); i = h; same( i, true, w, true ); }
	else if( op == 7 ) { O b{ Base( w ) }; swap( a, b ); same( a, true, w, false ); same( b, has, v, der ); }
	else { bool hb = sym_bool( "hb" ); O b = hb ? O( Base( w ) ) : O( ); std::optional<U> x, y; if( has ) x = v; if( hb ) y = w;
		CHECK( ( a == b ) == ( x == y ) and ( a != b ) == ( x != y ) and ( a < b ) == ( x < y ) and ( a <= b ) == ( x <= y ) and ( a > b ) == ( x > y ) and ( a >= b ) == ( x >= y ) ); }
	}
	sym_reach( "end" );
}
// ---- expected that lists its exceptions
template<typename E>
static void same_ck( E &e, EModel m ) {
	CHECK( e.empty( ) == ( m.kind == 0 ) and e.has_value( ) == ( m.kind == 1 ) and e.has_exception( ) == ( m.kind == 2 ) and static_cast<bool>( e ) == ( m.kind != 0 ) );
	bool got = false;
	try { e.throw_if_exception( ); } catch( Ex1 const &x ) { got = x.n == m.v; }
	CHECK( got == ( m.kind == 2 ) );
}
//@ bounds: every way of making one, listed and unlisted exceptions, all values
ENTRY checked_expected( ) {
	LeakGuard g;
	{
	using E = daw::checked_expected_t<U, std::bad_alloc, Ex1>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	unsigned how = static_cast<unsigned>( sym_pick( "how", 0, 5 ) );
	EModel m{ 0, v };
	if( how == 5 ) {
		CHECK( throws( [&] { (void)E::from_code( [&]( ) -> U { throw Ex2{ v }; } ); } ) );
	} else {
		E e = how == 0 ? E( ) : how == 1 ? E( v ) : how == 2 ? E( mk( v ) ) : how == 3 ? E::from_code( [&]( ) -> U { return v; } ) : E::from_code( []( U x ) -> U { throw Ex1( x ); }, v );
		m.kind = how == 0 ? 0 : how == 1 or how == 3 ? 1 : 2;
		same_ck( e, m ); if( m.kind == 1 ) CHECK( e.get( ) == v and *e == v );
		E c( e ), d; d = e; same_ck( c, m ); same_ck( d, m ); CHECK( c == e );
		unsigned op = static_cast<unsigned>( sym_pick( "op", 0, 1 ) );
		if( op == 0 ) { e = w; same_ck( e, { 1, w } ); CHECK( e.get( ) == w ); }
		else { e = mk( w ); same_ck( e, { 2, w } ); }
		bool differs = op != 0 or m.kind != 1 or v != w;
		CHECK( ( e == c ) == not differs and ( c == e ) == not differs );
		E f( std::move( c ) ); same_ck( f, m );
		E h; h = std::move( d ); same_ck( h, m );
		if( m.kind == 1 ) { f.get( ) = w; CHECK( f.get( ) == w and h.get( ) == v and static_cast<U>( f ) == w and *f.operator->( ) == w and *std::as_const( h ) == v and std::as_const( h ).get( ) == v and std::as_const( h ).operator->( ) == &std::as_const( h ).get( ) ); }
		else if( m.kind == 2 ) { CHECK( throws_as<Ex1>( [&] { (void)f.get( ); } ) and throws_as<Ex1>( [&] { (void)*std::as_const( h ); } ) and f.get_exception_ptr( ) == h.get_exception_ptr( ) ); }
	}
	CHECK( throws( [&] { E x( std::make_exception_ptr( Ex2{ v } ) ); } ) );
	{ Ex1 const l( v ); E x( typename E::exception_tag{}, l ); same_ck( x, { 2, v } ); }
	{ bool ok = false; try { throw Ex1( v ); } catch( ... ) { E x( typename E::exception_tag{} ); same_ck( x, { 2, v } ); ok = true; } CHECK( ok ); }
	}
	sym_reach( "end" );
}
//@ bounds: every way of making one, all values
ENTRY checked_expected_void( ) {
	LeakGuard g;
	{
	using E = daw::checked_expected_t<void, Ex1>;
	U v = sym_u32( "v" ), w = sym_u32( "w" );
	unsigned how = static_cast<unsigned>( sym_pick( "how", 0, 4 ) );
	E e = how == 0 ? E( ) : how == 1 ? E( mk( v ) ) : how == 2 ? E::from_code( [&]( ) {} ) : how == 3 ? E::from_code( []( U x ) { throw Ex1( x ); }, v ) : E( []( ) { } );
	EModel m{ how == 0 ? 0 : how == 2 or how == 4 ? 1 : 2, v };
	same_ck( e, m );
	E c( e ); same_ck( c, m );
	unsigned k2 = static_cast<unsigned>( sym_pick( "k2", 0, 2 ) );
	E d = k2 == 0 ? E( ) : k2 == 1 ? E( mk( w ) ) : E::from_code( [] {} );
	d = e; same_ck( d, m );
	if( sym_bool( "op" ) ) { e = true; same_ck( e, { 1, w } ); }
	else { e = mk( w ); same_ck( e, { 2, w } ); }
	}
	sym_reach( "end" );
}
