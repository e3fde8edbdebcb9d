// Models of LLVM intrinsics, the C library, the C++ ABI and the sym_* harness interface.
#include "exec.h"
#include "llvm/IR/IntrinsicsX86.h"
#include "llvm/IR/Intrinsics.h"
#include <algorithm>
#include <cstdio>

using namespace llvm;

static E const TRANSFERRED = reinterpret_cast<E>( 1 );

// ---------------------------------------------------------------- helpers
static E popcount( E a, uint32_t w ) {
	E r = X::c( w, 0 );
	// sum by halves keeps the expression shallow
	std::function<E( uint32_t, uint32_t )> go = [&]( uint32_t lo, uint32_t n ) -> E {
		if( n == 1 ) return X::zext( X::extract( a, lo, 1 ), w );
		uint32_t h = n / 2;
		return X::add( go( lo, h ), go( lo + h, n - h ) );
	};
	if( w == 1 ) return a;
	r = go( 0, a->w );
	return r;
}
static E cttz( E a ) {
	E r = X::c( a->w, a->w );
	for( int i = int( a->w ) - 1; i >= 0; --i ) r = X::ite( X::extract( a, i, 1 ), X::c( a->w, i ), r );
	return r;
}
static E ctlz( E a ) {
	E r = X::c( a->w, a->w );
	for( uint32_t i = 0; i < a->w; ++i ) r = X::ite( X::extract( a, i, 1 ), X::c( a->w, a->w - 1 - i ), r );
	return r;
}
static E bswap( E a ) {
	E r = nullptr;
	for( uint32_t i = 0; i < a->w; i += 8 ) { E b = X::extract( a, i, 8 ); r = r ? X::concat( r, b ) : b; }
	return r;
}
static E bitrev( E a ) {
	E r = nullptr;
	for( uint32_t i = 0; i < a->w; ++i ) { E b = X::extract( a, i, 1 ); r = r ? X::concat( r, b ) : b; }
	return r;
}
static E fsh( E a, E b, E c, bool left ) {
	uint32_t w = a->w;
	E ab = X::concat( a, b ); // 2w
	E sh = X::zext( X::bin( K::URem, c, X::c( w, w ) ), 2 * w );
	if( ( w & ( w - 1 ) ) == 0 ) sh = X::zext( X::and_( c, X::c( w, w - 1 ) ), 2 * w );
	if( left ) return X::extract( X::shl( ab, sh ), w, w );
	return X::extract( X::lshr( ab, sh ), 0, w );
}
static E addOv( E a, E b, bool sg ) { // overflow bit of a + b
	uint32_t w = a->w;
	if( not sg ) return X::ult( X::add( a, b ), a );
	E x = X::add( X::sext( a, w + 1 ), X::sext( b, w + 1 ) );
	return X::ne( X::extract( x, w, 1 ), X::extract( x, w - 1, 1 ) );
}
static E subOv( E a, E b, bool sg ) {
	uint32_t w = a->w;
	if( not sg ) return X::ult( a, b );
	E x = X::sub( X::sext( a, w + 1 ), X::sext( b, w + 1 ) );
	return X::ne( X::extract( x, w, 1 ), X::extract( x, w - 1, 1 ) );
}
static E mulOv( E a, E b, bool sg ) {
	uint32_t w = a->w;
	if( b->isConst( ) and not sg and not b->isZero( ) ) { // a > max / b
		return X::ult( X::mk_const( APInt::getMaxValue( w ).udiv( b->v ) ), a );
	}
	if( b->isConst( ) and sg and b->v.isStrictlyPositive( ) ) {
		APInt hi = APInt::getSignedMaxValue( w ).sdiv( b->v ), lo = APInt::getSignedMinValue( w ).sdiv( b->v );
		return X::or_( X::slt( X::mk_const( hi ), a ), X::slt( a, X::mk_const( lo ) ) );
	}
	if( sg ) {
		E x = X::mul( X::sext( a, 2 * w ), X::sext( b, 2 * w ) );
		return X::ne( x, X::sext( X::extract( x, 0, w ), 2 * w ) );
	}
	E x = X::mul( X::zext( a, 2 * w ), X::zext( b, 2 * w ) );
	return X::ne( X::extract( x, w, w ), X::c( w, 0 ) );
}

E Executor::intrinsic( State &s, KInst &k, CallBase *cb, Intrinsic::ID id, std::vector<E> const &a ) {
	uint32_t rw = cb->getType( )->isVoidTy( ) ? 0 : bitsOf( cb->getType( ) );
	bool vec = cb->getType( )->isVectorTy( );
	auto lanes = [&]( auto fn ) -> E {
		if( not vec ) return fn( a[0], a.size( ) > 1 ? a[1] : nullptr, a.size( ) > 2 ? a[2] : nullptr );
		auto *vt = cast<FixedVectorType>( cb->getType( ) );
		uint32_t w = bitsOf( vt->getElementType( ) ), n = vt->getNumElements( );
		E r = nullptr;
		for( unsigned i = 0; i < n; ++i ) {
			auto lane = [&]( size_t j ) -> E { return j >= a.size( ) ? nullptr : a[j]->w == w * n ? X::extract( a[j], i * w, w ) : a[j]; };
			E e = fn( lane( 0 ), lane( 1 ), lane( 2 ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r;
	};
	switch( id ) {
	case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
		E n = concretize( s, a[2] );
		if( n->isZero( ) ) return nullptr;
		E d = concretize( s, a[0] ), sr = concretize( s, a[1] );
		if( id != Intrinsic::memmove ) {
			uint64_t x = d->u64( ), y = sr->u64( ), len = n->u64( );
			if( x != y and x < y + len and y < x + len ) fatal( s, "memory", "memcpy with overlapping ranges" );
		}
		copyBytes( s, d->u64( ), sr->u64( ), n->u64( ) );
		return nullptr;
	}
	case Intrinsic::memset: case Intrinsic::memset_inline: {
		E n = concretize( s, a[2] );
		if( n->isZero( ) ) return nullptr;
		E d = concretize( s, a[0] );
		checkRange( s, d->u64( ), n->u64( ), true, "memset" );
		uint64_t base = 0;
		find( s, d->u64( ), &base );
		Obj &o = writable( s, base );
		for( uint64_t i = 0; i < n->u64( ); ++i ) o.bytes[d->u64( ) - base + i] = a[1];
		return nullptr;
	}
	case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
		uint64_t base = 0;
		if( not a[1]->isConst( ) ) return nullptr;
		Obj *o = find( s, a[1]->u64( ), &base );
		if( not o or o->kind != OK::Stack or o->freed or base != a[1]->u64( ) ) return nullptr;
		Obj &w = writable( s, base );
		if( id == Intrinsic::lifetime_start ) w.bytes.assign( w.size, nullptr );
		w.dead = id == Intrinsic::lifetime_end;
		return nullptr;
	}
	case Intrinsic::assume:
		if( cb->getNumOperandBundles( ) > 0 ) return nullptr;
		require( s, a[0], "ub", "assumption given to the optimiser is false" );
		return nullptr;
	case Intrinsic::x86_sse2_pause: return nullptr;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: return a[0];
	case Intrinsic::ctpop: return lanes( []( E x, E, E ) { return popcount( x, x->w ); } );
	case Intrinsic::ctlz:
		if( a[1]->isTrue( ) ) require( s, X::ne( a[0], X::c( a[0]->w, 0 ) ), "ub", "count leading zeros of 0 with undefined result" );
		return lanes( []( E x, E, E ) { return ctlz( x ); } );
	case Intrinsic::cttz:
		if( a[1]->isTrue( ) ) require( s, X::ne( a[0], X::c( a[0]->w, 0 ) ), "ub", "count trailing zeros of 0 with undefined result" );
		return lanes( []( E x, E, E ) { return cttz( x ); } );
	case Intrinsic::bswap: return lanes( []( E x, E, E ) { return bswap( x ); } );
	case Intrinsic::bitreverse: return lanes( []( E x, E, E ) { return bitrev( x ); } );
	case Intrinsic::fshl: return lanes( []( E x, E y, E z ) { return fsh( x, y, z, true ); } );
	case Intrinsic::fshr: return lanes( []( E x, E y, E z ) { return fsh( x, y, z, false ); } );
	case Intrinsic::umin: return lanes( []( E x, E y, E ) { return X::ite( X::ult( x, y ), x, y ); } );
	case Intrinsic::umax: return lanes( []( E x, E y, E ) { return X::ite( X::ult( x, y ), y, x ); } );
	case Intrinsic::smin: return lanes( []( E x, E y, E ) { return X::ite( X::slt( x, y ), x, y ); } );
	case Intrinsic::smax: return lanes( []( E x, E y, E ) { return X::ite( X::slt( x, y ), y, x ); } );
	case Intrinsic::abs:
		if( a[1]->isTrue( ) and not vec )
			require( s, X::ne( a[0], X::mk_const( APInt::getSignedMinValue( a[0]->w ) ) ), "ub", "absolute value of the most negative integer" );
		return lanes( []( E x, E, E ) { return X::ite( X::slt( x, X::c( x->w, 0 ) ), X::sub( X::c( x->w, 0 ), x ), x ); } );
	case Intrinsic::uadd_with_overflow: return X::concat( addOv( a[0], a[1], false ), X::add( a[0], a[1] ) );
	case Intrinsic::sadd_with_overflow: return X::concat( addOv( a[0], a[1], true ), X::add( a[0], a[1] ) );
	case Intrinsic::usub_with_overflow: return X::concat( subOv( a[0], a[1], false ), X::sub( a[0], a[1] ) );
	case Intrinsic::ssub_with_overflow: return X::concat( subOv( a[0], a[1], true ), X::sub( a[0], a[1] ) );
	case Intrinsic::umul_with_overflow: return X::concat( mulOv( a[0], a[1], false ), X::mul( a[0], a[1] ) );
	case Intrinsic::smul_with_overflow: return X::concat( mulOv( a[0], a[1], true ), X::mul( a[0], a[1] ) );
	case Intrinsic::uadd_sat: return lanes( []( E x, E y, E ) { return X::ite( addOv( x, y, false ), X::mk_const( APInt::getMaxValue( x->w ) ), X::add( x, y ) ); } );
	case Intrinsic::usub_sat: return lanes( []( E x, E y, E ) { return X::ite( X::ult( x, y ), X::c( x->w, 0 ), X::sub( x, y ) ); } );
	case Intrinsic::sadd_sat: case Intrinsic::ssub_sat: {
		bool add = id == Intrinsic::sadd_sat;
		return lanes( [add]( E x, E y, E ) {
			E neg = X::slt( x, X::c( x->w, 0 ) );
			E sat = X::ite( neg, X::mk_const( APInt::getSignedMinValue( x->w ) ), X::mk_const( APInt::getSignedMaxValue( x->w ) ) );
			return X::ite( add ? addOv( x, y, true ) : subOv( x, y, true ), sat, add ? X::add( x, y ) : X::sub( x, y ) );
		} );
	}
	case Intrinsic::trap: case Intrinsic::debugtrap:
		fatal( s, "ub", "trap executed" );
	case Intrinsic::ubsantrap: {
		static char const *const kinds[] = { "signed addition overflow", "invalid builtin argument", "cfi", "signed division overflow or division by zero", "dynamic type", "float cast overflow", "function type mismatch", "implicit conversion", "invalid bool or enum value", "invalid builtin", "", "load of invalid value", "missing return", "signed multiplication overflow", "signed negation overflow", "nullability argument", "nullability return", "nonnull argument", "nonnull return", "index out of bounds", "pointer overflow", "invalid shift", "signed subtraction overflow", "null or misaligned pointer", "", "unreachable" };
		uint64_t n = a[0]->u64( );
		fatal( s, "ub", std::string( "undefined behaviour: " ) + ( n < sizeof( kinds ) / sizeof( *kinds ) ? kinds[n] : "check" ) + " (" + std::to_string( n ) + ")" );
	}
	case Intrinsic::eh_typeid_for: return X::c( 32, typeId( a[0]->u64( ) ) );
	case Intrinsic::is_constant: return X::c( 1, 0 );
	case Intrinsic::objectsize: return X::mk_const( a[1]->isTrue( ) ? APInt( rw, 0 ) : APInt::getAllOnes( rw ) );
	case Intrinsic::fabs: return lanes( []( E x, E, E ) { return X::and_( x, X::mk_const( ~APInt::getSignMask( x->w ) ) ); } );
	case Intrinsic::copysign: return lanes( []( E x, E y, E ) { return X::or_( X::and_( x, X::mk_const( ~APInt::getSignMask( x->w ) ) ), X::and_( y, X::mk_const( APInt::getSignMask( x->w ) ) ) ); } );
	case Intrinsic::floor: return lanes( []( E x, E, E ) { return X::fp( K::FRint, x->w, 3, x ); } );
	case Intrinsic::ceil: return lanes( []( E x, E, E ) { return X::fp( K::FRint, x->w, 2, x ); } );
	case Intrinsic::trunc: return lanes( []( E x, E, E ) { return X::fp( K::FRint, x->w, 4, x ); } );
	case Intrinsic::round: return lanes( []( E x, E, E ) { return X::fp( K::FRint, x->w, 1, x ); } );
	case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return lanes( []( E x, E, E ) { return X::fp( K::FRint, x->w, 0, x ); } );
	case Intrinsic::sqrt: return lanes( []( E x, E, E ) { return X::fp( K::FSqrt, x->w, 0, x ); } );
	case Intrinsic::fma: return lanes( []( E x, E y, E z ) { return X::fp( K::FFma, x->w, 0, x, y, z ); } );
	case Intrinsic::fmuladd: return lanes( []( E x, E y, E z ) { return X::fp( K::FAdd, x->w, 0, X::fp( K::FMul, x->w, 0, x, y ), z ); } );
	case Intrinsic::minnum: return lanes( []( E x, E y, E ) { return X::ite( X::fp( K::FIsNan, 1, 0, x ), y, X::ite( X::fp( K::FOlt, 1, 0, y, x ), y, x ) ); } );
	case Intrinsic::maxnum: return lanes( []( E x, E y, E ) { return X::ite( X::fp( K::FIsNan, 1, 0, x ), y, X::ite( X::fp( K::FOlt, 1, 0, x, y ), y, x ) ); } );
	case Intrinsic::is_fpclass: {
		uint64_t m = a[1]->u64( );
		E x = a[0];
		fltSemantics const &fs = x->w == 32 ? APFloat::IEEEsingle( ) : x->w == 64 ? APFloat::IEEEdouble( ) : APFloat::IEEEhalf( );
		uint32_t mant = x->w == 32 ? 23 : x->w == 64 ? 52 : 10, ex = x->w - mant - 1;
		(void)fs;
		E M_ = X::extract( x, 0, mant ), Ex = X::extract( x, mant, ex ), Sg = X::extract( x, x->w - 1, 1 );
		E e1 = X::eq( Ex, X::mk_const( APInt::getAllOnes( ex ) ) ), e0 = X::eq( Ex, X::c( ex, 0 ) ), m0 = X::eq( M_, X::c( mant, 0 ) );
		E q = X::extract( x, mant - 1, 1 );
		E pos = X::not_( Sg );
		E nan = X::and_( e1, X::not_( m0 ) ), inf = X::and_( e1, m0 ), zero = X::and_( e0, m0 ), sub = X::and_( e0, X::not_( m0 ) ), norm = X::not_( X::or_( e0, e1 ) );
		E cl[10] = { X::and_( nan, X::not_( q ) ), X::and_( nan, q ), X::and_( inf, Sg ), X::and_( norm, Sg ), X::and_( sub, Sg ), X::and_( zero, Sg ), X::and_( zero, pos ), X::and_( sub, pos ), X::and_( norm, pos ), X::and_( inf, pos ) };
		E r = X::f( );
		for( int i = 0; i < 10; ++i ) if( m >> i & 1 ) r = X::or_( r, cl[i] );
		return r;
	}
	case Intrinsic::fptosi_sat: case Intrinsic::fptoui_sat: unsupported( s, "saturating float conversion" );
	case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_and: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_xor: {
		E r = X::extract( a[0], 0, rw );
		for( uint32_t i = rw; i < a[0]->w; i += rw ) {
			E e = X::extract( a[0], i, rw );
			r = id == Intrinsic::vector_reduce_add ? X::add( r, e ) : id == Intrinsic::vector_reduce_and ? X::and_( r, e ) : id == Intrinsic::vector_reduce_or ? X::or_( r, e ) : X::xor_( r, e );
		}
		return r;
	}
	case Intrinsic::stacksave: return X::c( 64, 0 );
	case Intrinsic::threadlocal_address: return a[0];
	case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
	case Intrinsic::invariant_start: return X::c( 64, 0 );
	case Intrinsic::stackrestore: case Intrinsic::sideeffect: case Intrinsic::donothing: case Intrinsic::experimental_noalias_scope_decl:
	case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::prefetch: case Intrinsic::invariant_end: case Intrinsic::var_annotation:
		return nullptr;
	default: break;
	}
	(void)k;
	unsupported( s, "intrinsic " + cb->getCalledFunction( )->getName( ).str( ) );
}

// ---------------------------------------------------------------- natives
static void allocResult( Executor &x, State &s, uint64_t n, uint64_t align, AK ak, uint64_t &out ) {
	auto o = x.alloc( s, n, align, OK::Heap, "heap" );
	o->ak = ak;
	++s.heapLive;
	out = o->base;
}
static void throwStd( Executor &x, State &s, char const *type, uint64_t msg ) {
	auto *g = x.M->getGlobalVariable( std::string( "_ZTI" ) + type, true );
	if( not g ) x.unsupported( s, std::string( "typeinfo of " ) + type );
	auto o = x.alloc( s, 64, 16, OK::Exc, type );
	uint64_t ob = o->base;
	o->bytes.assign( 64, X::c( 8, 0 ) );
	o.reset( );
	auto *vt = x.M->getGlobalVariable( std::string( "_ZTV" ) + type, true );
	if( vt ) x.store( s, X::c( 64, ob ), X::c( 64, x.gaddr[vt] + 16 ), 8 );
	if( msg ) x.store( s, X::c( 64, ob + 8 ), X::c( 64, msg ), 8 );
	Exc e;
	e.obj = ob; e.tinfo = x.gaddr[g]; e.dtor = 0; e.size = 64; e.refs = 1;
	s.excs[ob] = e;
	++s.threads[s.cur].uncaught;
	x.unwind( s, ob, false );
}
static void releaseExc( Executor &x, State &s, uint64_t ob, bool inCall ) {
	auto it = s.excs.find( ob );
	if( it == s.excs.end( ) ) return;
	if( --it->second.refs > 0 ) return;
	uint64_t d = it->second.dtor;
	// the object stays readable for its destructor; it is marked freed by excFree
	if( d ) {
		auto fi = x.faddr.find( d );
		if( fi != x.faddr.end( ) and not fi->second->isDeclaration( ) ) {
			x.pushFrame( s, fi->second, { X::c( 64, ob ) }, nullptr, -1, true );
			(void)inCall;
		}
	}
}

void Executor::registerNatives( ) {
	auto reg = [&]( std::string n, Native f ) { natives[n] = std::move( f ); };
	auto C = []( uint32_t w, uint64_t v ) { return X::c( w, v ); };
	using A = std::vector<E> const &;
	using CB = CallBase const *;
#define N [=]( Executor & x, State & s, CB cb, A a ) -> E
	// ---- harness interface
	auto symint = [&]( char const *n, uint32_t w ) {
		reg( n, [w]( Executor &x, State &s, CB, A a ) -> E { return x.input( s, x.cstr( s, a[0] ), w ); } );
	};
	symint( "sym_u8", 8 ); symint( "sym_u16", 16 ); symint( "sym_u32", 32 ); symint( "sym_u64", 64 );
	reg( "sym_bool", N { (void)cb; return X::zext( x.input( s, x.cstr( s, a[0] ), 1 ), 1 ); } );
	reg( "sym_bytes", N {
		(void)cb;
		E p = x.concretize( s, a[0] ), n = x.concretize( s, a[1] );
		std::string nm = x.cstr( s, a[2] );
		x.checkRange( s, p->u64( ), n->u64( ), true, "sym_bytes" );
		for( uint64_t i = 0; i < n->u64( ); ++i ) x.store( s, C( 64, p->u64( ) + i ), x.input( s, nm + "[" + std::to_string( i ) + "]", 8 ), 1 );
		return nullptr;
	} );
	reg( "sym_assume", N {
		(void)cb;
		E c = X::extract( a[0], 0, 1 );
		if( c->isTrue( ) ) return nullptr;
		if( X::eval( c, s.model ).getBoolValue( ) ) { x.addCons( s, c ); return nullptr; }
		Model m;
		if( not x.mayBeTrue( s, c, &m ) ) { ++x.assumedOut; throw PathEnd{ }; }
		s.model = std::move( m );
		x.addCons( s, c );
		return nullptr;
	} );
	reg( "sym_assert", N {
		(void)cb;
		E c = X::extract( a[0], 0, 1 );
		++x.asserts;
		if( not c->isConst( ) ) ++x.asserts_solver;
		std::string msg = x.cstr( s, a[1] );
		x.require( s, c, "assert", msg );
		return nullptr;
	} );
	reg( "sym_reach", N { (void)cb; x.reached.insert( x.cstr( s, a[0] ) ); return nullptr; } );
	reg( "sym_param", N {
		(void)cb;
		std::string n = x.cstr( s, a[0] );
		auto it = x.opt.params.find( n );
		uint64_t v = it == x.opt.params.end( ) ? a[1]->u64( ) : it->second;
		x.usedParams[n] = v;
		return C( 64, v );
	} );
	reg( "sym_concrete", N { (void)cb; return x.concretize( s, a[0] ); } );
	reg( "sym_shared", N { (void)cb; s.shared.push_back( { x.concretize( s, a[0] )->u64( ), a[1]->u64( ) } ); return nullptr; } );
	reg( "sym_spawn", []( Executor &x, State &s, CB cb, A a ) -> E {
		(void)cb;
		auto it = x.faddr.find( a[0]->u64( ) );
		if( it == x.faddr.end( ) ) x.unsupported( s, "thread function" );
		if( s.threads.size( ) == 1 ) s.threads[0].vc = Clock{ 1 };
		int const me = s.cur, id = int( s.threads.size( ) );
		s.threads.emplace_back( );
		Thread &t = s.threads.back( );
		t.vc = s.threads[me].vc;
		t.vc.resize( id + 1, 0 );
		t.vc[id] = 1;
		++s.threads[me].vc[me];
		s.cur = id;
		x.pushFrame( s, it->second, { a[1] }, nullptr, -1, true );
		s.cur = me;
		return nullptr;
	} );
	reg( "sym_join", []( Executor &x, State &s, CB cb, A ) -> E {
		(void)cb;
		Thread &m = s.threads[s.cur];
		if( s.cur != 0 ) x.unsupported( s, "join outside the first thread" );
		for( size_t t = 1; t < s.threads.size( ); ++t )
			if( not s.threads[t].done ) {
				m.joining = true;
				x.decide( s, Executor::SK::Block );
				return reinterpret_cast<E>( 1 );
			}
		m.joining = false;
		m.go = false;
		for( auto &t : s.threads ) {
			if( m.vc.size( ) < t.vc.size( ) ) m.vc.resize( t.vc.size( ), 0 );
			for( size_t i = 0; i < t.vc.size( ); ++i ) m.vc[i] = std::max( m.vc[i], t.vc[i] );
		}
		s.threads.resize( 1 );
		return nullptr;
	} );
	reg( "sym_sched_yield", []( Executor &x, State &s, CB, A ) -> E {
		if( s.threads.size( ) < 2 ) return nullptr;
		++s.top( ).pc;
		x.decide( s, Executor::SK::Yield );
		return reinterpret_cast<E>( 1 );
	} );
	reg( "sym_symbolic", N { (void)cb; (void)a; (void)x; (void)s; return C( 1, 1 ); } );
	reg( "sym_expect_terminate", N { (void)cb; (void)x; s.expectTerm = a[0]->isConst( ) and X::extract( a[0], 0, 1 )->isTrue( ); return nullptr; } );
	reg( "sym_heap_live", N { (void)cb; (void)x; (void)a; return C( 64, uint64_t( s.heapLive ) ); } );
	reg( "sym_fail_alloc_at", N { (void)cb; E n = x.concretize( s, a[0] ); s.allocFailAt = int64_t( n->u64( ) ); return nullptr; } );
	reg( "sym_note", N { (void)cb; s.trace.push_back( x.cstr( s, a[0] ) ); return nullptr; } );
	reg( "sym_is_dead", N { // is the byte at this address outside every live object?
		(void)cb;
		E p = x.concretize( s, a[0] );
		Obj *o = x.find( s, p->u64( ) );
		return C( 1, not o or o->freed or o->dead or p->u64( ) - o->base >= o->size );
	} );
	// ---- allocation
	auto allocFails = []( State &s ) { return s.allocFailAt >= 0 and s.allocFailAt-- == 0; };
	auto newf = [=]( AK ak, int alignArg, bool nothrow ) -> Native {
		return [=]( Executor &x, State &s, CB, A a ) -> E {
			E n = a[0];
			if( not n->isConst( ) ) {
				// huge requests fail; the rest is enumerated
				E big = X::ult( X::c( 64, x.opt.maxAlloc ), n );
				if( X::eval( big, s.model ).getBoolValue( ) ) { x.addCons( s, big ); n = nullptr; }
				else n = x.concretize( s, n );
			}
			if( not n or n->u64( ) > x.opt.maxAlloc or allocFails( s ) ) {
				if( n and n->u64( ) > ( 1ull << 40 ) ) n = nullptr;
				if( nothrow ) return X::c( 64, 0 );
				throwStd( x, s, "St9bad_alloc", 0 );
				return TRANSFERRED;
			}
			uint64_t p = 0;
			allocResult( x, s, n->u64( ), alignArg > 0 ? std::max<uint64_t>( 16, x.concretize( s, a[alignArg] )->u64( ) ) : 16, ak, p );
			return X::c( 64, p );
		};
	};
	reg( "_Znwm", newf( AK::New, 0, false ) );
	reg( "_Znam", newf( AK::NewArr, 0, false ) );
	reg( "_ZnwmSt11align_val_t", newf( AK::New, 1, false ) );
	reg( "_ZnamSt11align_val_t", newf( AK::NewArr, 1, false ) );
	reg( "_ZnwmRKSt9nothrow_t", newf( AK::New, 0, true ) );
	reg( "_ZnamRKSt9nothrow_t", newf( AK::NewArr, 0, true ) );
	auto mallocf = newf( AK::Malloc, 0, true );
	reg( "malloc", mallocf );
	reg( "aligned_alloc", N { std::vector<E> b{ a[1], a[0] }; return newf( AK::Malloc, 1, true )( x, s, cb, b ); } );
	reg( "calloc", N {
		E n = x.concretize( s, X::mul( a[0], a[1] ) );
		E p = mallocf( x, s, cb, { n } );
		if( p->isZero( ) ) return p;
		Obj &o = x.writable( s, p->u64( ) );
		std::fill( o.bytes.begin( ), o.bytes.end( ), X::c( 8, 0 ) );
		return p;
	} );
	reg( "realloc", N {
		E n = x.concretize( s, a[1] ), p = x.concretize( s, a[0] );
		if( p->isZero( ) ) return mallocf( x, s, cb, { n } );
		uint64_t base = 0;
		Obj *o = x.find( s, p->u64( ), &base );
		if( not o or base != p->u64( ) or o->kind != OK::Heap or o->freed ) x.fatal( s, "memory", "realloc of an invalid pointer" );
		uint64_t keep = std::min( o->size, n->u64( ) );
		E q = mallocf( x, s, cb, { n } );
		if( q->isZero( ) ) return q;
		x.copyBytes( s, q->u64( ), p->u64( ), keep );
		x.freeObj( s, p, AK::Malloc, nullptr );
		return q;
	} );
	auto del = [=]( AK ak, int szArg ) -> Native { return [=]( Executor &x, State &s, CB, A a ) -> E { x.freeObj( s, a[0], ak, szArg > 0 ? a[szArg] : nullptr ); return nullptr; }; };
	reg( "free", del( AK::Malloc, 0 ) );
	reg( "_ZdlPv", del( AK::New, 0 ) ); reg( "_ZdlPvm", del( AK::New, 1 ) ); reg( "_ZdlPvSt11align_val_t", del( AK::New, 0 ) ); reg( "_ZdlPvmSt11align_val_t", del( AK::New, 1 ) ); reg( "_ZdlPvRKSt9nothrow_t", del( AK::New, 0 ) );
	reg( "_ZdaPv", del( AK::NewArr, 0 ) ); reg( "_ZdaPvm", del( AK::NewArr, 1 ) ); reg( "_ZdaPvSt11align_val_t", del( AK::NewArr, 0 ) ); reg( "_ZdaPvmSt11align_val_t", del( AK::NewArr, 1 ) ); reg( "_ZdaPvRKSt9nothrow_t", del( AK::NewArr, 0 ) );
	// ---- memory and string functions
	auto bytesAt = []( Executor &x, State &s, E p, uint64_t n, char const *what ) {
		std::vector<E> r;
		if( n == 0 ) return r;
		E q = x.concretize( s, p );
		x.checkRange( s, q->u64( ), n, false, what );
		for( uint64_t i = 0; i < n; ++i ) r.push_back( x.load( s, X::c( 64, q->u64( ) + i ), 8, 1 ) );
		return r;
	};
	auto cmpf = [=]( Executor &x, State &s, CB, A a ) -> E {
		E n = x.concretize( s, a[2] ), p = x.concretize( s, a[0] ), q = x.concretize( s, a[1] );
		auto v = bytesAt( x, s, p, n->u64( ), "memcmp" ), w = bytesAt( x, s, q, n->u64( ), "memcmp" );
		E r = X::c( 32, 0 );
		for( size_t i = v.size( ); i-- > 0; )
			r = X::ite( X::eq( v[i], w[i] ), r, X::ite( X::ult( v[i], w[i] ), X::c( 32, 0xffffffff ), X::c( 32, 1 ) ) );
		return r;
	};
	reg( "memcmp", cmpf );
	reg( "bcmp", [=]( Executor &x, State &s, CB, A a ) -> E {
		E n = x.concretize( s, a[2] ), p = x.concretize( s, a[0] ), q = x.concretize( s, a[1] );
		auto v = bytesAt( x, s, p, n->u64( ), "bcmp" ), w = bytesAt( x, s, q, n->u64( ), "bcmp" );
		E r = X::t( );
		for( size_t i = 0; i < v.size( ); ++i ) r = X::and_( r, X::eq( v[i], w[i] ) );
		return X::zext( X::not_( r ), 32 );
	} );
	reg( "memchr", [=]( Executor &x, State &s, CB, A a ) -> E {
		E n = x.concretize( s, a[2] ), p = x.concretize( s, a[0] );
		auto v = bytesAt( x, s, p, n->u64( ), "memchr" );
		E c = X::extract( a[1], 0, 8 ), r = X::c( 64, 0 );
		for( size_t i = v.size( ); i-- > 0; ) r = X::ite( X::eq( v[i], c ), X::add( p, X::c( 64, i ) ), r );
		return x.concretize( s, r );
	} );
	reg( "memmem", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, a[0] ), n = x.concretize( s, a[1] ), q = x.concretize( s, a[2] ), m = x.concretize( s, a[3] );
		auto h = bytesAt( x, s, p, n->u64( ), "memmem" );
		auto d = bytesAt( x, s, q, m->u64( ), "memmem" );
		E r = X::c( 64, 0 );
		if( d.size( ) > h.size( ) ) return r;
		for( size_t i = h.size( ) - d.size( ) + 1; i-- > 0; ) {
			E e = X::c( 1, 1 );
			for( size_t k = 0; k < d.size( ); ++k ) e = X::and_( e, X::eq( h[i + k], d[k] ) );
			r = X::ite( e, X::add( p, X::c( 64, i ) ), r );
		}
		return x.concretize( s, r );
	} );
	reg( "strlen", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, a[0] );
		for( uint64_t i = 0;; ++i ) {
			x.checkRange( s, p->u64( ) + i, 1, false, "strlen" );
			E b = x.load( s, X::c( 64, p->u64( ) + i ), 8, 1 );
			E z = x.concretize( s, X::eq( b, X::c( 8, 0 ) ) );
			if( z->isTrue( ) ) return X::c( 64, i );
		}
	} );
	reg( "strcmp", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, a[0] ), q = x.concretize( s, a[1] );
		for( uint64_t i = 0;; ++i ) {
			x.checkRange( s, p->u64( ) + i, 1, false, "strcmp" );
			x.checkRange( s, q->u64( ) + i, 1, false, "strcmp" );
			E b = x.load( s, X::c( 64, p->u64( ) + i ), 8, 1 ), c = x.load( s, X::c( 64, q->u64( ) + i ), 8, 1 );
			E e = x.concretize( s, X::eq( b, c ) );
			if( not e->isTrue( ) ) return X::ite( X::ult( b, c ), X::c( 32, 0xffffffff ), X::c( 32, 1 ) );
			E z = x.concretize( s, X::eq( b, X::c( 8, 0 ) ) );
			if( z->isTrue( ) ) return X::c( 32, 0 );
		}
	} );
	auto cpy = [=]( bool mv ) -> Native { return [=]( Executor &x, State &s, CB, A a ) -> E {
		E n = x.concretize( s, a[2] ), d = x.concretize( s, a[0] ), sr = x.concretize( s, a[1] );
		uint64_t X_ = d->u64( ), Y = sr->u64( ), len = n->u64( );
		if( not mv and len and X_ != Y and X_ < Y + len and Y < X_ + len ) x.fatal( s, "memory", "memcpy with overlapping ranges" );
		x.copyBytes( s, X_, Y, len );
		return a[0];
	}; };
	reg( "memcpy", cpy( false ) );
	reg( "memmove", cpy( true ) );
	reg( "memset", [=]( Executor &x, State &s, CB, A a ) -> E {
		E n = x.concretize( s, a[2] ), d = x.concretize( s, a[0] );
		if( n->isZero( ) ) return d;
		x.checkRange( s, d->u64( ), n->u64( ), true, "memset" );
		for( uint64_t i = 0; i < n->u64( ); ++i ) x.store( s, X::c( 64, d->u64( ) + i ), X::extract( a[1], 0, 8 ), 1 );
		return d;
	} );
	// ---- mathematics
	for( auto &[n, m] : std::map<std::string, int>{ { "floor", 3 }, { "ceil", 2 }, { "trunc", 4 }, { "round", 1 }, { "rint", 0 }, { "nearbyint", 0 } } ) {
		int mode = m;
		Native f = [mode]( Executor &, State &, CB, A a ) -> E { return X::fp( K::FRint, a[0]->w, mode, a[0] ); };
		reg( n, f ); reg( n + "f", f );
	}
	Native sq = []( Executor &, State &, CB, A a ) -> E { return X::fp( K::FSqrt, a[0]->w, 0, a[0] ); };
	reg( "sqrt", sq ); reg( "sqrtf", sq );
	Native ab = []( Executor &, State &, CB, A a ) -> E { return X::and_( a[0], X::mk_const( ~APInt::getSignMask( a[0]->w ) ) ); };
	reg( "fabs", ab ); reg( "fabsf", ab );
	// ---- termination
	auto term = []( char const *w ) -> Native { return [w]( Executor &x, State &s, CB, A ) -> E { x.doTerminate( s, w ); return nullptr; }; };
	reg( "abort", term( "abort() called" ) );
	reg( "_ZSt9terminatev", term( "std::terminate() called" ) );
	reg( "__clang_call_terminate", term( "exception escapes a noexcept function" ) );
	reg( "__cxa_pure_virtual", term( "pure virtual call" ) );
	reg( "__cxa_call_unexpected", term( "unexpected exception" ) );
	reg( "_ZSt21__glibcxx_assert_failPKciS0_S0_", term( "libstdc++ assertion failed" ) );
	reg( "__assert_fail", [=]( Executor &x, State &s, CB, A a ) -> E { x.doTerminate( s, "assert failed: " + x.cstr( s, a[0] ) ); return nullptr; } );
	reg( "exit", term( "exit() called" ) );
	reg( "_exit", term( "_exit() called" ) );
	reg( "quick_exit", term( "quick_exit() called" ) );
	// ---- guards, atexit
	reg( "__cxa_guard_acquire", [=]( Executor &x, State &s, CB, A a ) -> E { E b = x.load( s, a[0], 8, 1 ); return X::zext( X::eq( b, X::c( 8, 0 ) ), 32 ); } );
	reg( "__cxa_guard_release", [=]( Executor &x, State &s, CB, A a ) -> E { x.store( s, a[0], X::c( 8, 1 ), 1 ); return nullptr; } );
	reg( "__cxa_guard_abort", []( Executor &, State &, CB, A ) -> E { return nullptr; } );
	reg( "__cxa_atexit", []( Executor &, State &, CB, A ) -> E { return X::c( 32, 0 ); } );
	reg( "__cxa_thread_atexit", []( Executor &, State &, CB, A ) -> E { return X::c( 32, 0 ); } );
	reg( "_ZNSt8ios_base4InitC1Ev", []( Executor &, State &, CB, A ) -> E { return nullptr; } );
	reg( "_ZNSt8ios_base4InitD1Ev", []( Executor &, State &, CB, A ) -> E { return nullptr; } );
	// ---- exceptions
	reg( "__cxa_allocate_exception", [=]( Executor &x, State &s, CB, A a ) -> E {
		uint64_t n = x.concretize( s, a[0] )->u64( );
		auto o = x.alloc( s, n, 16, OK::Exc, "exception" );
		Exc e; e.obj = o->base; e.tinfo = 0; e.dtor = 0; e.size = n; e.refs = 0;
		s.excs[o->base] = e;
		return X::c( 64, o->base );
	} );
	reg( "__cxa_free_exception", [=]( Executor &x, State &s, CB, A a ) -> E {
		auto it = s.excs.find( a[0]->u64( ) );
		if( it == s.excs.end( ) ) return nullptr;
		x.writable( s, it->first ).freed = true;
		s.excs.erase( it );
		return nullptr;
	} );
	reg( "__cxa_init_primary_exception", []( Executor &, State &s, CB, A a ) -> E {
		auto &e = s.excs[a[0]->u64( )];
		e.tinfo = a[1]->u64( ); e.dtor = a[2]->u64( );
		return a[0];
	} );
	reg( "__cxa_throw", [=]( Executor &x, State &s, CB, A a ) -> E {
		auto &e = s.excs[a[0]->u64( )];
		e.tinfo = a[1]->u64( ); e.dtor = a[2]->u64( ); e.refs = 1;
		++s.threads[s.cur].uncaught;
		x.unwind( s, a[0]->u64( ), false );
		return TRANSFERRED;
	} );
	reg( "__cxa_begin_catch", [=]( Executor &x, State &s, CB, A a ) -> E {
		uint64_t p = a[0]->u64( );
		auto it = s.excs.find( p );
		if( it == s.excs.end( ) ) x.unsupported( s, "begin_catch of an unknown exception" );
		s.threads[s.cur].caught.push_back( p );
		--s.threads[s.cur].uncaught;
		return X::c( 64, p );
	} );
	reg( "__cxa_get_exception_ptr", []( Executor &, State &, CB, A a ) -> E { return a[0]; } );
	reg( "__cxa_end_catch", [=]( Executor &x, State &s, CB cb, A ) -> E {
		auto &c = s.threads[s.cur].caught;
		if( c.empty( ) ) x.fatal( s, "ub", "end_catch without a caught exception" );
		uint64_t p = c.back( );
		c.pop_back( );
		// finish the call first: the destructor runs in a frame of its own
		Frame &f = s.top( );
		++f.pc;
		if( auto *inv = dyn_cast<InvokeInst>( cb ) ) x.jump( s, inv->getNormalDest( ) );
		releaseExc( x, s, p, true );
		return TRANSFERRED;
	} );
	reg( "__cxa_rethrow", [=]( Executor &x, State &s, CB, A ) -> E {
		auto &c = s.threads[s.cur].caught;
		if( c.empty( ) ) { x.doTerminate( s, "rethrow without a caught exception" ); return nullptr; }
		s.excs[c.back( )].refs++;
		++s.threads[s.cur].uncaught;
		x.unwind( s, c.back( ), false );
		return TRANSFERRED;
	} );
	reg( "_ZSt19uncaught_exceptionsv", []( Executor &, State &s, CB, A ) -> E { return X::c( 32, s.threads[s.cur].uncaught ); } );
	reg( "_ZSt18uncaught_exceptionv", []( Executor &, State &s, CB, A ) -> E { return X::c( 1, s.threads[s.cur].uncaught > 0 ); } );
	reg( "_ZSt17current_exceptionv", [=]( Executor &x, State &s, CB, A a ) -> E {
		auto &c = s.threads[s.cur].caught;
		uint64_t p = c.empty( ) ? 0 : c.back( );
		if( p ) s.excs[p].refs++;
		x.store( s, a[0], X::c( 64, p ), 8 );
		return nullptr;
	} );
	reg( "_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.load( s, a[0], 64, 8 );
		p = x.concretize( s, p );
		if( p->isZero( ) ) { x.doTerminate( s, "rethrow_exception of a null exception_ptr" ); return nullptr; }
		s.excs[p->u64( )].refs++;
		++s.threads[s.cur].uncaught;
		x.unwind( s, p->u64( ), false );
		return TRANSFERRED;
	} );
	reg( "_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, x.load( s, a[0], 64, 8 ) );
		if( not p->isZero( ) ) s.excs[p->u64( )].refs++;
		return nullptr;
	} );
	reg( "_ZNSt15__exception_ptr13exception_ptrC1EPv", [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, a[1] );
		x.store( s, a[0], p, 8 );
		if( not p->isZero( ) ) s.excs[p->u64( )].refs++;
		return nullptr;
	} );
	natives["_ZNSt15__exception_ptr13exception_ptrC2EPv"] = natives["_ZNSt15__exception_ptr13exception_ptrC1EPv"];
	auto rel = [=]( Executor &x, State &s, CB cb, A a ) -> E {
		E p = x.concretize( s, x.load( s, a[0], 64, 8 ) );
		x.store( s, a[0], X::c( 64, 0 ), 8 );
		if( p->isZero( ) ) return nullptr;
		Frame &f = s.top( );
		++f.pc;
		if( auto *inv = dyn_cast<InvokeInst>( cb ) ) x.jump( s, inv->getNormalDest( ) );
		releaseExc( x, s, p->u64( ), true );
		return TRANSFERRED;
	};
	reg( "_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv", rel );
	reg( "_ZNSt15__exception_ptr13exception_ptrD1Ev", rel );
	reg( "_ZNSt15__exception_ptr13exception_ptrD2Ev", rel );
	auto epcopy = [=]( Executor &x, State &s, CB, A a ) -> E {
		E p = x.concretize( s, x.load( s, a[1], 64, 8 ) );
		x.store( s, a[0], p, 8 );
		if( not p->isZero( ) ) s.excs[p->u64( )].refs++;
		return nullptr;
	};
	reg( "_ZNSt15__exception_ptr13exception_ptrC1ERKS0_", epcopy );
	reg( "_ZNSt15__exception_ptr13exception_ptrC2ERKS0_", epcopy );
	// ---- throw helpers of libstdc++
	struct T { char const *fn; char const *ty; };
	for( T t : { T{ "_ZSt20__throw_length_errorPKc", "St12length_error" }, T{ "_ZSt20__throw_out_of_rangePKc", "St12out_of_range" }, T{ "_ZSt24__throw_out_of_range_fmtPKcz", "St12out_of_range" },
	             T{ "_ZSt19__throw_logic_errorPKc", "St11logic_error" }, T{ "_ZSt24__throw_invalid_argumentPKc", "St16invalid_argument" }, T{ "_ZSt21__throw_runtime_errorPKc", "St13runtime_error" },
	             T{ "_ZSt17__throw_bad_allocv", "St9bad_alloc" }, T{ "_ZSt28__throw_bad_array_new_lengthv", "St20bad_array_new_length" }, T{ "__cxa_throw_bad_array_new_length", "St20bad_array_new_length" },
	             T{ "_ZSt25__throw_bad_function_callv", "St17bad_function_call" }, T{ "__cxa_bad_cast", "St8bad_cast" }, T{ "_ZSt20__throw_overflow_errorPKc", "St14overflow_error" }, T{ "_ZSt20__throw_domain_errorPKc", "St12domain_error" } } ) {
		std::string ty = t.ty;
		reg( t.fn, [ty]( Executor &x, State &s, CB, A a ) -> E { throwStd( x, s, ty.c_str( ), a.empty( ) or not a[0]->isConst( ) ? 0 : a[0]->u64( ) ); return TRANSFERRED; } );
	}
	// ---- std exception classes (layout: vptr, message pointer)
	struct Cl { char const *m; };
	for( std::string m : { "St11logic_error", "St13runtime_error", "St12out_of_range", "St12length_error", "St12domain_error", "St16invalid_argument", "St14overflow_error", "St15underflow_error", "St11range_error" } ) {
		auto ctor = [m]( bool str, bool copy ) -> Native {
			return [m, str, copy]( Executor &x, State &s, CB, A a ) -> E {
				auto *vt = x.M->getGlobalVariable( "_ZTV" + m, true );
				E msg;
				if( copy ) msg = x.load( s, X::add( a[1], X::c( 64, 8 ) ), 64, 8 );
				else {
					uint64_t n = 0;
					E src = a[1];
					if( str ) { src = x.concretize( s, x.load( s, a[1], 64, 8 ) ); n = x.concretize( s, x.load( s, X::add( a[1], X::c( 64, 8 ) ), 64, 8 ) )->u64( ); }
					else {
						src = x.concretize( s, src );
						for( ;; ++n ) {
							x.checkRange( s, src->u64( ) + n, 1, false, "exception message" );
							E b = x.load( s, X::c( 64, src->u64( ) + n ), 8, 1 );
							if( x.concretize( s, X::eq( b, X::c( 8, 0 ) ) )->isTrue( ) ) break;
						}
					}
					auto o = x.alloc( s, n + 1, 1, OK::Exc, "message" );
					uint64_t ob = o->base;
					o.reset( );
					if( n ) x.copyBytes( s, ob, src->u64( ), n );
					x.store( s, X::c( 64, ob + n ), X::c( 8, 0 ), 1 );
					msg = X::c( 64, ob );
				}
				x.store( s, a[0], X::c( 64, vt ? x.gaddr[vt] + 16 : 0 ), 8 );
				x.store( s, X::add( a[0], X::c( 64, 8 ) ), msg, 8 );
				return nullptr;
			};
		};
		for( char const *cd : { "C1", "C2" } ) {
			std::string b = "_ZN" + m + cd;
			reg( b + "EPKc", ctor( false, false ) );
			reg( b + "ERKS_", ctor( false, true ) );
			reg( b + "EOS_", ctor( false, true ) );
			reg( b + "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", ctor( true, false ) );
		}
		reg( "_ZNK" + m + "4whatEv", [=]( Executor &x, State &s, CB, A a ) -> E { return x.load( s, X::add( a[0], X::c( 64, 8 ) ), 64, 8 ); } );
	}
	for( std::string m : { "St9exception", "St9bad_alloc", "St8bad_cast", "St10bad_typeid", "St13bad_exception", "St20bad_array_new_length", "St17bad_function_call", "St18bad_variant_access", "St19bad_optional_access", "St12bad_weak_ptr" } ) {
		reg( "_ZNK" + m + "4whatEv", [m]( Executor &x, State &s, CB, A ) -> E {
			auto o = x.alloc( s, m.size( ) + 1, 1, OK::Exc, "what" );
			for( size_t i = 0; i <= m.size( ); ++i ) o->bytes[i] = X::c( 8, (unsigned char)m.c_str( )[i] );
			return X::c( 64, o->base );
		} );
	}
	// destructors of library exception classes: nothing to release
	for( std::string m : { "St9exception", "St11logic_error", "St13runtime_error", "St12out_of_range", "St12length_error", "St12domain_error", "St16invalid_argument", "St14overflow_error", "St15underflow_error", "St11range_error", "St9bad_alloc", "St8bad_cast", "St10bad_typeid", "St13bad_exception", "St20bad_array_new_length", "St17bad_function_call", "St18bad_variant_access", "St19bad_optional_access", "St12bad_weak_ptr" } ) {
		for( char const *d : { "D1", "D2" } ) reg( "_ZN" + m + d + "Ev", []( Executor &, State &, CB, A ) -> E { return nullptr; } );
		reg( "_ZN" + m + "D0Ev", [=]( Executor &x, State &s, CB, A a ) -> E { x.freeObj( s, a[0], AK::New, nullptr ); return nullptr; } );
	}
	// ---- environment: clock and scheduler.  The harness may supply sym_env_now / sym_env_yield.
	auto envCall = [=]( char const *hook, bool ret64 ) -> Native {
		std::string h = hook;
		return [h, ret64]( Executor &x, State &s, CB cb, A ) -> E {
			Function *F = x.M->getFunction( h );
			if( not F or F->isDeclaration( ) ) x.unsupported( s, "environment call without " + h );
			Frame &f = s.top( );
			int dest = -1;
			if( ret64 or not cb->getType( )->isVoidTy( ) ) dest = f.kf->insts[f.pc].dest;
			if( dest >= 0 and F->getReturnType( )->isVoidTy( ) ) { // the call succeeds
				f.regs[dest] = X::c( x.bitsOf( cb->getType( ) ), 0 );
				dest = -1;
			}
			++f.pc;
			x.pushFrame( s, F, { }, cb, dest, false );
			return TRANSFERRED;
		};
	};
	reg( "_ZNSt6chrono3_V212system_clock3nowEv", envCall( "sym_env_now", true ) );
	reg( "_ZNSt6chrono3_V212steady_clock3nowEv", envCall( "sym_env_now", true ) );
	reg( "sched_yield", envCall( "sym_env_yield", false ) );
	reg( "nanosleep", envCall( "sym_env_yield", false ) );
	reg( "syscall", envCall( "sym_env_syscall", true ) );
	// ---- files: nothing
	reg( "__errno_location", [=]( Executor &x, State &s, CB, A ) -> E {
		if( not s.errnoAddr ) {
			auto o = x.alloc( s, 4, 16, OK::Global, "errno" );
			o->bytes.assign( 4, X::c( 8, 0 ) );
			s.errnoAddr = o->base;
		}
		return X::c( 64, s.errnoAddr );
	} );
	(void)C;
#undef N
}

// Declarations that make the models above reachable: typeinfo and vtables of the library's exception classes.
void Executor::prepareModule( ) {
	auto &ctx = M->getContext( );
	Type *ptr = PointerType::get( ctx, 0 );
	static char const *const tys[] = { "St9exception", "St11logic_error", "St13runtime_error", "St12out_of_range", "St12length_error", "St12domain_error", "St16invalid_argument", "St14overflow_error", "St15underflow_error", "St11range_error", "St9bad_alloc", "St8bad_cast", "St10bad_typeid", "St13bad_exception", "St20bad_array_new_length", "St17bad_function_call", "St18bad_variant_access", "St19bad_optional_access", "St12bad_weak_ptr" };
	for( std::string t : tys ) {
		M->getOrInsertGlobal( "_ZTI" + t, ptr );
		auto *ti = M->getGlobalVariable( "_ZTI" + t, true );
		auto *vt = M->getGlobalVariable( "_ZTV" + t, true );
		if( vt and vt->hasInitializer( ) ) continue;
		auto *fty = FunctionType::get( ptr, { ptr }, false );
		auto fn = [&]( std::string n ) -> Constant * {
			if( auto *f = M->getFunction( n ) ) return f;
			return Function::Create( fty, GlobalValue::ExternalLinkage, n, *M );
		};
		auto *at = ArrayType::get( ptr, 5 );
		auto *init = ConstantArray::get( at, { ConstantPointerNull::get( cast<PointerType>( ptr ) ), ti, fn( "_ZN" + t + "D1Ev" ), fn( "_ZN" + t + "D0Ev" ), fn( "_ZNK" + t + "4whatEv" ) } );
		auto *nv = new GlobalVariable( *M, at, true, GlobalValue::ExternalLinkage, init, "_ZTV" + t + ( vt ? ".model" : "" ) );
		if( vt ) {
			vt->replaceAllUsesWith( nv );
			vt->eraseFromParent( );
			nv->setName( "_ZTV" + t );
		}
	}
}
