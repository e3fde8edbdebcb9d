#include "exec.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/Intrinsics.h"
#include <algorithm>
#include <cstdio>

using namespace llvm;

std::string demangle( std::string const &s ) { return llvm::demangle( s ); }

static uint64_t const GAP = 4096;

Executor::Executor( Module *m, Options o ) : M( m ), DL( &m->getDataLayout( ) ), opt( std::move( o ) ) {
	t0 = std::chrono::steady_clock::now( );
	registerNatives( );
	prepareModule( );
}
double Executor::elapsed( ) const { return std::chrono::duration<double>( std::chrono::steady_clock::now( ) - t0 ).count( ); }

static std::string locOf( Instruction const *I ) {
	if( DILocation const *L = I->getDebugLoc( ).get( ) ) {
		std::string f = L->getFilename( ).str( );
		return f + ":" + std::to_string( L->getLine( ) );
	}
	return "?";
}
std::vector<std::string> Executor::backtrace( State &s ) {
	std::vector<std::string> r;
	for( auto it = s.stack( ).rbegin( ); it != s.stack( ).rend( ) and r.size( ) < 24; ++it ) {
		int pc = std::max( 0, it->pc - ( it == s.stack( ).rbegin( ) ? 0 : 1 ) );
		if( pc >= (int)it->kf->insts.size( ) ) pc = it->kf->insts.size( ) - 1;
		Instruction *I = it->kf->insts[pc].I;
		std::string fn = demangle( it->kf->F->getName( ).str( ) );
		if( fn.size( ) > 160 ) fn = fn.substr( 0, 160 ) + "...";
		r.push_back( fn + " @ " + locOf( I ) );
		if( DILocation const *L = I->getDebugLoc( ).get( ) )
			for( auto *ia = L->getInlinedAt( ); ia and r.size( ) < 24; ia = ia->getInlinedAt( ) )
				r.push_back( "  inlined at " + ia->getFilename( ).str( ) + ":" + std::to_string( ia->getLine( ) ) );
	}
	return r;
}
std::string Executor::where( State &s ) {
	if( s.stack( ).empty( ) ) return "<end>";
	Frame &f = s.top( );
	int pc = std::min<int>( f.pc, f.kf->insts.size( ) - 1 );
	return locOf( f.kf->insts[pc].I );
}

void Executor::violation( State &s, Model const &m, std::string kind, std::string msg ) {
	std::string w = where( s );
	std::string key = kind + "|" + msg + "|" + w;
	if( not violationKeys.insert( key ).second ) return;
	Violation v;
	v.kind = kind; v.msg = msg; v.where = w;
	v.stack = backtrace( s );
	for( auto const &[n, e] : s.inputs ) v.inputs.push_back( { n, X::eval( e, m ) } );
	v.trace = s.trace;
	violations.push_back( v );
	if( violations.size( ) >= opt.maxViolations ) throw Stop{ "violation limit" };
}
void Executor::fatal( State &s, std::string kind, std::string msg ) {
	violation( s, s.model, kind, msg );
	throw PathEnd{ };
}
void Executor::unsupported( State &s, std::string what ) {
	std::string m = "unsupported: " + what + " at " + where( s );
	if( incomplete.insert( m ).second and opt.verbose )
		for( auto &l : backtrace( s ) ) fprintf( stderr, "   %s\n", l.c_str( ) );
	throw PathEnd{ };
}

// ---------------------------------------------------------------- solving
bool Executor::mayBeTrue( State &s, E c, Model *m ) {
	if( c->isConst( ) ) { if( c->isTrue( ) and m ) *m = s.model; return c->isTrue( ); }
	if( X::eval( c, s.model ).getBoolValue( ) ) { if( m ) *m = s.model; return true; }
	double left = opt.maxTime - elapsed( );
	if( left <= 0 ) throw Stop{ "time limit" };
	solver.timeout_ms = std::min<double>( 1000.0 * left + 100, 600000 );
	Sat r = solver.check( s.cons, c, s.model, m );
	if( r == Sat::Unknown ) {
		incomplete.insert( "solver unknown (" + solver.reason + ") at " + where( s ) );
		return false;
	}
	return r == Sat::Yes;
}
bool Executor::mustBeTrue( State &s, E c ) { return not mayBeTrue( s, X::not_( c ) ); }
void Executor::addCons( State &s, E c ) {
	if( c->isConst( ) ) return;
	if( c->k == K::And and c->w == 1 ) { addCons( s, c->op[0] ); addCons( s, c->op[1] ); return; }
	for( E x : s.cons ) if( x == c ) return;
	s.cons.push_back( c );
}
// syntactically among the path constraints
static bool implied( State const &s, E c ) {
	if( c->isConst( ) ) return c->isTrue( );
	if( c->k == K::And and c->w == 1 ) return implied( s, c->op[0] ) and implied( s, c->op[1] );
	for( E x : s.cons ) if( x == c ) return true;
	return false;
}
// the values an address built from choices between constants can take
static bool leafConstants( E e, uint64_t add, std::set<uint64_t> &out, unsigned &budget ) {
	if( budget == 0 ) return false;
	--budget;
	if( e->isConst( ) ) { out.insert( e->u64( ) + add ); return true; }
	if( e->k == K::Add and e->op[1]->isConst( ) ) return leafConstants( e->op[0], add + e->op[1]->u64( ), out, budget );
	if( e->k == K::Ite ) return leafConstants( e->op[1], add, out, budget ) and leafConstants( e->op[2], add, out, budget );
	// never written bytes, under a condition that excludes them
	E x = e;
	while( x->k == K::Concat or x->k == K::Extract or x->k == K::ZExt ) x = x->op[x->k == K::Concat ? 1 : 0];
	if( x->k == K::Var and X::vars[x->aux].uninit ) { out.insert( ~0ull ); return true; }
	return false;
}
static bool leafConstants( E e, std::set<uint64_t> &out ) {
	unsigned budget = 64;
	return leafConstants( e, 0, out, budget );
}
static bool inside( std::set<uint64_t> const &lv, uint64_t size, uint64_t bytes ) {
	for( uint64_t o : lv ) if( o > size or size - o < bytes ) return false;
	return true;
}
E Executor::concretize( State &s, E e ) {
	if( e->isConst( ) ) return e;
	APInt v = X::eval( e, s.model );
	E k = X::mk_const( v );
	E eqv = X::eq( e, k );
	Model m2;
	if( implied( s, eqv ) ) return k;
	if( mayBeTrue( s, X::not_( eqv ), &m2 ) ) {
		++forks;
		auto o = std::make_unique<State>( s );
		o->model = std::move( m2 );
		addCons( *o, X::not_( eqv ) );
		++o->depth;
		work.push_back( std::move( o ) );
	}
	addCons( s, eqv );
	return k;
}
void Executor::require( State &s, E c, std::string kind, std::string msg ) {
	if( c->isTrue( ) ) return;
	Model m;
	if( mayBeTrue( s, X::not_( c ), &m ) ) {
		violation( s, m, kind, msg );
		if( c->isFalse( ) ) throw PathEnd{ };
		// continue on the side where it holds
		if( not X::eval( c, s.model ).getBoolValue( ) ) {
			Model m2;
			if( not mayBeTrue( s, c, &m2 ) ) throw PathEnd{ };
			s.model = std::move( m2 );
		}
		addCons( s, c );
	}
}

// ---------------------------------------------------------------- memory
ObjP Executor::alloc( State &s, uint64_t size, uint64_t align, OK k, std::string name ) {
	auto o = std::make_shared<Obj>( );
	if( align < 16 ) align = 16;
	s.next = ( s.next + align - 1 ) / align * align;
	o->base = s.next;
	o->size = size;
	o->align = align;
	o->kind = k;
	o->name = std::move( name );
	if( size > ( 64u << 20 ) ) unsupported( s, "allocation of " + std::to_string( size ) + " bytes" );
	o->bytes.assign( size, nullptr );
	s.next += size + GAP + ( size < 4096 ? 0 : size );
	s.mem[o->base] = o;
	return o;
}
Obj *Executor::find( State &s, uint64_t addr, uint64_t *base ) {
	auto try_ = [&]( std::map<uint64_t, ObjP> &m ) -> Obj * {
		auto it = m.upper_bound( addr );
		if( it == m.begin( ) ) return nullptr;
		--it;
		Obj *o = it->second.get( );
		if( addr - o->base <= o->size ) { if( base ) *base = o->base; return o; }
		return nullptr;
	};
	if( Obj *o = try_( s.mem ) ) return o;
	return try_( constMem );
}
Obj &Executor::writable( State &s, uint64_t base ) {
	auto it = s.mem.find( base );
	if( it == s.mem.end( ) ) unsupported( s, "write to constant object" );
	if( it->second.use_count( ) > 1 ) it->second = std::make_shared<Obj>( *it->second );
	return *it->second;
}
static char const *objKind( OK k ) {
	switch( k ) { case OK::Global: case OK::Const: return "global"; case OK::Stack: return "stack"; case OK::Heap: return "heap"; case OK::Exc: return "exception"; default: return "external"; }
}
void Executor::checkRange( State &s, uint64_t addr, uint64_t n, bool write, char const *what ) {
	if( n == 0 ) return;
	Obj *o = find( s, addr );
	if( not o ) fatal( s, "memory", std::string( what ) + ( addr < 4096 ? ": null pointer access" : ": access outside every object" ) );
	if( o->freed ) fatal( s, "memory", std::string( what ) + ": use after " + ( o->kind == OK::Stack ? "return" : "free" ) + " of " + objKind( o->kind ) + " object" );
	if( o->dead ) fatal( s, "memory", std::string( what ) + ": use after scope of stack object" );
	if( addr - o->base + n > o->size )
		fatal( s, "memory", std::string( what ) + ": " + ( write ? "write" : "read" ) + " past the end of " + objKind( o->kind ) + " object of " + std::to_string( o->size ) + " bytes" );
	if( write and o->kind == OK::Const ) fatal( s, "memory", std::string( what ) + ": write to constant object" );
	if( o->kind == OK::Extern ) unsupported( s, "access to external global " + o->name );
}
uint64_t Executor::resolve( State &s, E addr, uint64_t size, bool write, E &off ) {
	char const *what = write ? "store" : "load";
	if( addr->isConst( ) ) {
		uint64_t a = addr->u64( ), base = 0;
		checkRange( s, a, size, write, what );
		find( s, a, &base );
		off = X::c( 64, a - base );
		return base;
	}
	{
		// a choice between pointers into different objects: one path per pointer
		std::set<uint64_t> lv;
		unsigned budget = 64;
		if( leafConstants( addr, 0, lv, budget ) ) {
			uint64_t b0 = 0;
			bool first = true, several = false;
			for( uint64_t x : lv ) {
				uint64_t b = 0;
				if( not find( s, x, &b ) ) b = 0;
				if( first ) b0 = b;
				else several |= b != b0;
				first = false;
			}
			if( several ) return resolve( s, concretize( s, addr ), size, write, off );
		}
	}
	uint64_t a = X::eval( addr, s.model ).getZExtValue( ), base = 0;
	Obj *o = find( s, a, &base );
	if( not o or o->freed or o->dead or a - base + size > o->size or ( write and o->kind == OK::Const ) or o->kind == OK::Extern ) {
		// this model already is a bad access: report it, and continue with the accesses that are fine
		if( not o or a - base + size > o->size ) {
			// is it a certain failure?
			checkRange( s, a, size, write, what ); // throws
		}
		checkRange( s, a, size, write, what );
	}
	off = X::sub( addr, X::c( 64, base ) );
	E in = X::ule( off, X::c( 64, o->size - size ) );
	Model m2;
	if( mayBeTrue( s, X::not_( in ), &m2 ) ) {
		++forks;
		auto n = std::make_unique<State>( s );
		n->model = std::move( m2 );
		addCons( *n, X::not_( in ) );
		++n->depth;
		work.push_back( std::move( n ) );
		addCons( s, in );
	}
	return base;
}
E Executor::freshUninit( uint32_t w, std::string const &hint ) {
	std::string key = "uninit:" + hint + ":" + std::to_string( w );
	auto it = varByName.find( key );
	if( it != varByName.end( ) ) return it->second;
	return varByName[key] = X::var( key, w, true );
}
E Executor::loadByteAt( State &s, uint64_t base, uint64_t off ) {
	auto it = s.mem.find( base );
	Obj *o = it != s.mem.end( ) ? it->second.get( ) : constMem.find( base )->second.get( );
	E b = o->bytes[off];
	if( b ) return b;
	b = freshUninit( 8, std::to_string( base ) + "+" + std::to_string( off ) );
	if( it != s.mem.end( ) ) writable( s, base ).bytes[off] = b;
	return b;
}
E Executor::load( State &s, E addr, uint32_t bits, uint64_t bytes ) {
	E off;
	uint64_t base = resolve( s, addr, bytes, false, off );
	E r = nullptr;
	if( off->isConst( ) ) {
		uint64_t o = off->u64( );
		for( uint64_t i = 0; i < bytes; ++i ) {
			E b = loadByteAt( s, base, o + i );
			r = r ? X::concat( b, r ) : b;
		}
	} else if( std::set<uint64_t> lv; leafConstants( off, lv ) and inside( lv, find( s, base )->size, bytes ) ) {
		std::function<E( E, uint64_t )> go = [&]( E e, uint64_t add ) -> E {
			if( e->k == K::Add ) return go( e->op[0], add + e->op[1]->u64( ) );
			if( e->k == K::Ite ) return X::ite( e->op[0], go( e->op[1], add ), go( e->op[2], add ) );
			uint64_t o = e->u64( ) + add;
			E v = nullptr;
			for( uint64_t i = 0; i < bytes; ++i ) { E b = loadByteAt( s, base, o + i ); v = v ? X::concat( b, v ) : b; }
			return v;
		};
		r = go( off, 0 );
	} else {
		uint64_t sz = find( s, base )->size;
		unsigned tz = X::known_trailing_zeros( off );
		uint64_t step = tz >= 12 ? 4096 : ( 1ull << tz );
		if( ( sz / step ) > 8192 ) unsupported( s, "symbolic read from a large object" );
		// collect candidates, then a balanced choice on the offset
		struct C { uint64_t o; E v; };
		std::vector<C> cs;
		for( uint64_t o = 0; o + bytes <= sz; o += step ) {
			E v = nullptr;
			for( uint64_t i = 0; i < bytes; ++i ) { E b = loadByteAt( s, base, o + i ); v = v ? X::concat( b, v ) : b; }
			cs.push_back( { o, v } );
		}
		std::function<E( size_t, size_t )> bal = [&]( size_t l, size_t h ) -> E {
			bool same = true;
			for( size_t i = l + 1; i < h and same; ++i ) same = cs[i].v == cs[l].v;
			if( same ) return cs[l].v;
			if( h - l == 2 ) return X::ite( X::eq( off, X::c( 64, cs[l].o ) ), cs[l].v, cs[l + 1].v );
			size_t mid = ( l + h ) / 2;
			return X::ite( X::ult( off, X::c( 64, cs[mid].o ) ), bal( l, mid ), bal( mid, h ) );
		};
		r = bal( 0, cs.size( ) );
	}
	return r->w == bits ? r : X::extract( r, 0, bits );
}
void Executor::store( State &s, E addr, E v, uint64_t bytes ) {
	E off;
	uint64_t base = resolve( s, addr, bytes, true, off );
	Obj &o = writable( s, base );
	if( v->w < bytes * 8 ) v = X::zext( v, bytes * 8 );
	if( off->isConst( ) ) {
		uint64_t p = off->u64( );
		for( uint64_t i = 0; i < bytes; ++i ) o.bytes[p + i] = X::extract( v, i * 8, 8 );
	} else if( std::set<uint64_t> lv; leafConstants( off, lv ) and inside( lv, o.size, bytes ) ) {
		for( uint64_t p : lv ) {
			E c = X::eq( off, X::c( 64, p ) );
			for( uint64_t i = 0; i < bytes; ++i ) {
				E old = o.bytes[p + i];
				if( not old ) old = freshUninit( 8, std::to_string( base ) + "+" + std::to_string( p + i ) );
				o.bytes[p + i] = X::ite( c, X::extract( v, i * 8, 8 ), old );
			}
		}
	} else {
		unsigned tz = X::known_trailing_zeros( off );
		uint64_t step = tz >= 12 ? 4096 : ( 1ull << tz );
		if( o.size / step > 4096 ) unsupported( s, "symbolic write to a large object" );
		for( uint64_t p = 0; p + bytes <= o.size; p += step ) {
			E c = X::eq( off, X::c( 64, p ) );
			for( uint64_t i = 0; i < bytes; ++i ) {
				E old = o.bytes[p + i];
				if( not old ) old = freshUninit( 8, std::to_string( base ) + "+" + std::to_string( p + i ) );
				o.bytes[p + i] = X::ite( c, X::extract( v, i * 8, 8 ), old );
			}
		}
	}
}
void Executor::copyBytes( State &s, uint64_t dst, uint64_t src, uint64_t n ) {
	if( n == 0 ) return;
	checkRange( s, src, n, false, "copy" );
	checkRange( s, dst, n, true, "copy" );
	uint64_t sb = 0, db = 0;
	Obj *so = find( s, src, &sb );
	std::vector<E> tmp( so->bytes.begin( ) + ( src - sb ), so->bytes.begin( ) + ( src - sb + n ) );
	find( s, dst, &db );
	Obj &d = writable( s, db );
	std::copy( tmp.begin( ), tmp.end( ), d.bytes.begin( ) + ( dst - db ) );
}
void Executor::freeObj( State &s, E p, AK ak, E sz ) {
	p = concretize( s, p );
	uint64_t a = p->u64( );
	if( a == 0 ) return;
	uint64_t base = 0;
	Obj *o = find( s, a, &base );
	if( not o or o->kind != OK::Heap or a != base ) fatal( s, "memory", "free of a pointer that is not the start of a heap block" );
	if( o->freed ) fatal( s, "memory", "double free" );
	if( o->ak != ak ) fatal( s, "memory", "mismatched allocation and deallocation functions" );
	if( sz ) {
		E k = concretize( s, sz );
		if( k->u64( ) != o->size ) fatal( s, "memory", "sized delete with size " + std::to_string( k->u64( ) ) + " of a block of " + std::to_string( o->size ) );
	}
	Obj &w = writable( s, base );
	w.freed = true;
	w.bytes.clear( );
	w.bytes.shrink_to_fit( );
	--s.heapLive;
}
std::string Executor::cstr( State &s, E p ) {
	std::string r;
	if( not p->isConst( ) ) return "<symbolic string>";
	uint64_t a = p->u64( );
	for( int i = 0; i < 400; ++i ) {
		uint64_t base = 0;
		Obj *o = find( s, a + i, &base );
		if( not o or o->freed or a + i - base >= o->size ) break;
		E b = o->bytes[a + i - base];
		if( not b or not b->isConst( ) ) { r += '?'; continue; }
		if( b->u64( ) == 0 ) break;
		r += char( b->u64( ) );
	}
	return r;
}

// ---------------------------------------------------------------- values
uint32_t Executor::bitsOf( Type *t ) {
	if( t->isPointerTy( ) ) return 64;
	if( t->isIntegerTy( ) ) return t->getIntegerBitWidth( );
	if( t->isFloatTy( ) ) return 32;
	if( t->isDoubleTy( ) ) return 64;
	if( t->isHalfTy( ) ) return 16;
	if( t->isX86_FP80Ty( ) ) return 80;
	if( t->isFP128Ty( ) ) return 128;
	if( auto *v = dyn_cast<FixedVectorType>( t ) ) return bitsOf( v->getElementType( ) ) * v->getNumElements( );
	if( auto *st = dyn_cast<StructType>( t ) ) {
		uint32_t n = 0;
		for( Type *e : st->elements( ) ) n += bitsOf( e );
		return n;
	}
	if( auto *at = dyn_cast<ArrayType>( t ) ) return bitsOf( at->getElementType( ) ) * at->getNumElements( );
	if( t->isVoidTy( ) ) return 0;
	std::string n;
	raw_string_ostream os( n );
	t->print( os );
	fprintf( stderr, "symx: unsupported type %s\n", os.str( ).c_str( ) );
	exit( 3 );
}
uint32_t Executor::aggOffset( Type *t, ArrayRef<unsigned> idx, Type *&out ) {
	uint32_t off = 0;
	for( unsigned i : idx ) {
		if( auto *st = dyn_cast<StructType>( t ) ) {
			for( unsigned j = 0; j < i; ++j ) off += bitsOf( st->getElementType( j ) );
			t = st->getElementType( i );
		} else {
			auto *at = cast<ArrayType>( t );
			off += bitsOf( at->getElementType( ) ) * i;
			t = at->getElementType( );
		}
	}
	out = t;
	return off;
}
E Executor::constant( Constant *c ) {
	Type *t = c->getType( );
	if( auto *ci = dyn_cast<ConstantInt>( c ) ) return X::mk_const( ci->getValue( ) );
	if( auto *cf = dyn_cast<ConstantFP>( c ) ) return X::mk_const( cf->getValueAPF( ).bitcastToAPInt( ) );
	if( isa<ConstantPointerNull>( c ) ) return X::c( 64, 0 );
	if( isa<UndefValue>( c ) ) { // undef / poison: an arbitrary but fixed value; zero keeps runs deterministic
		uint32_t w = bitsOf( t );
		return w ? X::c( w, 0 ) : X::c( 1, 0 );
	}
	if( isa<ConstantAggregateZero>( c ) ) { uint32_t w = bitsOf( t ); return X::c( w ? w : 1, 0 ); }
	if( auto *gv = dyn_cast<GlobalValue>( c ) ) {
		if( auto *al = dyn_cast<GlobalAlias>( gv ) ) return constant( al->getAliasee( ) );
		auto it = gaddr.find( gv );
		if( it == gaddr.end( ) ) { fprintf( stderr, "symx: no address for %s\n", gv->getName( ).str( ).c_str( ) ); exit( 3 ); }
		return X::c( 64, it->second );
	}
	if( auto *cd = dyn_cast<ConstantDataSequential>( c ) ) {
		E r = nullptr;
		for( unsigned i = 0; i < cd->getNumElements( ); ++i ) { E e = constant( cd->getElementAsConstant( i ) ); r = r ? X::concat( e, r ) : e; }
		return r;
	}
	if( isa<ConstantStruct>( c ) or isa<ConstantArray>( c ) or isa<ConstantVector>( c ) ) {
		E r = nullptr;
		for( unsigned i = 0; i < c->getNumOperands( ); ++i ) {
			if( bitsOf( c->getOperand( i )->getType( ) ) == 0 ) continue;
			E e = constant( cast<Constant>( c->getOperand( i ) ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r ? r : X::c( 1, 0 );
	}
	if( auto *ce = dyn_cast<ConstantExpr>( c ) ) {
		switch( ce->getOpcode( ) ) {
		case Instruction::GetElementPtr: {
			auto *g = cast<GEPOperator>( ce );
			APInt off( 64, 0 );
			if( not g->accumulateConstantOffset( *DL, off ) ) { fprintf( stderr, "symx: gep constant\n" ); exit( 3 ); }
			return X::add( constant( cast<Constant>( g->getPointerOperand( ) ) ), X::mk_const( off ) );
		}
		case Instruction::IntToPtr: return X::zext_or_trunc( constant( ce->getOperand( 0 ) ), 64 );
		case Instruction::PtrToInt: return X::zext_or_trunc( constant( ce->getOperand( 0 ) ), bitsOf( t ) );
		case Instruction::BitCast: case Instruction::AddrSpaceCast: return constant( ce->getOperand( 0 ) );
		case Instruction::Trunc: return X::extract( constant( ce->getOperand( 0 ) ), 0, bitsOf( t ) );
		case Instruction::Sub: return X::sub( constant( ce->getOperand( 0 ) ), constant( ce->getOperand( 1 ) ) );
		case Instruction::Add: return X::add( constant( ce->getOperand( 0 ) ), constant( ce->getOperand( 1 ) ) );
		case Instruction::Xor: return X::xor_( constant( ce->getOperand( 0 ) ), constant( ce->getOperand( 1 ) ) );
		case Instruction::ICmp: {
			E a = constant( ce->getOperand( 0 ) ), b = constant( ce->getOperand( 1 ) );
			switch( ce->getPredicate( ) ) {
			case CmpInst::ICMP_EQ: return X::eq( a, b );
			case CmpInst::ICMP_NE: return X::ne( a, b );
			case CmpInst::ICMP_ULT: return X::ult( a, b );
			case CmpInst::ICMP_UGT: return X::ult( b, a );
			case CmpInst::ICMP_ULE: return X::ule( a, b );
			case CmpInst::ICMP_UGE: return X::ule( b, a );
			default: break;
			}
			break;
		}
		default: break;
		}
	}
	std::string n;
	raw_string_ostream os( n );
	c->print( os );
	fprintf( stderr, "symx: unsupported constant %s\n", os.str( ).c_str( ) );
	exit( 3 );
}
E Executor::loadTyped( State &s, E addr, Type *t ) {
	if( auto *st = dyn_cast<StructType>( t ) ) {
		auto *sl = DL->getStructLayout( st );
		E r = nullptr;
		for( unsigned i = 0; i < st->getNumElements( ); ++i ) {
			if( bitsOf( st->getElementType( i ) ) == 0 ) continue;
			E e = loadTyped( s, X::add( addr, X::c( 64, sl->getElementOffset( i ) ) ), st->getElementType( i ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r ? r : X::c( 1, 0 );
	}
	if( auto *at = dyn_cast<ArrayType>( t ) ) {
		uint64_t es = DL->getTypeAllocSize( at->getElementType( ) );
		E r = nullptr;
		for( unsigned i = 0; i < at->getNumElements( ); ++i ) {
			E e = loadTyped( s, X::add( addr, X::c( 64, es * i ) ), at->getElementType( ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r ? r : X::c( 1, 0 );
	}
	return load( s, addr, bitsOf( t ), DL->getTypeStoreSize( t ) );
}
void Executor::storeTyped( State &s, E addr, E v, Type *t ) {
	if( auto *st = dyn_cast<StructType>( t ) ) {
		auto *sl = DL->getStructLayout( st );
		uint32_t o = 0;
		for( unsigned i = 0; i < st->getNumElements( ); ++i ) {
			uint32_t w = bitsOf( st->getElementType( i ) );
			if( w == 0 ) continue;
			storeTyped( s, X::add( addr, X::c( 64, sl->getElementOffset( i ) ) ), X::extract( v, o, w ), st->getElementType( i ) );
			o += w;
		}
		return;
	}
	if( auto *at = dyn_cast<ArrayType>( t ) ) {
		uint64_t es = DL->getTypeAllocSize( at->getElementType( ) );
		uint32_t w = bitsOf( at->getElementType( ) );
		for( unsigned i = 0; i < at->getNumElements( ); ++i )
			storeTyped( s, X::add( addr, X::c( 64, es * i ) ), X::extract( v, w * i, w ), at->getElementType( ) );
		return;
	}
	store( s, addr, v, DL->getTypeStoreSize( t ) );
}
E Executor::input( State &s, std::string const &name, uint32_t w ) {
	int n = s.nameCount[name]++;
	std::string key = name + "#" + std::to_string( n ) + ":" + std::to_string( w );
	auto it = varByName.find( key );
	E v;
	if( it != varByName.end( ) ) v = it->second;
	else v = varByName[key] = X::var( name + ( n ? "#" + std::to_string( n ) : "" ), w );
	s.inputs.push_back( { name + ( n ? "#" + std::to_string( n ) : "" ), v } );
	return v;
}

// ---------------------------------------------------------------- decoding
KFunc *Executor::getK( Function *F ) {
	auto &p = kf[F];
	if( p ) return p.get( );
	p = std::make_unique<KFunc>( );
	KFunc *k = p.get( );
	k->F = F;
	std::unordered_map<Value const *, int> slot;
	std::unordered_map<Constant const *, int> cslot;
	for( auto &a : F->args( ) ) { slot[&a] = k->nregs; k->args.push_back( k->nregs++ ); }
	for( auto &B : *F ) for( auto &I : B ) if( not I.getType( )->isVoidTy( ) ) slot[&I] = k->nregs++;
	auto operand = [&]( Value *v ) -> int {
		if( auto *c = dyn_cast<Constant>( v ) ) {
			auto it = cslot.find( c );
			if( it != cslot.end( ) ) return it->second;
			k->consts.push_back( constant( c ) );
			return cslot[c] = -int( k->consts.size( ) );
		}
		auto it = slot.find( v );
		if( it == slot.end( ) ) return -1000000; // metadata, inline asm, labels
		return it->second;
	};
	for( auto &B : *F ) {
		k->bb[&B] = k->insts.size( );
		for( auto &I : B ) {
			if( isa<DbgInfoIntrinsic>( I ) ) continue;
			KInst ki;
			ki.I = &I;
			auto it = slot.find( &I );
			ki.dest = it == slot.end( ) ? -1 : it->second;
			if( auto *cb = dyn_cast<CallBase>( &I ) ) {
				for( auto &a : cb->args( ) ) {
					if( isa<MetadataAsValue>( a.get( ) ) ) { ki.ops.push_back( -1000000 ); continue; }
					ki.ops.push_back( operand( a.get( ) ) );
				}
				ki.a = ki.ops.size( );
				if( not cb->getCalledFunction( ) and not cb->isInlineAsm( ) ) ki.ops.push_back( operand( cb->getCalledOperand( ) ) );
			} else if( auto *g = dyn_cast<GetElementPtrInst>( &I ) ) {
				ki.ops.push_back( operand( g->getPointerOperand( ) ) );
				uint64_t off = 0;
				for( auto gi = gep_type_begin( g ), ge = gep_type_end( g ); gi != ge; ++gi ) {
					Value *ix = gi.getOperand( );
					if( auto *st = gi.getStructTypeOrNull( ) ) {
						off += DL->getStructLayout( st )->getElementOffset( cast<ConstantInt>( ix )->getZExtValue( ) );
					} else {
						uint64_t es = DL->getTypeAllocSize( gi.getIndexedType( ) );
						if( auto *ci = dyn_cast<ConstantInt>( ix ) ) off += es * ci->getSExtValue( );
						else ki.gep.push_back( { operand( ix ), es } );
					}
				}
				ki.goff = X::c( 64, off );
			} else if( auto *ph = dyn_cast<PHINode>( &I ) ) {
				for( auto &v : ph->incoming_values( ) ) ki.ops.push_back( operand( v.get( ) ) );
			} else if( isa<LandingPadInst>( &I ) ) {
			} else if( auto *br = dyn_cast<BranchInst>( &I ) ) {
				if( br->isConditional( ) ) ki.ops.push_back( operand( br->getCondition( ) ) );
			} else if( auto *sw = dyn_cast<SwitchInst>( &I ) ) {
				ki.ops.push_back( operand( sw->getCondition( ) ) );
			} else {
				for( auto &o : I.operands( ) ) ki.ops.push_back( operand( o.get( ) ) );
			}
			k->insts.push_back( std::move( ki ) );
		}
	}
	return k;
}

// ---------------------------------------------------------------- globals
void Executor::writeInit( Obj &o, uint64_t off, Constant *c ) {
	Type *t = c->getType( );
	if( isa<UndefValue>( c ) ) { // leave zero: deterministic
		for( uint64_t i = 0, n = DL->getTypeStoreSize( t ); i < n; ++i ) o.bytes[off + i] = X::c( 8, 0 );
		return;
	}
	if( isa<ConstantAggregateZero>( c ) ) return; // already zero
	if( auto *cs = dyn_cast<ConstantStruct>( c ) ) {
		auto *sl = DL->getStructLayout( cs->getType( ) );
		for( unsigned i = 0; i < cs->getNumOperands( ); ++i ) writeInit( o, off + sl->getElementOffset( i ), cs->getOperand( i ) );
		return;
	}
	if( auto *ca = dyn_cast<ConstantArray>( c ) ) {
		uint64_t es = DL->getTypeAllocSize( ca->getType( )->getElementType( ) );
		for( unsigned i = 0; i < ca->getNumOperands( ); ++i ) writeInit( o, off + es * i, ca->getOperand( i ) );
		return;
	}
	if( auto *cd = dyn_cast<ConstantDataArray>( c ) ) {
		uint64_t es = DL->getTypeAllocSize( cd->getElementType( ) );
		for( unsigned i = 0; i < cd->getNumElements( ); ++i ) writeInit( o, off + es * i, cd->getElementAsConstant( i ) );
		return;
	}
	E v = constant( c );
	uint64_t n = DL->getTypeStoreSize( t );
	if( v->w < n * 8 ) v = X::zext( v, n * 8 );
	for( uint64_t i = 0; i < n; ++i ) o.bytes[off + i] = X::extract( v, i * 8, 8 );
}
void Executor::initGlobals( State &s ) {
	uint64_t fa = 0x1000000;
	for( auto &F : *M ) { gaddr[&F] = fa; faddr[fa] = &F; fa += 64; }
	uint64_t ga = 0x4000000;
	std::vector<std::pair<GlobalVariable *, ObjP>> todo;
	for( auto &G : M->globals( ) ) {
		auto o = std::make_shared<Obj>( );
		uint64_t al = std::max<uint64_t>( 16, G.getAlign( ).valueOrOne( ).value( ) );
		ga = ( ga + al - 1 ) / al * al;
		o->base = ga;
		o->align = al;
		o->name = G.getName( ).str( );
		if( G.hasInitializer( ) ) {
			o->size = DL->getTypeAllocSize( G.getValueType( ) );
			o->kind = G.isConstant( ) ? OK::Const : OK::Global;
			o->bytes.assign( o->size, X::c( 8, 0 ) );
		} else {
			o->size = G.getValueType( )->isSized( ) ? std::max<uint64_t>( 256, DL->getTypeAllocSize( G.getValueType( ) ) ) : 256;
			o->kind = OK::Extern;
			o->bytes.assign( o->size, nullptr );
		}
		ga += o->size + 256;
		gaddr[&G] = o->base;
		gvAt[o->base] = &G;
		todo.push_back( { &G, o } );
	}
	for( auto &[G, o] : todo ) {
		if( G->hasInitializer( ) ) writeInit( *o, 0, G->getInitializer( ) );
		if( o->kind == OK::Global ) s.mem[o->base] = o;
		else constMem[o->base] = o;
	}
	s.next = std::max<uint64_t>( 0x10000000, ( ga + 0xFFFFF ) & ~0xFFFFFull );
}

// ---------------------------------------------------------------- control
void Executor::pushFrame( State &s, Function *F, std::vector<E> args, CallBase const *cs, int retSlot, bool discard ) {
	KFunc *k = getK( F );
	if( not k->counted ) { k->counted = true; functions.insert( F->getName( ).str( ) ); noteFunctions( k ); }
	Frame f;
	f.kf = k;
	f.regs.assign( k->nregs, nullptr );
	for( size_t i = 0; i < k->args.size( ); ++i ) {
		E a = i < args.size( ) ? args[i] : nullptr;
		if( not a ) unsupported( s, "missing argument" );
		f.regs[k->args[i]] = a;
	}
	for( size_t i = k->args.size( ); i < args.size( ); ++i ) f.varargs.push_back( args[i] );
	// byval arguments are copied by the caller in the ABI
	for( size_t i = 0; i < k->args.size( ); ++i ) {
		if( F->getArg( i )->hasByValAttr( ) ) {
			Type *t = F->getArg( i )->getParamByValType( );
			uint64_t n = DL->getTypeAllocSize( t );
			auto o = alloc( s, n, 16, OK::Stack, "byval" );
			E src = concretize( s, args[i] );
			uint64_t nb = o->base;
			o.reset( );
			copyBytes( s, nb, src->u64( ), n );
			f.allocas.push_back( nb );
			f.regs[k->args[i]] = X::c( 64, nb );
		}
	}
	f.retSlot = retSlot;
	f.discardRet = discard;
	f.cs = cs;
	if( s.stack( ).size( ) > 2000 ) fatal( s, "recursion", "stack depth above 2000 frames" );
	s.stack( ).push_back( std::move( f ) );
}
void Executor::popFrame( State &s ) {
	Frame &f = s.top( );
	for( uint64_t b : f.allocas ) { // stack objects disappear; the address range is never reused
		auto it = s.mem.find( b );
		if( it != s.mem.end( ) ) {
			Obj &w = writable( s, b );
			w.freed = true;
			w.bytes.clear( );
			w.bytes.shrink_to_fit( );
		}
	}
	s.stack( ).pop_back( );
}
void Executor::ret( State &s, E v ) {
	Frame &f = s.top( );
	int slot = f.retSlot;
	bool discard = f.discardRet;
	CallBase const *cs = f.cs;
	popFrame( s );
	if( s.stack( ).empty( ) ) {
		s.threads[s.cur].done = true;
		if( s.cur == 0 ) {
			++completed;
			if( samples.size( ) < 40 or ( completed % 97 == 0 and samples.size( ) < 120 ) ) {
				std::vector<std::pair<std::string, APInt>> in;
				for( auto const &[n, e] : s.inputs ) in.push_back( { n, X::eval( e, s.model ) } );
				samples.push_back( std::move( in ) );
			}
			throw PathEnd{ };
		}
		decide( s, SK::Block );
		return;
	}
	Frame &c = s.top( );
	if( slot >= 0 and not discard ) c.regs[slot] = v;
	if( cs ) if( auto *inv = dyn_cast<InvokeInst>( cs ) ) if( not discard ) jump( s, inv->getNormalDest( ) );
}
void Executor::jump( State &s, BasicBlock const *to ) {
	Frame &f = s.top( );
	BasicBlock const *from = f.kf->insts[std::max( 0, f.pc - 1 )].I->getParent( );
	int pc = f.kf->bb.find( to )->second;
	std::vector<std::pair<int, E>> vals;
	while( auto *ph = dyn_cast<PHINode>( f.kf->insts[pc].I ) ) {
		KInst &k = f.kf->insts[pc];
		int ix = ph->getBasicBlockIndex( from );
		vals.push_back( { k.dest, val( f, k.ops[ix] ) } );
		++pc;
	}
	for( auto &[d, v] : vals ) f.regs[d] = v;
	f.pc = pc;
}

// Names of the library functions (also inlined ones) whose code this function carries, from the debug scopes.
void Executor::noteFunctions( KFunc *k ) {
	std::set<DIScope const *> seen;
	for( auto &ki : k->insts ) {
		for( DILocation const *L = ki.I->getDebugLoc( ).get( ); L; L = L->getInlinedAt( ) ) {
			DISubprogram *sp = L->getScope( )->getSubprogram( );
			if( not sp or not seen.insert( sp ).second ) continue;
			std::string f = sp->getFilename( ).str( );
			auto p = f.find( "/daw/" );
			if( p == std::string::npos ) continue;
			libFunctions.insert( f.substr( p + 1 ) + ":" + std::to_string( sp->getLine( ) ) + " " + sp->getName( ).str( ).substr( 0, 60 ) );
		}
		if( auto *cb = dyn_cast<CallBase>( ki.I ) )
			if( auto *cf = cb->getCalledFunction( ) )
				if( cf->getName( ) == "sym_reach" ) {
					std::set<Value *> vis;
					std::function<void( Value * )> go = [&]( Value *v ) { // labels may have been merged into a phi or select
						if( not vis.insert( v ).second ) return;
						if( auto *c = dyn_cast<Constant>( v ) ) { State tmp; allReach.insert( cstr( tmp, constant( c ) ) ); }
						else if( auto *ph = dyn_cast<PHINode>( v ) ) for( auto &x : ph->incoming_values( ) ) go( x.get( ) );
						else if( auto *se = dyn_cast<SelectInst>( v ) ) { go( se->getTrueValue( ) ); go( se->getFalseValue( ) ); }
					};
					go( cb->getArgOperand( 0 ) );
				}
	}
}

int Executor::run( ) {
	Function *F = M->getFunction( opt.entry );
	if( not F or F->isDeclaration( ) ) {
		fprintf( stderr, "symx: no entry function %s\n", opt.entry.c_str( ) );
		return 3;
	}
	auto init = std::make_unique<State>( );
	init->threads.emplace_back( );
	initGlobals( *init );
	// run constructors of globals, then the entry
	std::vector<Function *> ctors;
	if( auto *g = M->getGlobalVariable( "llvm.global_ctors" ) )
		if( auto *ca = dyn_cast<ConstantArray>( g->getInitializer( ) ) )
			for( auto &o : ca->operands( ) )
				if( auto *cs = dyn_cast<ConstantStruct>( o ) )
					if( auto *cf = dyn_cast<Function>( cs->getOperand( 1 )->stripPointerCasts( ) ) ) ctors.push_back( cf );
	std::string why;
	try {
		S = init.get( );
		pushFrame( *init, F, { }, nullptr, -1, true );
		// constructors are pushed on top so that they run first
		for( auto it = ctors.rbegin( ); it != ctors.rend( ); ++it ) pushFrame( *init, *it, { }, nullptr, -1, true );
		work.push_back( std::move( init ) );
		while( not work.empty( ) ) {
			auto st = std::move( work.back( ) );
			work.pop_back( );
			S = st.get( );
			++paths;
			try {
				exec( *st );
			} catch( PathEnd & ) {}
		}
	} catch( Stop &st ) {
		why = st.why;
	} catch( PathEnd & ) {}
	if( not why.empty( ) and why != "violation limit" ) incomplete.insert( "stopped: " + why );
	return 0;
}
void Executor::exec( State &s ) {
	unsigned tick = 0;
	for( ;; ) {
		if( ( ++tick & 255 ) == 0 and elapsed( ) > opt.maxTime ) throw Stop{ "time limit" };
		if( ++s.steps > opt.maxSteps ) fatal( s, "steps", "path exceeds " + std::to_string( opt.maxSteps ) + " instructions (non-termination?)" );
		++instrs;
		step( s );
	}
}

static bool isVec( Type *t ) { return t->isVectorTy( ); }

E Executor::fcmp( CmpInst::Predicate p, E a, E b ) {
	E un = X::or_( X::fp( K::FIsNan, 1, 0, a ), X::fp( K::FIsNan, 1, 0, b ) );
	auto oeq = [&] { return X::fp( K::FOeq, 1, 0, a, b ); };
	auto olt = [&]( E x, E y ) { return X::fp( K::FOlt, 1, 0, x, y ); };
	auto ole = [&]( E x, E y ) { return X::fp( K::FOle, 1, 0, x, y ); };
	switch( p ) {
	case CmpInst::FCMP_FALSE: return X::f( );
	case CmpInst::FCMP_TRUE: return X::t( );
	case CmpInst::FCMP_OEQ: return oeq( );
	case CmpInst::FCMP_UNE: return X::not_( oeq( ) );
	case CmpInst::FCMP_ONE: return X::and_( X::not_( un ), X::not_( oeq( ) ) );
	case CmpInst::FCMP_UEQ: return X::or_( un, oeq( ) );
	case CmpInst::FCMP_OLT: return olt( a, b );
	case CmpInst::FCMP_OGT: return olt( b, a );
	case CmpInst::FCMP_OLE: return ole( a, b );
	case CmpInst::FCMP_OGE: return ole( b, a );
	case CmpInst::FCMP_ULT: return X::not_( ole( b, a ) );
	case CmpInst::FCMP_UGT: return X::not_( ole( a, b ) );
	case CmpInst::FCMP_ULE: return X::not_( olt( b, a ) );
	case CmpInst::FCMP_UGE: return X::not_( olt( a, b ) );
	case CmpInst::FCMP_ORD: return X::not_( un );
	case CmpInst::FCMP_UNO: return un;
	default: return nullptr;
	}
}
static E icmp( CmpInst::Predicate p, E a, E b ) {
	switch( p ) {
	case CmpInst::ICMP_EQ: return X::eq( a, b );
	case CmpInst::ICMP_NE: return X::ne( a, b );
	case CmpInst::ICMP_ULT: return X::ult( a, b );
	case CmpInst::ICMP_UGT: return X::ult( b, a );
	case CmpInst::ICMP_ULE: return X::ule( a, b );
	case CmpInst::ICMP_UGE: return X::ule( b, a );
	case CmpInst::ICMP_SLT: return X::slt( a, b );
	case CmpInst::ICMP_SGT: return X::slt( b, a );
	case CmpInst::ICMP_SLE: return X::sle( a, b );
	case CmpInst::ICMP_SGE: return X::sle( b, a );
	default: return nullptr;
	}
}

void Executor::noValue( Frame & ) {
	unsupported( *S, "use of a value that was never computed" );
}
void Executor::step( State &s ) {
	Frame &f = s.top( );
	KInst &k = f.kf->insts[f.pc];
	Instruction *I = k.I;
	auto O = [&]( int i ) { return val( f, k.ops[i] ); };
	auto done = [&]( E v ) { f.regs[k.dest] = v; ++f.pc; };
	// element-wise application over vectors
	auto lanes = [&]( Type *ty, auto fn ) -> E {
		auto *vt = dyn_cast<FixedVectorType>( ty );
		if( not vt ) return fn( O( 0 ), O( 1 ) );
		uint32_t w = bitsOf( vt->getElementType( ) );
		E r = nullptr;
		for( unsigned i = 0; i < vt->getNumElements( ); ++i ) {
			E e = fn( X::extract( O( 0 ), i * w, w ), X::extract( O( 1 ), i * w, w ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r;
	};
	auto lanes1 = [&]( Type *ty, auto fn ) -> E {
		auto *vt = dyn_cast<FixedVectorType>( ty );
		if( not vt ) return fn( O( 0 ) );
		uint32_t w = bitsOf( vt->getElementType( ) );
		E r = nullptr;
		for( unsigned i = 0; i < vt->getNumElements( ); ++i ) {
			E e = fn( X::extract( O( 0 ), i * w, w ) );
			r = r ? X::concat( e, r ) : e;
		}
		return r;
	};
	switch( I->getOpcode( ) ) {
	case Instruction::Ret:
		ret( s, k.ops.empty( ) ? nullptr : O( 0 ) );
		return;
	case Instruction::Br: {
		auto *br = cast<BranchInst>( I );
		++f.pc;
		if( not br->isConditional( ) ) { jump( s, br->getSuccessor( 0 ) ); return; }
		E c = O( 0 );
		if( c->isConst( ) ) { jump( s, br->getSuccessor( c->isTrue( ) ? 0 : 1 ) ); return; }
		bool taken = X::eval( c, s.model ).getBoolValue( );
		E other = taken ? X::not_( c ) : c;
		Model m2;
		--f.pc;
		bool both = mayBeTrue( s, other, &m2 );
		++f.pc;
		if( both ) {
			++forks;
			auto n = std::make_unique<State>( s );
			n->model = std::move( m2 );
			++n->depth;
			addCons( *n, other );
			jump( *n, br->getSuccessor( taken ? 1 : 0 ) );
			work.push_back( std::move( n ) );
			addCons( s, taken ? c : X::not_( c ) );
		}
		jump( s, br->getSuccessor( taken ? 0 : 1 ) );
		return;
	}
	case Instruction::Switch: {
		auto *sw = cast<SwitchInst>( I );
		E c = O( 0 );
		if( c->isConst( ) ) {
			++f.pc;
			auto *ci = ConstantInt::get( I->getContext( ), c->v );
			jump( s, sw->findCaseValue( ci )->getCaseSuccessor( ) );
			return;
		}
		// one successor for this state (that of the current model), one forked state for each other feasible one
		std::map<BasicBlock const *, E> conds;
		E def = X::t( );
		for( auto &cs : sw->cases( ) ) {
			E e = X::eq( c, X::mk_const( cs.getCaseValue( )->getValue( ) ) );
			def = X::and_( def, X::not_( e ) );
			auto &x = conds[cs.getCaseSuccessor( )];
			x = x ? X::or_( x, e ) : e;
		}
		auto &dx = conds[sw->getDefaultDest( )];
		dx = dx ? X::or_( dx, def ) : def;
		BasicBlock const *mine = nullptr;
		std::vector<std::pair<BasicBlock const *, Model>> others;
		for( auto *bb : successors( sw->getParent( ) ) ) {
			auto it = conds.find( bb );
			if( it == conds.end( ) or not it->second ) continue;
			E e = it->second;
			if( not mine and X::eval( e, s.model ).getBoolValue( ) ) { mine = bb; continue; }
			if( bb == mine ) continue;
			bool dup = false;
			for( auto &o : others ) dup |= o.first == bb;
			if( dup ) continue;
			Model m;
			if( mayBeTrue( s, e, &m ) ) others.push_back( { bb, std::move( m ) } );
		}
		++f.pc;
		for( auto &[bb, m] : others ) {
			++forks;
			auto n = std::make_unique<State>( s );
			n->model = m;
			++n->depth;
			addCons( *n, conds[bb] );
			jump( *n, bb );
			work.push_back( std::move( n ) );
		}
		addCons( s, conds[mine] );
		jump( s, mine );
		return;
	}
	case Instruction::Unreachable:
		fatal( s, "ub", "unreachable instruction executed" );
	case Instruction::PHI: {
		unsupported( s, "phi at block start not via jump" );
	}
	case Instruction::Add: done( lanes( I->getType( ), X::add ) ); return;
	case Instruction::Sub: done( lanes( I->getType( ), X::sub ) ); return;
	case Instruction::Mul: done( lanes( I->getType( ), X::mul ) ); return;
	case Instruction::And: done( X::and_( O( 0 ), O( 1 ) ) ); return;
	case Instruction::Or: done( X::or_( O( 0 ), O( 1 ) ) ); return;
	case Instruction::Xor: done( X::xor_( O( 0 ), O( 1 ) ) ); return;
	case Instruction::Shl: done( lanes( I->getType( ), X::shl ) ); return;
	case Instruction::LShr: done( lanes( I->getType( ), X::lshr ) ); return;
	case Instruction::AShr: done( lanes( I->getType( ), X::ashr ) ); return;
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		K kk = I->getOpcode( ) == Instruction::UDiv ? K::UDiv : I->getOpcode( ) == Instruction::SDiv ? K::SDiv : I->getOpcode( ) == Instruction::URem ? K::URem : K::SRem;
		if( isVec( I->getType( ) ) ) unsupported( s, "vector division" );
		E b = O( 1 ), a = O( 0 );
		if( not b->isConst( ) or b->isZero( ) ) require( s, X::ne( b, X::c( b->w, 0 ) ), "ub", "division by zero" );
		if( ( kk == K::SDiv or kk == K::SRem ) and ( not b->isConst( ) or b->v.isAllOnes( ) ) )
			require( s, X::not_( X::and_( X::eq( b, X::mk_const( APInt::getAllOnes( b->w ) ) ), X::eq( a, X::mk_const( APInt::getSignedMinValue( a->w ) ) ) ) ), "ub", "signed division overflow" );
		done( X::bin( kk, a, b ) );
		return;
	}
	case Instruction::FAdd: done( lanes( I->getType( ), []( E a, E b ) { return X::fp( K::FAdd, a->w, 0, a, b ); } ) ); return;
	case Instruction::FSub: done( lanes( I->getType( ), []( E a, E b ) { return X::fp( K::FSub, a->w, 0, a, b ); } ) ); return;
	case Instruction::FMul: done( lanes( I->getType( ), []( E a, E b ) { return X::fp( K::FMul, a->w, 0, a, b ); } ) ); return;
	case Instruction::FDiv: done( lanes( I->getType( ), []( E a, E b ) { return X::fp( K::FDiv, a->w, 0, a, b ); } ) ); return;
	case Instruction::FRem:
		if( not( O( 0 )->isConst( ) and O( 1 )->isConst( ) ) ) unsupported( s, "symbolic frem" );
		done( X::fp( K::FRem, O( 0 )->w, 0, O( 0 ), O( 1 ) ) );
		return;
	case Instruction::FNeg: done( lanes1( I->getType( ), []( E a ) { return X::xor_( a, X::mk_const( APInt::getSignMask( a->w ) ) ); } ) ); return;
	case Instruction::FCmp: {
		auto p = cast<FCmpInst>( I )->getPredicate( );
		done( lanes( I->getOperand( 0 )->getType( ), [&]( E a, E b ) { return fcmp( p, a, b ); } ) );
		return;
	}
	case Instruction::ICmp: {
		auto p = cast<ICmpInst>( I )->getPredicate( );
		done( lanes( I->getOperand( 0 )->getType( ), [&]( E a, E b ) { return icmp( p, a, b ); } ) );
		return;
	}
	case Instruction::Select: {
		E c = O( 0 );
		if( c->w == 1 ) done( X::ite( c, O( 1 ), O( 2 ) ) );
		else {
			auto *vt = cast<FixedVectorType>( I->getType( ) );
			uint32_t w = bitsOf( vt->getElementType( ) );
			E r = nullptr;
			for( unsigned i = 0; i < vt->getNumElements( ); ++i ) {
				E e = X::ite( X::extract( c, i, 1 ), X::extract( O( 1 ), i * w, w ), X::extract( O( 2 ), i * w, w ) );
				r = r ? X::concat( e, r ) : e;
			}
			done( r );
		}
		return;
	}
	case Instruction::Trunc: { uint32_t w = bitsOf( I->getType( )->getScalarType( ) ); done( lanes1( I->getOperand( 0 )->getType( ), [&]( E a ) { return X::extract( a, 0, w ); } ) ); return; }
	case Instruction::ZExt: { uint32_t w = bitsOf( I->getType( )->getScalarType( ) ); done( lanes1( I->getOperand( 0 )->getType( ), [&]( E a ) { return X::zext( a, w ); } ) ); return; }
	case Instruction::SExt: { uint32_t w = bitsOf( I->getType( )->getScalarType( ) ); done( lanes1( I->getOperand( 0 )->getType( ), [&]( E a ) { return X::sext( a, w ); } ) ); return; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: done( X::zext_or_trunc( O( 0 ), bitsOf( I->getType( ) ) ) ); return;
	case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: done( O( 0 ) ); return;
	case Instruction::FPToSI: case Instruction::FPToUI: {
		uint32_t w = bitsOf( I->getType( ) );
		done( X::fp( I->getOpcode( ) == Instruction::FPToSI ? K::FToSI : K::FToUI, w, 0, O( 0 ) ) );
		return;
	}
	case Instruction::SIToFP: done( X::fp( K::SIToF, bitsOf( I->getType( ) ), 0, O( 0 ) ) ); return;
	case Instruction::UIToFP: done( X::fp( K::UIToF, bitsOf( I->getType( ) ), 0, O( 0 ) ) ); return;
	case Instruction::FPTrunc: case Instruction::FPExt: done( X::fp( K::FToF, bitsOf( I->getType( ) ), 0, O( 0 ) ) ); return;
	case Instruction::GetElementPtr: {
		E a = O( 0 );
		for( auto &[op, sc] : k.gep ) {
			E ix = val( f, op );
			if( ix->w > 64 ) ix = X::extract( ix, 0, 64 );
			ix = X::sext( ix, 64 );
			a = X::add( a, X::mul( ix, X::c( 64, sc ) ) );
		}
		done( X::add( a, k.goff ) );
		return;
	}
	case Instruction::Alloca: {
		auto *al = cast<AllocaInst>( I );
		uint64_t n = DL->getTypeAllocSize( al->getAllocatedType( ) );
		if( al->isArrayAllocation( ) ) {
			E c = concretize( s, O( 0 ) );
			n *= c->u64( );
		}
		auto o = alloc( s, n, al->getAlign( ).value( ), OK::Stack, al->getName( ).str( ) );
		f.allocas.push_back( o->base );
		done( X::c( 64, o->base ) );
		return;
	}
	case Instruction::Load: {
		if( s.threads.size( ) > 1 ) {
			auto *li = cast<LoadInst>( I );
			uint64_t n = DL->getTypeStoreSize( I->getType( ) );
			if( li->isAtomic( ) or visible( s, O( 0 ) ) ) {
				if( schedPoint( s ) ) return;
				if( li->isAtomic( ) ) hbAtomic( s, O( 0 ), n, true, false, li->getOrdering( ) );
				else hbPlain( s, O( 0 ), n, false );
			}
		}
		E v = loadTyped( s, O( 0 ), I->getType( ) );
		done( v );
		return;
	}
	case Instruction::Store: {
		if( s.threads.size( ) > 1 ) {
			auto *si = cast<StoreInst>( I );
			uint64_t n = DL->getTypeStoreSize( I->getOperand( 0 )->getType( ) );
			if( si->isAtomic( ) or visible( s, O( 1 ) ) ) {
				if( schedPoint( s ) ) return;
				if( si->isAtomic( ) ) hbAtomic( s, O( 1 ), n, false, true, si->getOrdering( ) );
				else hbPlain( s, O( 1 ), n, true );
			}
		}
		storeTyped( s, O( 1 ), O( 0 ), I->getOperand( 0 )->getType( ) );
		++f.pc;
		return;
	}
	case Instruction::Fence:
		if( s.threads.size( ) > 1 ) {
			if( schedPoint( s ) ) return;
			hbFence( s, cast<FenceInst>( I )->getOrdering( ) );
		}
		++f.pc;
		return;
	case Instruction::AtomicRMW: {
		auto *rm = cast<AtomicRMWInst>( I );
		if( s.threads.size( ) > 1 ) {
			if( schedPoint( s ) ) return;
			hbAtomic( s, O( 0 ), DL->getTypeStoreSize( rm->getType( ) ), true, true, rm->getOrdering( ) );
		}
		E p = O( 0 ), v = O( 1 );
		E old = loadTyped( s, p, rm->getType( ) );
		E nv = nullptr;
		switch( rm->getOperation( ) ) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = X::add( old, v ); break;
		case AtomicRMWInst::Sub: nv = X::sub( old, v ); break;
		case AtomicRMWInst::And: nv = X::and_( old, v ); break;
		case AtomicRMWInst::Or: nv = X::or_( old, v ); break;
		case AtomicRMWInst::Xor: nv = X::xor_( old, v ); break;
		case AtomicRMWInst::Nand: nv = X::not_( X::and_( old, v ) ); break;
		case AtomicRMWInst::Max: nv = X::ite( X::slt( old, v ), v, old ); break;
		case AtomicRMWInst::Min: nv = X::ite( X::slt( v, old ), v, old ); break;
		case AtomicRMWInst::UMax: nv = X::ite( X::ult( old, v ), v, old ); break;
		case AtomicRMWInst::UMin: nv = X::ite( X::ult( v, old ), v, old ); break;
		default: unsupported( s, "atomicrmw operation" );
		}
		storeTyped( s, p, nv, rm->getType( ) );
		done( old );
		return;
	}
	case Instruction::AtomicCmpXchg: {
		auto *cx = cast<AtomicCmpXchgInst>( I );
		if( s.threads.size( ) > 1 and schedPoint( s ) ) return;
		E p = O( 0 ), cmp = O( 1 ), nw = O( 2 );
		E old = loadTyped( s, p, cx->getNewValOperand( )->getType( ) );
		E ok = X::eq( old, cmp );
		if( s.threads.size( ) > 1 ) {
			bool const fails = ok->isConst( ) and not ok->isTrue( );
			hbAtomic( s, p, DL->getTypeStoreSize( cx->getNewValOperand( )->getType( ) ), true, not fails, fails ? cx->getFailureOrdering( ) : cx->getSuccessOrdering( ) );
		}
		storeTyped( s, p, X::ite( ok, nw, old ), cx->getNewValOperand( )->getType( ) );
		done( X::concat( ok, old ) );
		return;
	}
	case Instruction::ExtractValue: {
		auto *ev = cast<ExtractValueInst>( I );
		Type *t;
		uint32_t o = aggOffset( ev->getAggregateOperand( )->getType( ), ev->getIndices( ), t );
		done( X::extract( O( 0 ), o, bitsOf( t ) ) );
		return;
	}
	case Instruction::InsertValue: {
		auto *iv = cast<InsertValueInst>( I );
		Type *t;
		uint32_t o = aggOffset( iv->getAggregateOperand( )->getType( ), iv->getIndices( ), t );
		E a = O( 0 ), v = O( 1 );
		uint32_t tot = bitsOf( I->getType( ) ), w = bitsOf( t );
		E r = v;
		if( o > 0 ) r = X::concat( r, X::extract( a, 0, o ) );
		if( o + w < tot ) r = X::concat( X::extract( a, o + w, tot - o - w ), r );
		done( r );
		return;
	}
	case Instruction::ExtractElement: {
		uint32_t w = bitsOf( I->getType( ) );
		E ix = concretize( s, O( 1 ) );
		if( ( ix->u64( ) + 1 ) * w > O( 0 )->w ) fatal( s, "ub", "vector index out of range" );
		done( X::extract( O( 0 ), ix->u64( ) * w, w ) );
		return;
	}
	case Instruction::InsertElement: {
		E a = O( 0 ), v = O( 1 ), ix = concretize( s, O( 2 ) );
		uint32_t w = v->w, o = ix->u64( ) * w, tot = a->w;
		E r = v;
		if( o > 0 ) r = X::concat( r, X::extract( a, 0, o ) );
		if( o + w < tot ) r = X::concat( X::extract( a, o + w, tot - o - w ), r );
		done( r );
		return;
	}
	case Instruction::ShuffleVector: {
		auto *sv = cast<ShuffleVectorInst>( I );
		auto *vt = cast<FixedVectorType>( sv->getOperand( 0 )->getType( ) );
		uint32_t w = bitsOf( vt->getElementType( ) ), n = vt->getNumElements( );
		E r = nullptr;
		for( int ix : sv->getShuffleMask( ) ) {
			E e = ix < 0 ? X::c( w, 0 ) : (uint32_t)ix < n ? X::extract( O( 0 ), ix * w, w ) : X::extract( O( 1 ), ( ix - n ) * w, w );
			r = r ? X::concat( e, r ) : e;
		}
		done( r );
		return;
	}
	case Instruction::Call: case Instruction::Invoke:
		call( s, k, cast<CallBase>( I ) );
		return;
	case Instruction::LandingPad: ++f.pc; return; // value was set by unwind
	case Instruction::Resume: {
		E v = O( 0 );
		uint64_t ex = X::extract( v, 0, 64 )->u64( );
		unwind( s, ex, true );
		return;
	}
	default: break;
	}
	unsupported( s, std::string( "instruction " ) + I->getOpcodeName( ) );
}

void Executor::call( State &s, KInst &k, CallBase *cb ) {
	Frame &f = s.top( );
	if( cb->isInlineAsm( ) ) {
		// empty asm statements are compiler barriers (do_not_optimize helpers)
		auto *ia = cast<InlineAsm>( cb->getCalledOperand( ) );
		if( not ia->getAsmString( ).empty( ) ) unsupported( s, "inline asm '" + ia->getAsmString( ) + "'" );
		if( k.dest >= 0 ) { if( k.ops.empty( ) ) unsupported( s, "asm output" ); f.regs[k.dest] = val( f, k.ops[0] ); }
		++f.pc;
		return;
	}
	Function *F = cb->getCalledFunction( );
	if( not F ) {
		Value *cv = cb->getCalledOperand( )->stripPointerCasts( );
		if( auto *ga = dyn_cast<GlobalAlias>( cv ) ) cv = ga->getAliaseeObject( );
		F = dyn_cast<Function>( cv );
	}
	if( not F ) {
		E fp = concretize( s, val( f, k.ops[k.a] ) );
		auto it = faddr.find( fp->u64( ) );
		if( it == faddr.end( ) ) fatal( s, "memory", fp->isZero( ) ? "call through a null function pointer" : "call through an invalid function pointer" );
		F = it->second;
	}
	std::vector<E> args;
	for( uint64_t i = 0; i < k.a; ++i ) args.push_back( k.ops[i] == -1000000 ? nullptr : val( f, k.ops[i] ) );
	E r = nullptr;
	if( F->isIntrinsic( ) ) {
		r = intrinsic( s, k, cb, F->getIntrinsicID( ), args );
	} else {
		std::string name = F->getName( ).str( );
		auto it = natives.find( name );
		if( it == natives.end( ) and F->isDeclaration( ) ) unsupported( s, "external function " + demangle( name ) );
		if( it == natives.end( ) ) {
			++f.pc;
			pushFrame( s, F, std::move( args ), cb, k.dest, false );
			return;
		}
		externals.insert( name );
		++f.pc; // natives see the call as already executed (they may push frames or unwind)
		Frame *before = &f;
		size_t depth = s.stack( ).size( );
		int cur = s.cur;
		--f.pc;
		// natives that must re-execute (concretize) do so with pc at the call
		r = it->second( *this, s, cb, args );
		if( s.cur != cur or s.stack( ).size( ) != depth or &s.top( ) != before ) return; // control was transferred
		if( r == reinterpret_cast<E>( 1 ) ) return;
	}
	Frame &g = s.top( );
	if( k.dest >= 0 ) {
		if( not r ) unsupported( s, "native without result: " + F->getName( ).str( ) );
		if( r->w != bitsOf( cb->getType( ) ) ) r = X::zext_or_trunc( r, bitsOf( cb->getType( ) ) );
		g.regs[k.dest] = r;
	}
	++g.pc;
	if( auto *inv = dyn_cast<InvokeInst>( cb ) ) jump( s, inv->getNormalDest( ) );
}

// ---------------------------------------------------------------- exceptions (Itanium ABI)
static char const *const stdHier[][2] = {
  { "_ZTISt11logic_error", "_ZTISt9exception" },       { "_ZTISt13runtime_error", "_ZTISt9exception" },
  { "_ZTISt12out_of_range", "_ZTISt11logic_error" },   { "_ZTISt12length_error", "_ZTISt11logic_error" },
  { "_ZTISt12domain_error", "_ZTISt11logic_error" },   { "_ZTISt16invalid_argument", "_ZTISt11logic_error" },
  { "_ZTISt14overflow_error", "_ZTISt13runtime_error" }, { "_ZTISt15underflow_error", "_ZTISt13runtime_error" },
  { "_ZTISt11range_error", "_ZTISt13runtime_error" },  { "_ZTISt12system_error", "_ZTISt13runtime_error" },
  { "_ZTISt9bad_alloc", "_ZTISt9exception" },          { "_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc" },
  { "_ZTISt8bad_cast", "_ZTISt9exception" },           { "_ZTISt10bad_typeid", "_ZTISt9exception" },
  { "_ZTISt13bad_exception", "_ZTISt9exception" },     { "_ZTISt17bad_function_call", "_ZTISt9exception" },
  { "_ZTISt18bad_variant_access", "_ZTISt9exception" }, { "_ZTISt19bad_optional_access", "_ZTISt9exception" },
  { "_ZTISt12bad_any_cast", "_ZTISt8bad_cast" },       { "_ZTISt12bad_weak_ptr", "_ZTISt9exception" },
};
bool Executor::typeMatches( uint64_t thrown, uint64_t caught, int64_t &adj ) {
	if( thrown == caught ) return true;
	auto it = gvAt.find( thrown );
	if( it == gvAt.end( ) ) return false;
	GlobalVariable const *g = it->second;
	if( not g->hasInitializer( ) ) {
		for( auto &h : stdHier )
			if( g->getName( ) == h[0] ) {
				if( auto *b = M->getGlobalVariable( h[1], true ) ) return typeMatches( gaddr[b], caught, adj );
				// base typeinfo not referenced by the module: walk by name
				std::string nm = h[1];
				for( bool more = true; more; ) {
					more = false;
					for( auto &h2 : stdHier ) if( nm == h2[0] ) {
						nm = h2[1]; more = true;
						if( auto *b2 = M->getGlobalVariable( nm, true ) ) return typeMatches( gaddr[b2], caught, adj );
						break;
					}
				}
				return false;
			}
		return false;
	}
	auto *cs = dyn_cast<ConstantStruct>( g->getInitializer( ) );
	if( not cs ) return false;
	std::string vt;
	if( auto *ce = dyn_cast<ConstantExpr>( cs->getOperand( 0 ) ) ) vt = ce->getOperand( 0 )->stripPointerCasts( )->getName( ).str( );
	else vt = cs->getOperand( 0 )->stripPointerCasts( )->getName( ).str( );
	auto addrOf = [&]( Value *v ) { return constant( cast<Constant>( v ) )->u64( ); };
	if( vt.find( "__si_class_type_info" ) != std::string::npos ) return typeMatches( addrOf( cs->getOperand( 2 ) ), caught, adj );
	if( vt.find( "__vmi_class_type_info" ) != std::string::npos ) {
		unsigned n = cast<ConstantInt>( cs->getOperand( 3 ) )->getZExtValue( );
		for( unsigned i = 0; i < n; ++i ) {
			uint64_t b = addrOf( cs->getOperand( 4 + 2 * i ) );
			int64_t of = cast<ConstantInt>( cs->getOperand( 5 + 2 * i ) )->getSExtValue( );
			int64_t a2 = adj + ( of >> 8 );
			if( typeMatches( b, caught, a2 ) ) { adj = a2; return true; }
		}
		return false;
	}
	return false;
}
uint64_t Executor::typeId( uint64_t t ) {
	auto k = std::to_string( t );
	auto it = typeIds.find( k );
	if( it != typeIds.end( ) ) return it->second;
	uint64_t n = typeIds.size( ) + 1;
	return typeIds[k] = n;
}
std::string Executor::typeName( uint64_t t ) {
	auto it = gvAt.find( t );
	return it == gvAt.end( ) ? "?" : demangle( it->second->getName( ).str( ) );
}
void Executor::doTerminate( State &s, std::string why ) {
	if( s.expectTerm ) { ++terminated; throw PathEnd{ }; }
	fatal( s, "terminate", why );
}
void Executor::unwind( State &s, uint64_t ex, bool fromResume ) {
	auto xi = s.excs.find( ex );
	if( xi == s.excs.end( ) ) unsupported( s, "unknown exception object" );
	Exc &x = xi->second;
	if( fromResume ) popFrame( s );
	// is there a handler at all?  (phase 1: without one, std::terminate is called)
	std::string tn = typeName( x.tinfo );
	if( not fromResume ) {
		bool found = false;
		bool first = true;
		for( auto it = s.stack( ).rbegin( ); it != s.stack( ).rend( ) and not found; ++it ) {
			int pc = first ? it->pc : it->pc - 1;
			first = false;
			auto *inv = dyn_cast<InvokeInst>( it->kf->insts[std::max( 0, pc )].I );
			if( not inv ) { if( it->kf->F->doesNotThrow( ) ) break; continue; }
			auto *lp = inv->getLandingPadInst( );
			for( unsigned i = 0; i < lp->getNumClauses( ); ++i ) {
				if( lp->isCatch( i ) ) {
					uint64_t ct = constant( lp->getClause( i ) )->u64( );
					int64_t adj = 0;
					if( ct == 0 or typeMatches( x.tinfo, ct, adj ) ) { found = true; break; }
				} else { found = true; break; }
			}
		}
		if( not found ) doTerminate( s, "uncaught exception of type " + tn );
	}
	bool first = not fromResume;
	for( ;; ) {
		if( s.stack( ).empty( ) ) { s.threads[s.cur].stack.clear( ); fatal( s, "terminate", "uncaught exception of type " + tn ); }
		Frame &f = s.top( );
		int pc = first ? f.pc : f.pc - 1;
		first = false;
		auto *inv = dyn_cast<InvokeInst>( f.kf->insts[std::max( 0, pc )].I );
		if( inv ) {
			auto *lp = inv->getLandingPadInst( );
			uint64_t sel = 0;
			bool enter = lp->isCleanup( );
			for( unsigned i = 0; i < lp->getNumClauses( ); ++i ) {
				if( lp->isCatch( i ) ) {
					uint64_t ct = constant( lp->getClause( i ) )->u64( );
					int64_t adj = 0;
					if( ct == 0 ) { sel = 0x7fff; enter = true; break; }
					if( typeMatches( x.tinfo, ct, adj ) ) { sel = typeId( ct ); enter = true; break; }
				} else { sel = 0xffffffff; enter = true; break; }
			}
			if( enter ) {
				f.pc = pc + 1;
				jump( s, inv->getUnwindDest( ) );
				// after phis the landingpad is the current instruction
				Frame &g = s.top( );
				KInst &lk = g.kf->insts[g.pc];
				g.regs[lk.dest] = X::concat( X::c( 32, sel ), X::c( 64, ex ) );
				return;
			}
		}
		if( s.stack( ).size( ) == 1 ) fatal( s, "terminate", "uncaught exception of type " + tn );
		popFrame( s );
	}
}

// ---------------------------------------------------------------- threads
// Several threads share one memory, sequentially consistent; the choice of the next thread is a solver variable "sched", one path
// per choice.  Visible operations (atomic ones, and plain accesses to ranges given to sym_shared) are preemption points, bounded by
// opt.maxPreempt preemptive switches.  Vector clocks follow the memory orders, so that two conflicting accesses to a shared range
// that are not ordered by happens-before are reported.  replay/sched.cpp follows the same rules natively.
bool Executor::decide( State &s, SK k ) {
	std::vector<int> opts;
	bool othersDone = true;
	for( size_t t = 1; t < s.threads.size( ); ++t ) othersDone &= s.threads[t].done;
	for( int t = 0; t < int( s.threads.size( ) ); ++t ) {
		Thread &th = s.threads[t];
		if( t == s.cur ) {
			if( k == SK::Preempt or ( k == SK::Yield and s.yields < opt.maxYield ) ) opts.push_back( t );
			continue;
		}
		if( th.done or ( th.joining and not othersDone ) ) continue;
		if( k == SK::Preempt and s.preempts >= opt.maxPreempt ) continue;
		opts.push_back( t );
	}
	if( opts.empty( ) ) {
		if( k == SK::Yield ) return false;
		fatal( s, "deadlock", "no thread can run" );
	}
	auto apply = [&]( State &st, int t ) {
		if( t == st.cur ) {
			if( k == SK::Yield ) ++st.yields;
			return;
		}
		if( k == SK::Preempt ) ++st.preempts;
		st.cur = t;
		st.threads[t].go = true;
	};
	int const was = s.cur;
	if( opts.size( ) > 1 ) {
		usedParams["preempt"] = opt.maxPreempt;
		usedParams["yields"] = opt.maxYield;
		E v = input( s, "sched", 8 );
		addCons( s, X::ult( v, X::c( 8, opts.size( ) ) ) );
		for( size_t i = opts.size( ); i-- > 0; ) {
			E c = X::eq( v, X::c( 8, i ) );
			Model m;
			if( not mayBeTrue( s, c, &m ) ) continue;
			if( i == 0 ) {
				addCons( s, c );
				s.model = std::move( m );
				break;
			}
			++forks;
			auto n = std::make_unique<State>( s );
			n->model = std::move( m );
			++n->depth;
			addCons( *n, c );
			apply( *n, opts[i] );
			if( k == SK::Preempt and opts[i] == was ) n->threads[was].go = true; // the operation is executed again
			work.push_back( std::move( n ) );
		}
	}
	apply( s, opts[0] );
	return s.cur != was;
}
bool Executor::schedPoint( State &s ) {
	Thread &t = s.threads[s.cur];
	if( t.go ) {
		t.go = false;
		return false;
	}
	return decide( s, SK::Preempt );
}
bool Executor::visible( State &s, E addr ) {
	if( not addr->isConst( ) ) return false;
	uint64_t a = addr->u64( );
	for( auto &[b, n] : s.shared ) if( a - b < n ) return true;
	return false;
}
static void joinClock( Clock &a, Clock const &b ) {
	if( a.size( ) < b.size( ) ) a.resize( b.size( ), 0 );
	for( size_t i = 0; i < b.size( ); ++i ) a[i] = std::max( a[i], b[i] );
}
static uint32_t at( Clock const &c, size_t i ) { return i < c.size( ) ? c[i] : 0; }
static void put( Clock &c, size_t i, uint32_t v ) { if( c.size( ) <= i ) c.resize( i + 1, 0 ); c[i] = v; }
void Executor::hbAtomic( State &s, E addr, uint64_t n, bool rd, bool wr, AtomicOrdering o ) {
	if( not addr->isConst( ) ) return;
	uint64_t a = addr->u64( );
	Thread &t = s.threads[s.cur];
	bool const acq = isAcquireOrStronger( o ), rel = isReleaseOrStronger( o );
	if( visible( s, addr ) ) {
		for( uint64_t i = 0; i < n; ++i ) {
			Accesses &x = s.accs[a + i];
			for( size_t u = 0; u < s.threads.size( ); ++u ) {
				if( int( u ) == s.cur ) continue;
				if( at( x.w, u ) > at( t.vc, u ) or ( wr and at( x.r, u ) > at( t.vc, u ) ) ) fatal( s, "race", "atomic and plain access to the same object without synchronisation" );
			}
			if( wr ) put( x.aw, s.cur, at( t.vc, s.cur ) );
			if( rd ) put( x.ar, s.cur, at( t.vc, s.cur ) );
		}
	}
	Clock &L = s.locClock[a];
	if( rd ) joinClock( acq ? t.vc : t.acqPend, L );
	if( wr ) {
		if( not rd ) L.clear( );
		joinClock( L, rel ? t.vc : t.relF );
		if( rel ) put( t.vc, s.cur, at( t.vc, s.cur ) + 1 );
	}
}
void Executor::hbPlain( State &s, E addr, uint64_t n, bool wr ) {
	uint64_t a = addr->u64( );
	Thread &t = s.threads[s.cur];
	for( uint64_t i = 0; i < n; ++i ) {
		Accesses &x = s.accs[a + i];
		for( size_t u = 0; u < s.threads.size( ); ++u ) {
			if( int( u ) == s.cur ) continue;
			uint32_t v = at( t.vc, u );
			if( at( x.w, u ) > v or at( x.aw, u ) > v or ( wr and ( at( x.r, u ) > v or at( x.ar, u ) > v ) ) ) fatal( s, "race", "two threads access the same object, at least one writes, without synchronisation" );
		}
		put( wr ? x.w : x.r, s.cur, at( t.vc, s.cur ) );
	}
}
void Executor::hbFence( State &s, AtomicOrdering o ) {
	Thread &t = s.threads[s.cur];
	if( isAcquireOrStronger( o ) ) joinClock( t.vc, t.acqPend );
	if( isReleaseOrStronger( o ) ) {
		t.relF = t.vc;
		put( t.vc, s.cur, at( t.vc, s.cur ) + 1 );
	}
}

std::string Executor::resultJson( ) {
	auto esc = []( std::string const &x ) {
		std::string r = "\"";
		for( char c : x ) {
			if( c == '"' or c == '\\' ) { r += '\\'; r += c; }
			else if( (unsigned char)c < 0x20 or (unsigned char)c > 0x7e ) { char b[8]; snprintf( b, 8, "\\u%04x", (unsigned char)c ); r += b; }
			else r += c;
		}
		return r + "\"";
	};
	auto list = [&]( auto const &v ) {
		std::string r = "[";
		bool first = true;
		for( auto const &x : v ) { if( not first ) r += ","; first = false; r += esc( x ); }
		return r + "]";
	};
	std::string j = "{";
	auto num = [&]( char const *n, double v ) { char b[64]; snprintf( b, 64, "\"%s\":%.17g,", n, v ); j += b; };
	j += "\"entry\":" + esc( opt.entry ) + ",\"params\":{";
	bool fp = true;
	for( auto &[k, v] : usedParams ) { if( not fp ) j += ","; fp = false; j += esc( k ) + ":" + std::to_string( v ); }
	j += "},";
	num( "paths", paths ); num( "completed", completed ); num( "assumed_out", assumedOut ); num( "expected_terminations", terminated );
	num( "forks", forks ); num( "instructions", instrs ); num( "assertions", asserts ); num( "assertions_to_solver", asserts_solver );
	num( "queries", solver.st.queries ); num( "solver_calls", solver.st.solved ); num( "cache_hits", solver.st.cache_hits );
	num( "sat", solver.st.sat ); num( "unsat", solver.st.unsat ); num( "unknown", solver.st.unknown );
	num( "solver_s", solver.st.z3_s ); num( "max_query_s", solver.st.max_s ); num( "wall_s", elapsed( ) ); num( "pending", work.size( ) ); num( "exprs", X::count( ) );
	std::vector<std::string> fn;
	for( auto &f : functions ) fn.push_back( demangle( f ) );
	j += "\"functions\":" + list( fn ) + ",";
	std::vector<std::string> ex;
	for( auto &f : externals ) ex.push_back( demangle( f ) );
	j += "\"modelled_externals\":" + list( ex ) + ",";
	j += "\"reached\":" + list( reached ) + ",\"all_reach\":" + list( allReach ) + ",\"incomplete\":" + list( incomplete ) + ",";
	j += "\"library_functions\":" + list( libFunctions ) + ",";
	auto inputsJson = [&]( std::vector<std::pair<std::string, APInt>> const &in ) {
		std::string r = "[";
		bool f2 = true;
		for( auto &[n, a] : in ) {
			if( not f2 ) r += ",";
			f2 = false;
			SmallString<40> h;
			a.toString( h, 16, false );
			r += "{\"name\":" + esc( n ) + ",\"width\":" + std::to_string( a.getBitWidth( ) ) + ",\"value\":\"" + std::string( h.str( ) ) + "\"}";
		}
		return r + "]";
	};
	j += "\"samples\":[";
	for( size_t i = 0; i < samples.size( ); ++i ) j += ( i ? "," : "" ) + inputsJson( samples[i] );
	j += "],";
	j += "\"violations\":[";
	bool first = true;
	for( auto &v : violations ) {
		if( not first ) j += ",";
		first = false;
		j += "{\"kind\":" + esc( v.kind ) + ",\"msg\":" + esc( v.msg ) + ",\"where\":" + esc( v.where ) + ",\"stack\":" + list( v.stack ) + ",\"trace\":" + list( v.trace ) + ",\"inputs\":" + inputsJson( v.inputs ) + "}";
	}
	j += "]}";
	return j;
}
