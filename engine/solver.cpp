#include "solver.h"
#include <z3++.h>
#include <chrono>
#include <algorithm>
#include <unordered_map>
#include <cstdio>
#include <cstdlib>

using clk = std::chrono::steady_clock;

struct QKey {
	std::vector<uint32_t> ids;
	bool operator==( QKey const &o ) const { return ids == o.ids; }
};
struct QHash {
	size_t operator( )( QKey const &k ) const {
		uint64_t h = 1469598103934665603ULL;
		for( auto i : k.ids ) { h ^= i; h *= 1099511628211ULL; h ^= h >> 29; }
		return h;
	}
};
struct QRes {
	Sat r;
	std::vector<std::pair<uint32_t, APInt>> vals;
};

struct Solver::Impl {
	z3::context ctx;
	std::unordered_map<E, z3::expr> bvc, boolc;
	std::unordered_map<QKey, QRes, QHash> cache;
	z3::solver inc;
	unsigned inc_uses = 0;
	std::unordered_map<E, z3::expr> lits;
	Impl( ) : ctx( ), inc( ctx ) { reset( ); }
	void reset( ) {
		lits.clear( );
		inc = z3::solver( ctx, "QF_FD" );
		inc_uses = 0;
	}
	z3::expr num( APInt const &v ) {
		llvm::SmallString<64> s;
		v.toStringUnsigned( s, 10 );
		return ctx.bv_val( std::string( s.str( ) ).c_str( ), v.getBitWidth( ) );
	}
	z3::sort fsort( uint32_t w ) {
		switch( w ) {
		case 16: return ctx.fpa_sort<16>( );
		case 32: return ctx.fpa_sort<32>( );
		case 64: return ctx.fpa_sort<64>( );
		case 128: return ctx.fpa_sort<128>( );
		}
		fprintf( stderr, "unsupported float width %u in solver\n", w );
		abort( );
	}
	z3::expr tofp( E e ) { return z3::expr( ctx, Z3_mk_fpa_to_fp_bv( ctx, bv( e ), fsort( e->w ) ) ); }
	z3::expr wrap( Z3_ast a ) { ctx.check_error( ); return z3::expr( ctx, a ); }
	z3::expr frombv( z3::expr f ) { // canonical NaN so that equal bits follow from equal values
		z3::expr b = wrap( Z3_mk_fpa_to_ieee_bv( ctx, f ) );
		unsigned w = b.get_sort( ).bv_size( );
		APInt nan;
		switch( w ) {
		case 16: nan = llvm::APFloat::getQNaN( llvm::APFloat::IEEEhalf( ) ).bitcastToAPInt( ); break;
		case 32: nan = llvm::APFloat::getQNaN( llvm::APFloat::IEEEsingle( ) ).bitcastToAPInt( ); break;
		case 64: nan = llvm::APFloat::getQNaN( llvm::APFloat::IEEEdouble( ) ).bitcastToAPInt( ); break;
		default: nan = llvm::APFloat::getQNaN( llvm::APFloat::IEEEquad( ) ).bitcastToAPInt( ); break;
		}
		return z3::ite( wrap( Z3_mk_fpa_is_nan( ctx, f ) ), num( nan ), b );
	}
	z3::expr rne( ) { return wrap( Z3_mk_fpa_rne( ctx ) ); }

	z3::expr boolean( E e ) {
		auto it = boolc.find( e );
		if( it != boolc.end( ) ) return it->second;
		z3::expr r = mkbool( e );
		boolc.emplace( e, r );
		return r;
	}
	z3::expr mkbool( E e ) {
		E a = e->nops > 0 ? e->op[0] : nullptr, b = e->nops > 1 ? e->op[1] : nullptr;
		switch( e->k ) {
		case K::Const: return ctx.bool_val( e->isTrue( ) );
		case K::And: return boolean( a ) && boolean( b );
		case K::Or: return boolean( a ) || boolean( b );
		case K::Xor: if( b->isTrue( ) ) return !boolean( a ); return boolean( a ) != boolean( b );
		case K::Eq: return a->w == 1 ? boolean( a ) == boolean( b ) : bv( a ) == bv( b );
		case K::Ult: return z3::ult( bv( a ), bv( b ) );
		case K::Ule: return z3::ule( bv( a ), bv( b ) );
		case K::Slt: return z3::slt( bv( a ), bv( b ) );
		case K::Sle: return z3::sle( bv( a ), bv( b ) );
		case K::Ite: return z3::ite( boolean( a ), boolean( b ), boolean( e->op[2] ) );
		case K::FOeq: return wrap( Z3_mk_fpa_eq( ctx, tofp( a ), tofp( b ) ) );
		case K::FOlt: return wrap( Z3_mk_fpa_lt( ctx, tofp( a ), tofp( b ) ) );
		case K::FOle: return wrap( Z3_mk_fpa_leq( ctx, tofp( a ), tofp( b ) ) );
		case K::FIsNan: return wrap( Z3_mk_fpa_is_nan( ctx, tofp( a ) ) );
		default: return bv( e ) == ctx.bv_val( 1, 1 );
		}
	}
	z3::expr bv( E e ) {
		auto it = bvc.find( e );
		if( it != bvc.end( ) ) return it->second;
		if( e->depth > 200 ) { // translate bottom-up to bound recursion
			std::vector<std::pair<E, bool>> st{ { e, false } };
			while( not st.empty( ) ) {
				auto [x, d] = st.back( );
				st.pop_back( );
				if( bvc.count( x ) or boolc.count( x ) ) continue;
				if( not d ) { st.push_back( { x, true } ); for( int i = 0; i < x->nops; ++i ) st.push_back( { x->op[i], false } ); }
				else if( x != e ) { if( x->w == 1 and x->k != K::Var and x->k != K::Extract ) boolean( x ); else { bvc.emplace( x, mkbv( x ) ); } }
			}
		}
		z3::expr r = mkbv( e );
		bvc.emplace( e, r );
		return r;
	}
	z3::expr mkbv( E e ) {
		E a = e->nops > 0 ? e->op[0] : nullptr, b = e->nops > 1 ? e->op[1] : nullptr;
		if( e->w == 1 ) {
			switch( e->k ) {
			case K::And: case K::Or: case K::Xor: case K::Eq: case K::Ult: case K::Ule: case K::Slt: case K::Sle: case K::Ite:
			case K::FOeq: case K::FOlt: case K::FOle: case K::FIsNan:
				return z3::ite( boolean( e ), ctx.bv_val( 1, 1 ), ctx.bv_val( 0, 1 ) );
			default: break;
			}
		}
		switch( e->k ) {
		case K::Const: return num( e->v );
		case K::Var: return ctx.bv_const( ( "v" + std::to_string( e->aux ) ).c_str( ), e->w );
		case K::Add: return bv( a ) + bv( b );
		case K::Sub: return bv( a ) - bv( b );
		case K::Mul: return bv( a ) * bv( b );
		case K::UDiv: return z3::udiv( bv( a ), bv( b ) );
		case K::SDiv: return bv( a ) / bv( b );
		case K::URem: return z3::urem( bv( a ), bv( b ) );
		case K::SRem: return z3::srem( bv( a ), bv( b ) );
		case K::And: return bv( a ) & bv( b );
		case K::Or: return bv( a ) | bv( b );
		case K::Xor: if( b->isConst( ) and b->v.isAllOnes( ) ) return ~bv( a ); return bv( a ) ^ bv( b );
		case K::Shl: return z3::shl( bv( a ), bv( b ) );
		case K::LShr: return z3::lshr( bv( a ), bv( b ) );
		case K::AShr: return z3::ashr( bv( a ), bv( b ) );
		case K::Ite: return z3::ite( boolean( a ), bv( b ), bv( e->op[2] ) );
		case K::Concat: return z3::concat( bv( a ), bv( b ) );
		case K::Extract: return bv( a ).extract( e->aux + e->w - 1, e->aux );
		case K::ZExt: return z3::zext( bv( a ), e->w - a->w );
		case K::SExt: return z3::sext( bv( a ), e->w - a->w );
		case K::FAdd: return frombv( wrap( Z3_mk_fpa_add( ctx, rne( ), tofp( a ), tofp( b ) ) ) );
		case K::FSub: return frombv( wrap( Z3_mk_fpa_sub( ctx, rne( ), tofp( a ), tofp( b ) ) ) );
		case K::FMul: return frombv( wrap( Z3_mk_fpa_mul( ctx, rne( ), tofp( a ), tofp( b ) ) ) );
		case K::FDiv: return frombv( wrap( Z3_mk_fpa_div( ctx, rne( ), tofp( a ), tofp( b ) ) ) );
		case K::FSqrt: return frombv( wrap( Z3_mk_fpa_sqrt( ctx, rne( ), tofp( a ) ) ) );
		case K::FFma: return frombv( wrap( Z3_mk_fpa_fma( ctx, rne( ), tofp( a ), tofp( b ), tofp( e->op[2] ) ) ) );
		case K::FToSI: return wrap( Z3_mk_fpa_to_sbv( ctx, Z3_mk_fpa_rtz( ctx ), tofp( a ), e->w ) );
		case K::FToUI: return wrap( Z3_mk_fpa_to_ubv( ctx, Z3_mk_fpa_rtz( ctx ), tofp( a ), e->w ) );
		case K::SIToF: return frombv( wrap( Z3_mk_fpa_to_fp_signed( ctx, rne( ), bv( a ), fsort( e->w ) ) ) );
		case K::UIToF: return frombv( wrap( Z3_mk_fpa_to_fp_unsigned( ctx, rne( ), bv( a ), fsort( e->w ) ) ) );
		case K::FToF: return frombv( wrap( Z3_mk_fpa_to_fp_float( ctx, rne( ), tofp( a ), fsort( e->w ) ) ) );
		case K::FRint: {
			Z3_ast rm = e->aux == 0 ? Z3_mk_fpa_rne( ctx ) : e->aux == 1 ? Z3_mk_fpa_rna( ctx ) : e->aux == 2 ? Z3_mk_fpa_rtp( ctx ) : e->aux == 3 ? Z3_mk_fpa_rtn( ctx ) : Z3_mk_fpa_rtz( ctx );
			return frombv( wrap( Z3_mk_fpa_round_to_integral( ctx, rm, tofp( a ) ) ) );
		}
		default: break;
		}
		fprintf( stderr, "translate: unsupported kind %d\n", int( e->k ) );
		abort( );
	}
	z3::expr lit( E e ) {
		auto it = lits.find( e );
		if( it != lits.end( ) ) return it->second;
		z3::expr l = ctx.bool_const( ( "p" + std::to_string( e->id ) ).c_str( ) );
		inc.add( z3::implies( l, boolean( e ) ) );
		lits.emplace( e, l );
		return l;
	}
};

Solver::Solver( ) : p( new Impl ) {}
Solver::~Solver( ) { delete p; }

static APInt toAP( z3::expr const &v, uint32_t w ) {
	if( v.is_numeral( ) ) {
		std::string s = v.get_decimal_string( 0 );
		APInt r( std::max<uint32_t>( w, s.size( ) * 4 ), s, 10 );
		return r.trunc( w ).zext( w );
	}
	return APInt( w, 0 );
}

Sat Solver::check( std::vector<E> const &constraints, E cond, Model const &base, Model *model ) {
	++st.queries;
	if( cond->isFalse( ) ) return Sat::No;
	// slice
	std::vector<E> sl;
	std::vector<char> used( constraints.size( ), 0 );
	VarSet const *rel = cond->vars;
	bool fp = cond->fp;
	for( bool ch = true; ch; ) {
		ch = false;
		for( size_t i = 0; i < constraints.size( ); ++i ) {
			if( used[i] ) continue;
			auto const &cv = constraints[i]->vars->ids;
			auto const &rv = rel->ids;
			bool hit = false;
			for( size_t x = 0, y = 0; x < cv.size( ) and y < rv.size( ); ) {
				if( cv[x] == rv[y] ) { hit = true; break; }
				if( cv[x] < rv[y] ) ++x; else ++y;
			}
			if( hit ) {
				used[i] = 1;
				fp |= constraints[i]->fp;
				sl.push_back( constraints[i] );
				VarSet const *n = X::vs_union( rel, constraints[i]->vars );
				if( n != rel ) { rel = n; ch = true; }
			}
		}
	}
	QKey key;
	for( E e : sl ) key.ids.push_back( e->id );
	std::sort( key.ids.begin( ), key.ids.end( ) );
	key.ids.erase( std::unique( key.ids.begin( ), key.ids.end( ) ), key.ids.end( ) );
	key.ids.push_back( 0 );
	key.ids.push_back( cond->id );
	QRes const *qr = nullptr;
	auto it = p->cache.find( key );
	if( it != p->cache.end( ) ) {
		++st.cache_hits;
		qr = &it->second;
	} else {
		++st.solved;
		auto t0 = clk::now( );
		QRes r{ Sat::Unknown, { } };
		auto finish = [&]( z3::solver &s, z3::check_result res ) {
			if( res == z3::sat ) {
				r.r = Sat::Yes;
				z3::model m = s.get_model( );
				for( uint32_t v : rel->ids ) {
					z3::expr ve = p->ctx.bv_const( ( "v" + std::to_string( v ) ).c_str( ), X::vars[v].w );
					r.vals.push_back( { v, toAP( m.eval( ve, true ), X::vars[v].w ) } );
				}
			} else if( res == z3::unsat ) r.r = Sat::No;
			else reason = s.reason_unknown( );
		};
		try {
			if( fp ) {
				z3::solver s( p->ctx, "QF_FPBV" );
				z3::params pr( p->ctx ); pr.set( "timeout", timeout_ms ); s.set( pr );
				for( E e : sl ) s.add( p->boolean( e ) );
				s.add( p->boolean( cond ) );
				finish( s, s.check( ) );
			} else {
				// cheap incremental attempt first, then a fresh, fully preprocessed solver
				if( ++p->inc_uses > 3000 ) p->reset( );
				z3::expr_vector as( p->ctx );
				for( E e : sl ) as.push_back( p->lit( e ) );
				as.push_back( p->lit( cond ) );
				z3::params pr( p->ctx ); pr.set( "timeout", 1500u ); p->inc.set( pr );
				auto res = p->inc.check( as );
				if( res == z3::unknown ) {
					p->reset( );
					z3::solver s( p->ctx, "QF_BV" );
					z3::params pr2( p->ctx ); pr2.set( "timeout", timeout_ms ); s.set( pr2 );
					for( E e : sl ) s.add( p->boolean( e ) );
					s.add( p->boolean( cond ) );
					finish( s, s.check( ) );
				} else finish( p->inc, res );
			}
		} catch( z3::exception const &ex ) {
			reason = std::string( "z3 exception: " ) + ex.msg( );
			r.r = Sat::Unknown;
			r.vals.clear( );
			p->reset( );
		}
		double dt = std::chrono::duration<double>( clk::now( ) - t0 ).count( );
		st.z3_s += dt;
		st.max_s = std::max( st.max_s, dt );
		( r.r == Sat::Yes ? st.sat : r.r == Sat::No ? st.unsat : st.unknown )++;
		if( r.r == Sat::Unknown and getenv( "SYMX_DUMP" ) ) fprintf( stderr, "unknown: %s\n", X::str( cond, 16 ).c_str( ) );
		qr = &p->cache.emplace( std::move( key ), std::move( r ) ).first->second;
	}
	if( qr->r == Sat::Yes ) {
		Model m;
		m.vals = base.vals;
		for( auto const &[v, x] : qr->vals ) m.vals.insert_or_assign( v, x );
		// the answer is only believed if it evaluates to true under the executor's own semantics
		bool ok = X::eval( cond, m ).getBoolValue( );
		for( E e : sl ) ok = ok and X::eval( e, m ).getBoolValue( );
		if( not ok ) { reason = "z3 model rejected by evaluator"; ++st.unknown; return Sat::Unknown; }
		if( model ) *model = std::move( m );
	}
	return qr->r;
}
