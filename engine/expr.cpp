#include <functional>
#include "expr.h"
#include <cassert>
#include <cstdio>
#include <cstdlib>
#include <deque>
#include <map>
#include <random>
#include <unordered_set>
#include <algorithm>

using llvm::APFloat;
using llvm::APSInt;

namespace X {
	std::vector<VarInfo> vars;
	static std::deque<Expr> arena;
	static std::deque<VarSet> vsarena;
	static VarSet const *vs_empty( ) {
		static VarSet const *e = [] { vsarena.push_back( VarSet{ { }, 0 } ); return &vsarena.back( ); }( );
		return e;
	}
	static std::map<std::vector<uint32_t>, VarSet const *> vsintern;
	static std::unordered_map<uint64_t, VarSet const *> vsmemo;

	static VarSet const *vs_intern( std::vector<uint32_t> ids ) {
		if( ids.empty( ) ) return vs_empty( );
		auto it = vsintern.find( ids );
		if( it != vsintern.end( ) ) return it->second;
		vs_empty( );
		vsarena.push_back( VarSet{ ids, static_cast<uint32_t>( vsarena.size( ) ) } );
		return vsintern[ids] = &vsarena.back( );
	}
	VarSet const *vs_union( VarSet const *a, VarSet const *b ) {
		if( a == b or b->ids.empty( ) ) return a;
		if( a->ids.empty( ) ) return b;
		if( a->uid > b->uid ) std::swap( a, b );
		uint64_t key = ( uint64_t( a->uid ) << 32 ) | b->uid;
		auto it = vsmemo.find( key );
		if( it != vsmemo.end( ) ) return it->second;
		std::vector<uint32_t> r;
		std::set_union( a->ids.begin( ), a->ids.end( ), b->ids.begin( ), b->ids.end( ), std::back_inserter( r ) );
		return vsmemo[key] = vs_intern( std::move( r ) );
	}

	static inline uint64_t mix( uint64_t h, uint64_t x ) {
		h ^= x + 0x9e3779b97f4a7c15ULL + ( h << 6 ) + ( h >> 2 );
		h *= 0xff51afd7ed558ccdULL;
		return h ^ ( h >> 32 );
	}
	static uint64_t hashOf( K k, uint32_t w, uint32_t aux, E a, E b, E d, APInt const *v ) {
		uint64_t h = mix( uint64_t( k ) * 131 + w, aux );
		if( a ) h = mix( h, a->id );
		if( b ) h = mix( h, b->id );
		if( d ) h = mix( h, d->id );
		if( v ) for( unsigned i = 0; i < v->getNumWords( ); ++i ) h = mix( h, v->getRawData( )[i] );
		return h;
	}
	static std::unordered_multimap<uint64_t, Expr *> *table = nullptr;

	static E intern( K k, uint32_t w, uint32_t aux, E a, E b, E d, APInt const *v ) {
		if( not table ) { table = new std::unordered_multimap<uint64_t, Expr *>( ); table->reserve( 1 << 18 ); }
		uint64_t h = hashOf( k, w, aux, a, b, d, v );
		auto r = table->equal_range( h );
		for( auto it = r.first; it != r.second; ++it ) {
			Expr *e = it->second;
			if( e->k == k and e->w == w and e->aux == aux and e->op[0] == a and e->op[1] == b and e->op[2] == d and
			    ( not v or e->v == *v ) )
				return e;
		}
		arena.emplace_back( );
		Expr &e = arena.back( );
		e.k = k; e.w = w; e.aux = aux;
		e.op[0] = a; e.op[1] = b; e.op[2] = d;
		e.nops = a ? ( b ? ( d ? 3 : 2 ) : 1 ) : 0;
		e.id = static_cast<uint32_t>( arena.size( ) );
		if( v ) e.v = *v;
		e.fp = k >= K::FAdd;
		e.depth = 0;
		e.vars = vs_empty( );
		if( k == K::Var ) e.vars = vs_intern( { aux } );
		for( int i = 0; i < e.nops; ++i ) {
			e.fp |= e.op[i]->fp;
			e.depth = std::max( e.depth, e.op[i]->depth + 1 );
			e.vars = vs_union( e.vars, e.op[i]->vars );
		}
		table->emplace( h, &e );
		return &e;
	}
	uint64_t count( ) { return arena.size( ); }

	E mk_const( APInt const &v ) { return intern( K::Const, v.getBitWidth( ), 0, nullptr, nullptr, nullptr, &v ); }
	E c( uint32_t w, uint64_t v ) { return mk_const( APInt( w, v ) ); }
	E var( std::string const &name, uint32_t w, bool uninit ) {
		vars.push_back( { name, w, uninit } );
		return intern( K::Var, w, static_cast<uint32_t>( vars.size( ) - 1 ), nullptr, nullptr, nullptr, nullptr );
	}

	static llvm::fltSemantics const &sem( uint32_t w ) {
		switch( w ) {
		case 16: return APFloat::IEEEhalf( );
		case 32: return APFloat::IEEEsingle( );
		case 64: return APFloat::IEEEdouble( );
		case 80: return APFloat::x87DoubleExtended( );
		case 128: return APFloat::IEEEquad( );
		}
		fprintf( stderr, "bad float width %u\n", w );
		abort( );
	}
	static APInt canonNaN( APFloat const &f, uint32_t w ) {
		if( f.isNaN( ) ) return APFloat::getQNaN( sem( w ) ).bitcastToAPInt( );
		return f.bitcastToAPInt( );
	}

	APInt fold( K k, uint32_t w, uint32_t aux, APInt const *o, uint32_t const *ow ) {
		auto B = []( bool b ) { return APInt( 1, b ? 1 : 0 ); };
		auto F = [&]( int i ) { return APFloat( sem( ow[i] ), o[i] ); };
		switch( k ) {
		case K::Add: return o[0] + o[1];
		case K::Sub: return o[0] - o[1];
		case K::Mul: return o[0] * o[1];
		case K::UDiv: return o[1].isZero( ) ? APInt::getAllOnes( w ) : o[0].udiv( o[1] );
		case K::SDiv: if( o[1].isZero( ) ) return o[0].isNegative( ) ? APInt( w, 1 ) : APInt::getAllOnes( w );
			return o[0].sdiv( o[1] );
		case K::URem: return o[1].isZero( ) ? o[0] : o[0].urem( o[1] );
		case K::SRem: return o[1].isZero( ) ? o[0] : o[0].srem( o[1] );
		case K::And: return o[0] & o[1];
		case K::Or: return o[0] | o[1];
		case K::Xor: return o[0] ^ o[1];
		case K::Shl: return o[1].uge( w ) ? APInt( w, 0 ) : o[0].shl( o[1] );
		case K::LShr: return o[1].uge( w ) ? APInt( w, 0 ) : o[0].lshr( o[1] );
		case K::AShr: return o[1].uge( w ) ? ( o[0].isNegative( ) ? APInt::getAllOnes( w ) : APInt( w, 0 ) ) : o[0].ashr( o[1] );
		case K::Eq: return B( o[0] == o[1] );
		case K::Ult: return B( o[0].ult( o[1] ) );
		case K::Ule: return B( o[0].ule( o[1] ) );
		case K::Slt: return B( o[0].slt( o[1] ) );
		case K::Sle: return B( o[0].sle( o[1] ) );
		case K::Ite: return o[0].getBoolValue( ) ? o[1] : o[2];
		case K::Concat: return o[0].concat( o[1] );
		case K::Extract: return o[0].extractBits( w, aux );
		case K::ZExt: return o[0].zext( w );
		case K::SExt: return o[0].sext( w );
		case K::FAdd: { auto a = F( 0 ); a.add( F( 1 ), APFloat::rmNearestTiesToEven ); return canonNaN( a, w ); }
		case K::FSub: { auto a = F( 0 ); a.subtract( F( 1 ), APFloat::rmNearestTiesToEven ); return canonNaN( a, w ); }
		case K::FMul: { auto a = F( 0 ); a.multiply( F( 1 ), APFloat::rmNearestTiesToEven ); return canonNaN( a, w ); }
		case K::FDiv: { auto a = F( 0 ); a.divide( F( 1 ), APFloat::rmNearestTiesToEven ); return canonNaN( a, w ); }
		case K::FRem: { auto a = F( 0 ); a.mod( F( 1 ) ); return canonNaN( a, w ); }
		case K::FFma: { auto a = F( 0 ); a.fusedMultiplyAdd( F( 1 ), F( 2 ), APFloat::rmNearestTiesToEven ); return canonNaN( a, w ); }
		case K::FSqrt: {
			auto a = F( 0 );
			if( w == 64 ) { double d = __builtin_sqrt( a.convertToDouble( ) ); return canonNaN( APFloat( d ), w ); }
			float d = __builtin_sqrtf( a.convertToFloat( ) ); return canonNaN( APFloat( d ), w );
		}
		case K::FOeq: return B( F( 0 ).compare( F( 1 ) ) == APFloat::cmpEqual );
		case K::FOlt: return B( F( 0 ).compare( F( 1 ) ) == APFloat::cmpLessThan );
		case K::FOle: { auto r = F( 0 ).compare( F( 1 ) ); return B( r == APFloat::cmpLessThan or r == APFloat::cmpEqual ); }
		case K::FIsNan: return B( F( 0 ).isNaN( ) );
		case K::FToSI: { APSInt r( w, false ); bool ex; auto st = F( 0 ).convertToInteger( r, APFloat::rmTowardZero, &ex );
			if( st & APFloat::opInvalidOp ) return APInt( w, 0 ); return r; }
		case K::FToUI: { APSInt r( w, true ); bool ex; auto st = F( 0 ).convertToInteger( r, APFloat::rmTowardZero, &ex );
			if( st & APFloat::opInvalidOp ) return APInt( w, 0 ); return r; }
		case K::SIToF: { APFloat a( sem( w ) ); a.convertFromAPInt( o[0], true, APFloat::rmNearestTiesToEven ); return a.bitcastToAPInt( ); }
		case K::UIToF: { APFloat a( sem( w ) ); a.convertFromAPInt( o[0], false, APFloat::rmNearestTiesToEven ); return a.bitcastToAPInt( ); }
		case K::FToF: { auto a = F( 0 ); bool li; a.convert( sem( w ), APFloat::rmNearestTiesToEven, &li ); return canonNaN( a, w ); }
		case K::FRint: {
			auto a = F( 0 );
			static APFloat::roundingMode const rm[] = { APFloat::rmNearestTiesToEven, APFloat::rmNearestTiesToAway,
			                                            APFloat::rmTowardPositive, APFloat::rmTowardNegative, APFloat::rmTowardZero };
			a.roundToIntegral( rm[aux] );
			return canonNaN( a, w );
		}
		default: break;
		}
		fprintf( stderr, "fold: bad kind\n" );
		abort( );
	}

	E raw( K k, uint32_t w, uint32_t aux, E a, E b, E d ) {
		if( a and a->isConst( ) and ( not b or b->isConst( ) ) and ( not d or d->isConst( ) ) ) {
			APInt o[3] = { a->v, b ? b->v : APInt( ), d ? d->v : APInt( ) };
			uint32_t ow[3] = { a->w, b ? b->w : 0, d ? d->w : 0 };
			return mk_const( fold( k, w, aux, o, ow ) );
		}
		return intern( k, w, aux, a, b, d, nullptr );
	}
	static bool commutative( K k ) { return k == K::Add or k == K::Mul or k == K::And or k == K::Or or k == K::Xor or k == K::Eq; }

	// canonical: constant on the right; otherwise smaller id first
	static void canon( E &a, E &b ) {
		if( a->isConst( ) and not b->isConst( ) ) std::swap( a, b );
		else if( not a->isConst( ) and not b->isConst( ) and a->id > b->id ) std::swap( a, b );
	}
	// sums and exclusive ors of more than two terms: one order, whatever order they were written in
	static E chain( K k, E a, E b ) {
		if( b->isConst( ) or ( a->k != k and b->k != k ) ) return raw( k, a->w, 0, a, b );
		E t[34];
		unsigned n = 0;
		for( E s : { a, b } ) {
			while( s->k == k and n < 32 ) { t[n++] = s->op[1]; s = s->op[0]; }
			t[n++] = s;
			if( n > 32 ) return raw( k, a->w, 0, a, b );
		}
		std::sort( t, t + n, []( E x, E y ) { return x->id < y->id; } );
		if( k == K::Xor ) {
			unsigned m = 0;
			for( unsigned i = 0; i < n; ++i ) {
				if( m and t[m - 1] == t[i] ) --m;
				else t[m++] = t[i];
			}
			n = m;
			if( n == 0 ) return c( a->w, 0 );
		}
		E r = t[0];
		if( r->isConst( ) ) return raw( k, a->w, 0, a, b );
		for( unsigned i = 1; i < n; ++i ) {
			if( t[i]->isConst( ) ) return raw( k, a->w, 0, a, b );
			r = raw( k, a->w, 0, r, t[i] );
		}
		return r;
	}
	E add( E a, E b ) {
		assert( a->w == b->w );
		if( a->w == 1 ) return xor_( a, b );
		canon( a, b );
		if( b->isZero( ) ) return a;
		if( b->isConst( ) and a->k == K::Add and a->op[1]->isConst( ) ) return add( a->op[0], raw( K::Add, a->w, 0, a->op[1], b ) );
		if( b->isConst( ) and a->k == K::Ite and a->op[1]->isConst( ) and a->op[2]->isConst( ) )
			return ite( a->op[0], add( a->op[1], b ), add( a->op[2], b ) );
		// (x + c1) + y -> (x + y) + c1
		if( a->k == K::Add and a->op[1]->isConst( ) and not b->isConst( ) ) return add( add( a->op[0], b ), a->op[1] );
		if( b->k == K::Add and b->op[1]->isConst( ) and not a->isConst( ) ) return add( add( a, b->op[0] ), b->op[1] );
		if( b->k == K::Sub and b->op[1] == a ) return b->op[0];
		if( a->k == K::Sub and a->op[1] == b ) return a->op[0];
		return chain( K::Add, a, b );
	}
	E sub( E a, E b ) {
		assert( a->w == b->w );
		if( a->w == 1 ) return xor_( a, b );
		if( a == b ) return c( a->w, 0 );
		if( b->isConst( ) ) return add( a, mk_const( -b->v ) );
		// (x + c1) - x ; (x+c1) - (x+c2); x - (x + c)
		E ax = a, bx = b;
		APInt ac( a->w, 0 ), bc( a->w, 0 );
		if( a->k == K::Add and a->op[1]->isConst( ) ) { ax = a->op[0]; ac = a->op[1]->v; }
		if( b->k == K::Add and b->op[1]->isConst( ) ) { bx = b->op[0]; bc = b->op[1]->v; }
		if( ax == bx ) return mk_const( ac - bc );
		if( ax != a or bx != b ) {
			if( not( a->isConst( ) ) ) return add( sub( ax, bx ), mk_const( ac - bc ) );
		}
		if( a->k == K::Add and a->op[0] == b ) return a->op[1];
		if( a->k == K::Add and a->op[1] == b ) return a->op[0];
		return raw( K::Sub, a->w, 0, a, b );
	}
	E mul( E a, E b ) {
		assert( a->w == b->w );
		if( a->w == 1 ) return and_( a, b );
		canon( a, b );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return b;
			if( b->v.isOne( ) ) return a;
			if( b->v.isPowerOf2( ) ) return shl( a, c( a->w, b->v.logBase2( ) ) );
			if( unsigned z = b->v.countr_zero( ) ) return concat( mul( extract( a, 0, a->w - z ), mk_const( b->v.lshr( z ).trunc( a->w - z ) ) ), c( z, 0 ) );
			if( a->k == K::Mul and a->op[1]->isConst( ) ) return mul( a->op[0], raw( K::Mul, a->w, 0, a->op[1], b ) );
			if( a->k == K::Add and a->op[1]->isConst( ) ) return add( mul( a->op[0], b ), raw( K::Mul, a->w, 0, a->op[1], b ) );
			if( a->k == K::Ite and a->op[1]->isConst( ) and a->op[2]->isConst( ) )
				return ite( a->op[0], mul( a->op[1], b ), mul( a->op[2], b ) );
		}
		return raw( K::Mul, a->w, 0, a, b );
	}
	E and_( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return a;
		canon( a, b );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return b;
			if( b->v.isAllOnes( ) ) return a;
			if( a->k == K::And and a->op[1]->isConst( ) ) return and_( a->op[0], raw( K::And, a->w, 0, a->op[1], b ) );
			// mask of low bits -> zext(extract)
			if( b->v.isMask( ) ) { unsigned n = b->v.countr_one( ); return zext( extract( a, 0, n ), a->w ); }
			// zero extension: push inside
			if( a->k == K::ZExt ) {
				E in = a->op[0];
				return zext( and_( in, mk_const( b->v.trunc( in->w ) ) ), a->w );
			}
			if( a->k == K::Concat ) {
				E hi = a->op[0], lo = a->op[1];
				return concat( and_( hi, mk_const( b->v.extractBits( hi->w, lo->w ) ) ), and_( lo, mk_const( b->v.trunc( lo->w ) ) ) );
			}
			if( a->k == K::Ite and ( a->op[1]->isConst( ) and a->op[2]->isConst( ) ) )
				return ite( a->op[0], and_( a->op[1], b ), and_( a->op[2], b ) );
			// contiguous-run mask: handled as shifted extract
			if( b->v.isShiftedMask( ) ) {
				unsigned lo = b->v.countr_zero( ), n = b->v.popcount( );
				return zext( concat( extract( a, lo, n ), c( lo, 0 ) ), a->w );
			}
		}
		if( a->w == 1 ) {
			if( a == not_( b ) ) return f( );
			if( ( a->k == K::And and ( a->op[0] == b or a->op[1] == b ) ) ) return a;
			if( ( b->k == K::And and ( b->op[0] == a or b->op[1] == a ) ) ) return b;
		}
		// disjoint concat with zeros
		return raw( K::And, a->w, 0, a, b );
	}
	static bool isShlConst( E a ) { return a->k == K::Concat and a->op[1]->isZero( ); }
	E or_( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return a;
		canon( a, b );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return a;
			if( b->v.isAllOnes( ) ) return b;
			if( a->k == K::Or and a->op[1]->isConst( ) ) return or_( a->op[0], raw( K::Or, a->w, 0, a->op[1], b ) );
			if( a->k == K::Ite and ( a->op[1]->isConst( ) and a->op[2]->isConst( ) ) )
				return ite( a->op[0], or_( a->op[1], b ), or_( a->op[2], b ) );
			if( a->k == K::Concat ) {
				E hi = a->op[0], lo = a->op[1];
				return concat( or_( hi, mk_const( b->v.extractBits( hi->w, lo->w ) ) ), or_( lo, mk_const( b->v.trunc( lo->w ) ) ) );
			}
			if( a->k == K::ZExt ) {
				E in = a->op[0];
				return concat( mk_const( b->v.extractBits( a->w - in->w, in->w ) ), or_( in, mk_const( b->v.trunc( in->w ) ) ) );
			}
		} else if( a->w > 1 ) {
			// byte assembly: (x << k) | zext(y) with y no wider than k; split positions line up
			auto split = [&]( E p, E q ) -> E {
				// p = concat(ph, zero[n]); q has its bits >= n known zero
				if( not isShlConst( p ) ) return nullptr;
				uint32_t n = p->op[1]->w;
				if( q->k == K::ZExt and q->op[0]->w <= n ) return concat( p->op[0], zext( q->op[0], n ) );
				if( q->k == K::Concat and q->op[0]->isZero( ) and q->op[1]->w <= n ) return concat( p->op[0], zext( q->op[1], n ) );
				if( q->k == K::ZExt or q->k == K::Concat ) // general split at n
					return concat( or_( p->op[0], extract( q, n, q->w - n ) ), extract( q, 0, n ) );
				return nullptr;
			};
			if( E r = split( a, b ) ) return r;
			if( E r = split( b, a ) ) return r;
			auto zx = [&]( E p, E q ) -> E {
				// p = zext(pi) (or concat(0, pi)); q concat -> split at width of p's low part
				if( p->k == K::ZExt and ( q->k == K::ZExt or q->k == K::Concat ) ) {
					uint32_t n = p->op[0]->w;
					return concat( extract( q, n, q->w - n ), or_( p->op[0], extract( q, 0, n ) ) );
				}
				return nullptr;
			};
			if( E r = zx( a, b ) ) return r;
			if( E r = zx( b, a ) ) return r;
		}
		if( a->w == 1 ) {
			if( a == not_( b ) ) return t( );
		}
		return raw( K::Or, a->w, 0, a, b );
	}
	E xor_( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return c( a->w, 0 );
		canon( a, b );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return a;
			if( a->k == K::Xor and a->op[1]->isConst( ) ) return xor_( a->op[0], raw( K::Xor, a->w, 0, a->op[1], b ) );
			if( a->k == K::Ite and ( a->op[1]->isConst( ) and a->op[2]->isConst( ) ) )
				return ite( a->op[0], xor_( a->op[1], b ), xor_( a->op[2], b ) );
			if( a->w == 1 ) { // logical not
				if( a->k == K::Ult ) return raw( K::Ule, 1, 0, a->op[1], a->op[0] );
				if( a->k == K::Ule ) return raw( K::Ult, 1, 0, a->op[1], a->op[0] );
				if( a->k == K::Slt ) return raw( K::Sle, 1, 0, a->op[1], a->op[0] );
				if( a->k == K::Sle ) return raw( K::Slt, 1, 0, a->op[1], a->op[0] );
			}
		}
		if( a->k == K::Xor and ( a->op[0] == b ) ) return a->op[1];
		if( a->k == K::Xor and ( a->op[1] == b ) ) return a->op[0];
		return raw( K::Xor, a->w, 0, a, b );
	}
	E not_( E a ) { return xor_( a, mk_const( APInt::getAllOnes( a->w ) ) ); }
	E shl( E a, E b ) {
		assert( a->w == b->w );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return a;
			if( b->v.uge( a->w ) ) return c( a->w, 0 );
			uint32_t n = b->u64( );
			return concat( extract( a, 0, a->w - n ), c( n, 0 ) );
		}
		if( a->isZero( ) ) return a;
		if( a->w == 1 ) return and_( a, not_( b ) );
		return raw( K::Shl, a->w, 0, a, b );
	}
	E lshr( E a, E b ) {
		assert( a->w == b->w );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return a;
			if( b->v.uge( a->w ) ) return c( a->w, 0 );
			uint32_t n = b->u64( );
			return zext( extract( a, n, a->w - n ), a->w );
		}
		if( a->isZero( ) ) return a;
		if( a->w == 1 ) return and_( a, not_( b ) );
		return raw( K::LShr, a->w, 0, a, b );
	}
	E ashr( E a, E b ) {
		assert( a->w == b->w );
		if( b->isConst( ) ) {
			if( b->isZero( ) ) return a;
			uint32_t n = b->v.uge( a->w ) ? a->w - 1 : b->u64( );
			return sext( extract( a, n, a->w - n ), a->w );
		}
		if( a->isZero( ) ) return a;
		if( a->w == 1 ) return a;
		return raw( K::AShr, a->w, 0, a, b );
	}
	E eq( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return t( );
		canon( a, b );
		if( b->isConst( ) ) {
			if( a->w == 1 ) return b->isTrue( ) ? a : not_( a );
			switch( a->k ) {
			case K::ZExt: {
				E in = a->op[0];
				if( b->v.getActiveBits( ) > in->w ) return f( );
				return eq( in, mk_const( b->v.trunc( in->w ) ) );
			}
			case K::SExt: {
				E in = a->op[0];
				APInt tr = b->v.trunc( in->w );
				if( tr.sext( a->w ) != b->v ) return f( );
				return eq( in, mk_const( tr ) );
			}
			case K::Concat: {
				E hi = a->op[0], lo = a->op[1];
				return and_( eq( hi, mk_const( b->v.extractBits( hi->w, lo->w ) ) ), eq( lo, mk_const( b->v.trunc( lo->w ) ) ) );
			}
			case K::Add:
				if( a->op[1]->isConst( ) ) return eq( a->op[0], mk_const( b->v - a->op[1]->v ) );
				break;
			case K::Xor:
				if( a->op[1]->isConst( ) ) return eq( a->op[0], mk_const( b->v ^ a->op[1]->v ) );
				break;
			case K::Sub:
				if( a->op[0]->isConst( ) ) return eq( a->op[1], mk_const( a->op[0]->v - b->v ) );
				if( b->isZero( ) ) return eq( a->op[0], a->op[1] );
				break;
			case K::Ite:
				if( a->op[1]->isConst( ) and a->op[2]->isConst( ) ) {
					bool p = a->op[1]->v == b->v, q = a->op[2]->v == b->v;
					if( p and q ) return t( );
					if( p ) return a->op[0];
					if( q ) return not_( a->op[0] );
					return f( );
				}
				if( a->op[1]->isConst( ) ) {
					if( a->op[1]->v == b->v ) return or_( a->op[0], eq( a->op[2], b ) );
					return and_( not_( a->op[0] ), eq( a->op[2], b ) );
				}
				if( a->op[2]->isConst( ) ) {
					if( a->op[2]->v == b->v ) return or_( not_( a->op[0] ), eq( a->op[1], b ) );
					return and_( a->op[0], eq( a->op[1], b ) );
				}
				break;
			default: break;
			}
		} else {
			if( a->k == K::ZExt and b->k == K::ZExt and a->op[0]->w == b->op[0]->w ) return eq( a->op[0], b->op[0] );
			if( a->k == K::SExt and b->k == K::SExt and a->op[0]->w == b->op[0]->w ) return eq( a->op[0], b->op[0] );
			if( a->k == K::Concat and b->k == K::Concat and a->op[1]->w == b->op[1]->w )
				return and_( eq( a->op[0], b->op[0] ), eq( a->op[1], b->op[1] ) );
			if( a->k == K::Add and b->k == K::Add and a->op[1]->isConst( ) and b->op[1]->isConst( ) )
				return eq( a->op[0], add( b->op[0], mk_const( b->op[1]->v - a->op[1]->v ) ) );
			if( a->k == K::Add and a->op[0] == b ) return eq( a->op[1], c( a->w, 0 ) );
			if( a->k == K::Add and a->op[1] == b ) return eq( a->op[0], c( a->w, 0 ) );
			if( b->k == K::Add and b->op[0] == a ) return eq( b->op[1], c( a->w, 0 ) );
			if( b->k == K::Add and b->op[1] == a ) return eq( b->op[0], c( a->w, 0 ) );
			if( a->w == 1 ) return not_( xor_( a, b ) );
		}
		return raw( K::Eq, 1, 0, a, b );
	}
	// unsigned upper bound known cheaply
	static APInt umax( E e, int d = 4 ) {
		if( e->isConst( ) ) return e->v;
		if( d > 0 ) {
			switch( e->k ) {
			case K::ZExt: return umax( e->op[0], d - 1 ).zext( e->w );
			case K::Concat: { APInt h = umax( e->op[0], d - 1 ), l = umax( e->op[1], d - 1 ); if( not h.isZero( ) ) l = APInt::getAllOnes( l.getBitWidth( ) ); return h.concat( l ); }
			case K::Ite: { APInt a = umax( e->op[1], d - 1 ), b = umax( e->op[2], d - 1 ); return a.ugt( b ) ? a : b; }
			case K::And: { APInt a = umax( e->op[0], d - 1 ), b = umax( e->op[1], d - 1 ); return a.ult( b ) ? a : b; }
			case K::URem: if( e->op[1]->isConst( ) and not e->op[1]->isZero( ) ) return e->op[1]->v - 1; break;
			case K::UDiv: if( e->op[1]->isConst( ) and not e->op[1]->isZero( ) ) return umax( e->op[0], d - 1 ).udiv( e->op[1]->v ); break;
			case K::Extract: { APInt a = umax( e->op[0], d - 1 ); if( e->aux == 0 and a.getActiveBits( ) <= e->w ) return a.trunc( e->w ); break; }
			case K::Add: { APInt a = umax( e->op[0], d - 1 ), b = umax( e->op[1], d - 1 ); bool ov; APInt r = a.uadd_ov( b, ov ); if( not ov ) return r; break; }
			default: break;
			}
		}
		return APInt::getAllOnes( e->w );
	}
	E ult( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return f( );
		if( b->isZero( ) ) return f( );
		if( a->w == 1 ) return and_( not_( a ), b );
		if( a->isConst( ) and a->v.isAllOnes( ) ) return f( );
		if( b->isConst( ) and b->v.isOne( ) ) return eq( a, c( a->w, 0 ) );
		if( a->isZero( ) ) return ne( b, a );
		if( b->isConst( ) and umax( a ).ult( b->v ) ) return t( );
		if( a->isConst( ) and umax( b ).ule( a->v ) ) return f( );
		auto zi = []( E e ) -> E { return e->k == K::ZExt ? e->op[0] : nullptr; };
		if( E ai = zi( a ) ) {
			if( b->isConst( ) ) return b->v.getActiveBits( ) > ai->w ? t( ) : ult( ai, mk_const( b->v.trunc( ai->w ) ) );
			if( E bi = zi( b ) ) if( bi->w == ai->w ) return ult( ai, bi );
		}
		if( E bi = zi( b ) ) if( a->isConst( ) ) return a->v.getActiveBits( ) > bi->w ? f( ) : ult( mk_const( a->v.trunc( bi->w ) ), bi );
		if( a->k == K::Ite and b->isConst( ) and a->op[1]->isConst( ) and a->op[2]->isConst( ) ) return ite( a->op[0], ult( a->op[1], b ), ult( a->op[2], b ) );
		return raw( K::Ult, 1, 0, a, b );
	}
	E ule( E a, E b ) { return not_( ult( b, a ) ); }
	E slt( E a, E b ) {
		assert( a->w == b->w );
		if( a == b ) return f( );
		if( a->w == 1 ) return and_( a, not_( b ) );
		if( b->isConst( ) and b->v.isMinSignedValue( ) ) return f( );
		if( a->isConst( ) and a->v.isMaxSignedValue( ) ) return f( );
		// sign bits known zero: unsigned compare
		auto nn = []( E e ) { return e->isConst( ) ? not e->v.isNegative( ) : ( e->k == K::ZExt or ( e->k == K::Concat and e->op[0]->isConst( ) and not e->op[0]->v.isNegative( ) ) or not umax( e ).isNegative( ) ); };
		if( nn( a ) and nn( b ) ) return ult( a, b );
		if( a->k == K::SExt and b->k == K::SExt and a->op[0]->w == b->op[0]->w ) return slt( a->op[0], b->op[0] );
		if( a->k == K::SExt and b->isConst( ) ) {
			uint32_t iw = a->op[0]->w;
			if( b->v.trunc( iw ).sext( a->w ) == b->v ) return slt( a->op[0], mk_const( b->v.trunc( iw ) ) );
			return b->v.isNegative( ) ? f( ) : t( );
		}
		if( b->k == K::SExt and a->isConst( ) ) {
			uint32_t iw = b->op[0]->w;
			if( a->v.trunc( iw ).sext( b->w ) == a->v ) return slt( mk_const( a->v.trunc( iw ) ), b->op[0] );
			return a->v.isNegative( ) ? t( ) : f( );
		}
		if( nn( a ) and b->isZero( ) ) return f( );
		if( nn( b ) and a->isConst( ) and a->v.isNegative( ) ) return t( );
		if( nn( a ) and b->isConst( ) and b->v.isNegative( ) ) return f( );
		if( b->isZero( ) and a->w > 1 ) return extract( a, a->w - 1, 1 );
		return raw( K::Slt, 1, 0, a, b );
	}
	E sle( E a, E b ) { return not_( slt( b, a ) ); }
	E ite( E cnd, E a, E b ) {
		assert( cnd->w == 1 and a->w == b->w );
		if( cnd->isConst( ) ) return cnd->isTrue( ) ? a : b;
		if( a == b ) return a;
		if( cnd->k == K::Xor and cnd->op[1]->isTrue( ) ) return ite( cnd->op[0], b, a );
		if( a->w == 1 ) {
			if( a->isTrue( ) and b->isFalse( ) ) return cnd;
			if( a->isFalse( ) and b->isTrue( ) ) return not_( cnd );
			if( a->isTrue( ) ) return or_( cnd, b );
			if( a->isFalse( ) ) return and_( not_( cnd ), b );
			if( b->isFalse( ) ) return and_( cnd, a );
			if( b->isTrue( ) ) return or_( not_( cnd ), a );
		}
		if( a->k == K::Ite and a->op[0] == cnd ) a = a->op[1];
		if( b->k == K::Ite and b->op[0] == cnd ) b = b->op[2];
		if( a == b ) return a;
		if( b->k == K::Ite and b->op[1] == a ) return ite( or_( cnd, b->op[0] ), a, b->op[2] );
		return raw( K::Ite, a->w, 0, cnd, a, b );
	}
	// number of leaves of a choice between constants; 0 when it is something else
	static unsigned const_leaves( E e, unsigned limit = 48 ) {
		if( e->isConst( ) ) return 1;
		if( e->k != K::Ite or limit < 2 ) return 0;
		unsigned a = const_leaves( e->op[1], limit - 1 );
		if( a == 0 or a >= limit ) return 0;
		unsigned b = const_leaves( e->op[2], limit - a );
		return b == 0 ? 0 : a + b;
	}
	static E map_leaves( E e, std::function<E( E )> const &fn ) {
		if( e->isConst( ) ) return fn( e );
		return ite( e->op[0], map_leaves( e->op[1], fn ), map_leaves( e->op[2], fn ) );
	}
	E concat( E hi, E lo ) {
		if( hi->isConst( ) and lo->isConst( ) ) return mk_const( hi->v.concat( lo->v ) );
		// adjacent extracts
		if( hi->k == K::Extract and lo->k == K::Extract and hi->op[0] == lo->op[0] and hi->aux == lo->aux + lo->w )
			return extract( hi->op[0], lo->aux, hi->w + lo->w );
		{
			unsigned l = lo->k == K::Ite or lo->isConst( ) ? const_leaves( lo ) : 0;
			unsigned h = l ? const_leaves( hi ) : 0;
			if( h and l and h * l <= 48 )
				return map_leaves( hi, [lo]( E x ) { return map_leaves( lo, [x]( E y ) { return mk_const( x->v.concat( y->v ) ); } ); } );
		}
		if( hi->isZero( ) ) return zext( lo, hi->w + lo->w );
		if( hi->k == K::Ite and lo->k == K::Ite and hi->op[0] == lo->op[0] )
			return ite( hi->op[0], concat( hi->op[1], lo->op[1] ), concat( hi->op[2], lo->op[2] ) );
		// right-nested canonical form: concat(concat(x,y),z) -> concat(x, concat(y,z))
		if( hi->k == K::Concat ) return concat( hi->op[0], concat( hi->op[1], lo ) );
		if( lo->k == K::Concat ) {
			E m = lo->op[0];
			if( hi->isConst( ) and m->isConst( ) ) return concat( mk_const( hi->v.concat( m->v ) ), lo->op[1] );
			if( hi->k == K::Extract and m->k == K::Extract and hi->op[0] == m->op[0] and hi->aux == m->aux + m->w )
				return concat( extract( hi->op[0], m->aux, hi->w + m->w ), lo->op[1] );
		}
		if( hi->k == K::ZExt ) return zext( concat( hi->op[0], lo ), hi->w + lo->w );
		// sign extension pieces: concat(extract(sext x, ...)...) left alone
		return raw( K::Concat, hi->w + lo->w, 0, hi, lo );
	}
	E extract( E a, uint32_t lo, uint32_t w ) {
		assert( w > 0 and lo + w <= a->w );
		if( w == a->w ) return a;
		if( a->isConst( ) ) return mk_const( a->v.extractBits( w, lo ) );
		switch( a->k ) {
		case K::Extract: return extract( a->op[0], a->aux + lo, w );
		case K::Concat: {
			E h = a->op[0], l = a->op[1];
			if( lo >= l->w ) return extract( h, lo - l->w, w );
			if( lo + w <= l->w ) return extract( l, lo, w );
			return concat( extract( h, 0, lo + w - l->w ), extract( l, lo, l->w - lo ) );
		}
		case K::ZExt: {
			E i = a->op[0];
			if( lo >= i->w ) return c( w, 0 );
			if( lo + w <= i->w ) return extract( i, lo, w );
			return zext( extract( i, lo, i->w - lo ), w );
		}
		case K::SExt: {
			E i = a->op[0];
			if( lo + w <= i->w ) return extract( i, lo, w );
			if( lo < i->w ) return sext( extract( i, lo, i->w - lo ), w );
			return sext( extract( i, i->w - 1, 1 ), w );
		}
		case K::And: case K::Or: case K::Xor:
			return bin( a->k, extract( a->op[0], lo, w ), extract( a->op[1], lo, w ) );
		case K::Add: case K::Sub: case K::Mul:
			if( lo == 0 ) return bin( a->k, extract( a->op[0], 0, w ), extract( a->op[1], 0, w ) );
			break;
		case K::Ite:
			if( a->op[1]->isConst( ) or a->op[2]->isConst( ) or a->op[1]->k == K::Concat or a->op[2]->k == K::Concat or
			    a->op[1]->k == K::ZExt or a->op[2]->k == K::ZExt or a->op[1]->k == K::Ite or a->op[2]->k == K::Ite )
				return ite( a->op[0], extract( a->op[1], lo, w ), extract( a->op[2], lo, w ) );
			break;
		default: break;
		}
		return raw( K::Extract, w, lo, a );
	}
	E zext( E a, uint32_t w ) {
		assert( w >= a->w );
		if( w == a->w ) return a;
		if( a->isConst( ) ) return mk_const( a->v.zext( w ) );
		if( a->k == K::ZExt ) return zext( a->op[0], w );
		if( const_leaves( a ) ) return map_leaves( a, [w]( E x ) { return mk_const( x->v.zext( w ) ); } );
		return raw( K::ZExt, w, 0, a );
	}
	E sext( E a, uint32_t w ) {
		assert( w >= a->w );
		if( w == a->w ) return a;
		if( a->isConst( ) ) return mk_const( a->v.sext( w ) );
		if( a->k == K::SExt ) return sext( a->op[0], w );
		if( a->k == K::ZExt ) return zext( a->op[0], w );
		if( a->k == K::Ite and a->op[1]->isConst( ) and a->op[2]->isConst( ) ) return ite( a->op[0], sext( a->op[1], w ), sext( a->op[2], w ) );
		return raw( K::SExt, w, 0, a );
	}
	E zext_or_trunc( E a, uint32_t w ) {
		if( w >= a->w ) return zext( a, w );
		return extract( a, 0, w );
	}
	// width both operands of an unsigned division fit in (the divisor is known not to be 0 where a division is executed)
	static unsigned narrow( E a, E b ) {
		unsigned m = std::max( { umax( a ).getActiveBits( ), umax( b ).getActiveBits( ), 1u } );
		return m < a->w and not b->isConst( ) ? m : 0;
	}
	E bin( K k, E a, E b ) {
		switch( k ) {
		case K::Add: return add( a, b );
		case K::Sub: return sub( a, b );
		case K::Mul: return mul( a, b );
		case K::And: return and_( a, b );
		case K::Or: return or_( a, b );
		case K::Xor: return xor_( a, b );
		case K::Shl: return shl( a, b );
		case K::LShr: return lshr( a, b );
		case K::AShr: return ashr( a, b );
		case K::Eq: return eq( a, b );
		case K::Ult: return ult( a, b );
		case K::Ule: return ule( a, b );
		case K::Slt: return slt( a, b );
		case K::Sle: return sle( a, b );
		case K::UDiv:
			if( b->isConst( ) and b->v.isOne( ) ) return a;
			if( b->isConst( ) and b->v.isPowerOf2( ) ) return lshr( a, c( a->w, b->v.logBase2( ) ) );
			if( a->k == K::ZExt and b->isConst( ) and b->v.getActiveBits( ) <= a->op[0]->w and not b->isZero( ) )
				return zext( bin( K::UDiv, a->op[0], mk_const( b->v.trunc( a->op[0]->w ) ) ), a->w );
			if( unsigned m = narrow( a, b ); m )
				return ite( eq( b, c( b->w, 0 ) ), mk_const( APInt::getAllOnes( a->w ) ), zext( bin( k, extract( a, 0, m ), extract( b, 0, m ) ), a->w ) );
			return raw( k, a->w, 0, a, b );
		case K::URem:
			if( b->isConst( ) and b->v.isPowerOf2( ) ) return and_( a, mk_const( b->v - 1 ) );
			if( a->k == K::ZExt and b->isConst( ) and b->v.getActiveBits( ) <= a->op[0]->w and not b->isZero( ) )
				return zext( bin( K::URem, a->op[0], mk_const( b->v.trunc( a->op[0]->w ) ) ), a->w );
			if( unsigned m = narrow( a, b ); m ) return zext( bin( k, extract( a, 0, m ), extract( b, 0, m ) ), a->w );
			return raw( k, a->w, 0, a, b );
		case K::SDiv:
			if( b->isConst( ) and b->v.isOne( ) and a->w > 1 ) return a;
			return raw( k, a->w, 0, a, b );
		case K::SRem: return raw( k, a->w, 0, a, b );
		default: break;
		}
		fprintf( stderr, "bin: bad kind\n" );
		abort( );
	}
	// Comparisons and conversions to integers have short exact definitions on the IEEE bit patterns.
	static E lowered( K k, uint32_t w, E a, E b ) {
		uint32_t n = a->w, mb = n == 32 ? 23 : 52;
		auto mag = [&]( E x ) { return extract( x, 0, n - 1 ); };
		auto sgn = [&]( E x ) { return extract( x, n - 1, 1 ); };
		APInt infm = APInt::getBitsSet( n - 1, mb, n - 1 );
		auto nan = [&]( E x ) { return ult( mk_const( infm ), mag( x ) ); };
		auto ordered = [&]( ) { return and_( not_( nan( a ) ), not_( nan( b ) ) ); };
		auto zero = [&]( ) { return eq( or_( mag( a ), mag( b ) ), c( n - 1, 0 ) ); };
		auto lt = [&]( ) {
			return ite( sgn( a ), ite( sgn( b ), ult( mag( b ), mag( a ) ), not_( zero( ) ) ), ite( sgn( b ), f( ), ult( mag( a ), mag( b ) ) ) );
		};
		auto equal = [&]( ) { return or_( eq( a, b ), zero( ) ); };
		switch( k ) {
		case K::FIsNan: return nan( a );
		case K::FOeq: return and_( ordered( ), equal( ) );
		case K::FOlt: return and_( ordered( ), lt( ) );
		case K::FOle: return and_( ordered( ), or_( lt( ), equal( ) ) );
		default: break;
		}
		// truncation toward zero; out of range values are poison (the sanitizer's guard comes first)
		uint32_t eb = n - 1 - mb, bias = ( 1u << ( eb - 1 ) ) - 1, W = std::max( w, mb + 1 ) + 1;
		W = std::max( W, eb + 2 );
		E ex = zext( extract( a, mb, eb ), W ), m = zext( concat( c( 1, 1 ), extract( a, 0, mb ) ), W );
		E left = shl( m, sub( ex, c( W, bias + mb ) ) ), right = lshr( m, sub( c( W, bias + mb ), ex ) );
		E v = ite( ult( ex, c( W, bias ) ), c( W, 0 ), ite( ule( c( W, bias + mb ), ex ), left, right ) );
		v = extract( v, 0, w );
		return ite( sgn( a ), sub( c( w, 0 ), v ), v );
	}
	E fp( K k, uint32_t w, uint32_t aux, E a, E b, E d ) {
		bool low = k == K::FIsNan or k == K::FOeq or k == K::FOlt or k == K::FOle or k == K::FToSI or k == K::FToUI;
		if( low and ( a->w == 32 or a->w == 64 ) and not( a->isConst( ) and ( not b or b->isConst( ) ) ) ) return lowered( k, w, a, b );
		return raw( k, w, aux, a, b, d );
	}

	APInt eval( E e, Model const &m ) {
		if( e->isConst( ) ) return e->v;
		if( e->k == K::Var ) {
			auto it = m.vals.find( e->aux );
			return it == m.vals.end( ) ? APInt( e->w, 0 ) : it->second;
		}
		auto it = m.memo.find( e );
		if( it != m.memo.end( ) ) return it->second;
		// iterative post-order
		std::vector<std::pair<E, bool>> st{ { e, false } };
		while( not st.empty( ) ) {
			auto [x, done] = st.back( );
			st.pop_back( );
			if( x->isConst( ) or x->k == K::Var or m.memo.count( x ) ) continue;
			if( not done ) {
				st.push_back( { x, true } );
				for( int i = 0; i < x->nops; ++i ) st.push_back( { x->op[i], false } );
				continue;
			}
			APInt o[3];
			uint32_t ow[3] = { 0, 0, 0 };
			for( int i = 0; i < x->nops; ++i ) {
				E y = x->op[i];
				ow[i] = y->w;
				if( y->isConst( ) ) o[i] = y->v;
				else if( y->k == K::Var ) { auto q = m.vals.find( y->aux ); o[i] = q == m.vals.end( ) ? APInt( y->w, 0 ) : q->second; }
				else o[i] = m.memo.find( y )->second;
			}
			m.memo.emplace( x, fold( x->k, x->w, x->aux, o, ow ) );
		}
		return m.memo.find( e )->second;
	}

	unsigned known_trailing_zeros( E e ) {
		switch( e->k ) {
		case K::Const: return e->isZero( ) ? e->w : e->v.countr_zero( );
		case K::Concat: {
			unsigned l = known_trailing_zeros( e->op[1] );
			return l == e->op[1]->w ? l + known_trailing_zeros( e->op[0] ) : l;
		}
		case K::ZExt: case K::SExt: { unsigned n = known_trailing_zeros( e->op[0] ); return n == e->op[0]->w ? e->w : n; }
		case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min( known_trailing_zeros( e->op[0] ), known_trailing_zeros( e->op[1] ) );
		case K::And: return std::max( known_trailing_zeros( e->op[0] ), known_trailing_zeros( e->op[1] ) );
		case K::Mul: return std::min<unsigned>( e->w, known_trailing_zeros( e->op[0] ) + known_trailing_zeros( e->op[1] ) );
		case K::Ite: return std::min( known_trailing_zeros( e->op[1] ), known_trailing_zeros( e->op[2] ) );
		default: return 0;
		}
	}
	static char const *kn[] = { "const", "var", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "ule", "slt", "sle", "ite", "concat", "extract", "zext", "sext", "fadd", "fsub", "fmul", "fdiv", "frem", "fsqrt", "ffma", "foeq", "folt", "fole", "fisnan", "ftosi", "ftoui", "sitof", "uitof", "ftof", "frint" };
	std::string str( E e, int depth ) {
		if( e->isConst( ) ) { llvm::SmallString<32> s; e->v.toString( s, 16, false, true ); return std::string( s.str( ) ); }
		if( e->k == K::Var ) return vars[e->aux].name;
		if( depth == 0 ) return "...";
		std::string r = std::string( "(" ) + kn[int( e->k )] + ( e->k == K::Extract ? "@" + std::to_string( e->aux ) : "" ) + ":" + std::to_string( e->w );
		for( int i = 0; i < e->nops; ++i ) r += " " + str( e->op[i], depth - 1 );
		return r + ")";
	}

	// Differential self test of the simplifying constructors against direct folding.
	int selftest( unsigned seed, unsigned iters ) {
		std::mt19937_64 g( seed );
		uint32_t const ws[] = { 1, 3, 8, 16, 32, 64, 72, 128 };
		for( unsigned it = 0; it < iters; ++it ) {
			Model m;
			struct P { E e; APInt v; };
			std::vector<P> pool;
			auto rnd = [&]( uint32_t w ) {
				APInt a( w, 0 );
				for( uint32_t i = 0; i < w; i += 64 ) a |= APInt( w, g( ) ).shl( i );
				switch( g( ) % 5 ) { case 0: a = APInt( w, g( ) % 4 ); break; case 1: a = -APInt( w, g( ) % 4 ); break; case 2: a = APInt::getLowBitsSet( w, g( ) % ( w + 1 ) ); break; default: break; }
				return a;
			};
			for( uint32_t w : ws ) {
				for( int i = 0; i < 2; ++i ) { E v = var( "t", w ); APInt a = rnd( w ); m.vals.emplace( v->aux, a ); pool.push_back( { v, a } ); }
				APInt a = rnd( w ); pool.push_back( { mk_const( a ), a } );
			}
			for( int s = 0; s < 60; ++s ) {
				P p = pool[g( ) % pool.size( )];
				auto same = [&]( uint32_t w ) { for( ;; ) { P q = pool[g( ) % pool.size( )]; if( q.e->w == w ) return q; } };
				unsigned o = g( ) % 24;
				E r; K k; APInt ops[3]; uint32_t ow[3] = { p.e->w, 0, 0 }; uint32_t w = p.e->w, aux = 0;
				ops[0] = p.v;
				if( o < 18 ) {
					static K const ks[] = { K::Add, K::Sub, K::Mul, K::UDiv, K::SDiv, K::URem, K::SRem, K::And, K::Or, K::Xor, K::Shl, K::LShr, K::AShr, K::Eq, K::Ult, K::Ule, K::Slt, K::Sle };
					k = ks[o]; P q = same( p.e->w ); ops[1] = q.v; ow[1] = q.e->w; r = bin( k, p.e, q.e ); if( k >= K::Eq ) w = 1;
				} else if( o == 18 ) { k = K::Ite; P cc = same( 1 ), q = same( p.e->w ); ops[0] = cc.v; ops[1] = p.v; ops[2] = q.v; r = ite( cc.e, p.e, q.e ); }
				else if( o == 19 ) { k = K::Concat; P q = pool[g( ) % pool.size( )]; if( q.e->w + p.e->w > 256 ) continue; ops[1] = q.v; w += q.e->w; r = concat( p.e, q.e ); }
				else if( o <= 21 ) { k = K::Extract; aux = g( ) % p.e->w; w = 1 + g( ) % ( p.e->w - aux ); r = extract( p.e, aux, w ); }
				else if( o == 22 ) { k = K::ZExt; w = p.e->w + g( ) % 70; r = zext( p.e, w ); }
				else { k = K::SExt; w = p.e->w + g( ) % 70; r = sext( p.e, w ); }
				APInt want = fold( k, w, aux, ops, ow );
				APInt got = eval( r, m );
				if( r->w != w or got != want ) { fprintf( stderr, "selftest mismatch kind %s\n%s\n", kn[int( k )], str( r, 4 ).c_str( ) ); return 1; }
				unsigned tz = known_trailing_zeros( r );
				if( not got.isZero( ) and got.countr_zero( ) < tz ) { fprintf( stderr, "ktz mismatch\n" ); return 1; }
				pool.push_back( { r, got } );
			}
		}
		return 0;
	}
} // namespace X
