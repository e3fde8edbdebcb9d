// Hash-consed bit-vector (and IEEE float) expression DAG used by symx.
#pragma once
#include <cstdint>
#include <cstddef>
#include <vector>
#include <string>
#include <unordered_map>
#include <memory>
#include "llvm/ADT/APInt.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/ADT/APSInt.h"
#include "llvm/ADT/SmallString.h"

using llvm::APInt;

enum class K : uint8_t {
	Const, Var,
	Add, Sub, Mul, UDiv, SDiv, URem, SRem,
	And, Or, Xor, Shl, LShr, AShr,
	Eq, Ult, Ule, Slt, Sle,
	Ite, Concat /* op0 = high, op1 = low */, Extract /* aux = low bit */,
	ZExt, SExt,
	// floating point; operands are the IEEE bit patterns
	FAdd, FSub, FMul, FDiv, FRem, FSqrt, FFma,
	FOeq, FOlt, FOle, FIsNan,
	FToSI, FToUI, SIToF, UIToF, FToF,
	FRint /* aux: 0=RNE 1=RNA 2=toward +inf 3=toward -inf 4=toward zero */
};

struct VarSet; // interned sorted set of variable ids

struct Expr {
	K k;
	bool fp;         // some node below is a floating point operation
	uint8_t nops;
	uint32_t w;
	uint32_t aux;    // Var: id; Extract: low bit; FRint: mode
	uint32_t id;
	uint32_t depth;
	Expr const *op[3];
	APInt v;         // Const only
	VarSet const *vars;
	bool isConst( ) const { return k == K::Const; }
	bool isTrue( ) const { return k == K::Const and w == 1 and v.getBoolValue( ); }
	bool isFalse( ) const { return k == K::Const and w == 1 and not v.getBoolValue( ); }
	uint64_t u64( ) const { return v.getLimitedValue( ); }
	bool isZero( ) const { return k == K::Const and v.isZero( ); }
};
using E = Expr const *;

struct VarSet {
	std::vector<uint32_t> ids;
	uint32_t uid;
};

struct VarInfo {
	std::string name;
	uint32_t w;
	bool uninit;
};

struct Model {
	std::unordered_map<uint32_t, APInt> vals; // missing: zero
	mutable std::unordered_map<E, APInt> memo;
};

namespace X {
	extern std::vector<VarInfo> vars;
	E mk_const( APInt const &v );
	E c( uint32_t w, uint64_t v );
	inline E t( ) { return c( 1, 1 ); }
	inline E f( ) { return c( 1, 0 ); }
	E var( std::string const &name, uint32_t w, bool uninit = false );
	E raw( K k, uint32_t w, uint32_t aux, E a, E b = nullptr, E d = nullptr );
	E bin( K k, E a, E b );
	E add( E a, E b );
	E sub( E a, E b );
	E mul( E a, E b );
	E and_( E a, E b );
	E or_( E a, E b );
	E xor_( E a, E b );
	E not_( E a );
	E shl( E a, E b );
	E lshr( E a, E b );
	E ashr( E a, E b );
	E eq( E a, E b );
	inline E ne( E a, E b ) { return not_( eq( a, b ) ); }
	E ult( E a, E b );
	E ule( E a, E b );
	E slt( E a, E b );
	E sle( E a, E b );
	E ite( E c, E a, E b );
	E concat( E hi, E lo );
	E extract( E a, uint32_t lo, uint32_t w );
	E zext( E a, uint32_t w );
	E sext( E a, uint32_t w );
	E zext_or_trunc( E a, uint32_t w );
	E fp( K k, uint32_t w, uint32_t aux, E a, E b = nullptr, E d = nullptr );
	APInt fold( K k, uint32_t w, uint32_t aux, APInt const *o, uint32_t const *ow );
	APInt eval( E e, Model const &m );
	VarSet const *vs_union( VarSet const *a, VarSet const *b );
	std::string str( E e, int depth = 6 );
	uint64_t count( );
	int selftest( unsigned seed, unsigned iters );
	unsigned known_trailing_zeros( E e );
}
