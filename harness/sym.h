// Interface between harnesses and the two ways of running them:
//   * symx (engine/): every sym_* value is a solver variable, every sym_assert a proof obligation;
//   * native replay (replay/sym_native.cpp): values come from a counterexample file.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
extern "C" {
uint8_t sym_u8( char const *name ) noexcept;
uint16_t sym_u16( char const *name ) noexcept;
uint32_t sym_u32( char const *name ) noexcept;
uint64_t sym_u64( char const *name ) noexcept;
bool sym_bool( char const *name ) noexcept;
void sym_bytes( void *p, size_t n, char const *name ) noexcept;
void sym_assume( bool c ) noexcept;
void sym_assert( bool c, char const *msg ) noexcept;
void sym_reach( char const *label ) noexcept;
uint64_t sym_param( char const *name, uint64_t def ) noexcept;
uint64_t sym_concrete( uint64_t v ) noexcept;
bool sym_symbolic( ) noexcept;
void sym_expect_terminate( bool on ) noexcept;
int64_t sym_heap_live( ) noexcept;
void sym_fail_alloc_at( uint64_t n ) noexcept; // the n-th allocation from now on (0 = next) throws bad_alloc; ~0 = never
void sym_note( char const *s ) noexcept;
bool sym_is_dead( void const *p ) noexcept;
// threads: every interleaving of their visible operations (atomic operations, accesses to sym_shared ranges) within the bound on
// preemptions; conflicting unsynchronised accesses to sym_shared ranges are reported as races
void sym_spawn( void ( *fn )( void * ), void *arg ) noexcept;
void sym_join( ) noexcept;
void sym_shared( void const *p, size_t n ) noexcept;
void sym_sched_yield( ) noexcept;
}
#define ENTRY extern "C" __attribute__( ( noinline, used ) ) void
// sym value of an integer type T
template<typename T>
inline T sym( char const *name ) {
	static_assert( sizeof( T ) <= 8 );
	if constexpr( sizeof( T ) == 1 ) { uint8_t v = sym_u8( name ); return static_cast<T>( v ); }
	else if constexpr( sizeof( T ) == 2 ) { uint16_t v = sym_u16( name ); return static_cast<T>( v ); }
	else if constexpr( sizeof( T ) == 4 ) { uint32_t v = sym_u32( name ); return static_cast<T>( v ); }
	else { uint64_t v = sym_u64( name ); return static_cast<T>( v ); }
}
inline float sym_f32( char const *name ) { uint32_t v = sym_u32( name ); float f; std::memcpy( &f, &v, 4 ); return f; }
inline double sym_f64( char const *name ) { uint64_t v = sym_u64( name ); double f; std::memcpy( &f, &v, 8 ); return f; }
// arbitrary value in [lo, hi]
template<typename T>
inline T sym_range( char const *name, T lo, T hi ) {
	T v = sym<T>( name );
	sym_assume( v >= lo && v <= hi );
	return v;
}
// arbitrary value in [lo, hi], one path per value
inline size_t sym_pick( char const *name, size_t lo, size_t hi ) {
	uint32_t v = sym_u32( name );
	sym_assume( v >= lo && v <= hi );
	return static_cast<size_t>( sym_concrete( v ) );
}
