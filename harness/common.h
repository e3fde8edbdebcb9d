// helpers shared by harnesses
#pragma once
#include "sym.h"
#include <cstdlib>
#include <new>
#include <type_traits>
#include <utility>

// large sizes (parameter BIG): few distinct values, two arbitrary ones
template<typename T>
void thin_out( T *p, std::size_t cnt ) {
	if constexpr( std::is_integral_v<T> ) {
		if( cnt > 8 and sym_param( "BIG", 0 ) ) {
			for( std::size_t k = 0; k < cnt; ++k ) {
				if( k == cnt / 3 or k == cnt - 2 ) continue;
				auto const o = sym_param( "ORD", 0 ); // 1 ascending, 2 descending, otherwise mixed
				std::size_t const x = o == 1 ? k / 2 * 3 : o == 2 ? ( cnt - k ) / 2 * 3 : ( k * 5 + 3 ) % 7;
				p[k] = static_cast<T>( o == 3 and ( k + 1 < cnt / 2 or k > cnt / 2 + 1 ) ? ' ' : o == 4 ? x : x + 64 ); // 3: a word between spaces, 4: digits
			}
		}
	}
}
// exactly-sized heap buffer with arbitrary contents: any access outside [0, n) is reported
template<typename T>
struct Arr {
	T *p;
	std::size_t n;
	explicit Arr( std::size_t cnt, char const *name )
	  : p( static_cast<T *>( std::malloc( cnt ? cnt * sizeof( T ) : 1 ) ) )
	  , n( cnt ) {
		if( cnt ) {
			sym_bytes( p, cnt * sizeof( T ), name );
		}
		thin_out( p, cnt );
	}
	Arr( Arr const & ) = delete;
	~Arr( ) {
		std::free( p );
	}
	T &operator[]( std::size_t i ) {
		return p[i];
	}
	T *begin( ) {
		return p;
	}
	T *end( ) {
		return p + n;
	}
};
#ifdef CXPATH
// take the branches meant for constant evaluation
#include <daw/daw_is_constant_evaluated.h>
#undef DAW_IF_NOT_CONSTEVAL
#undef DAW_IF_CONSTEVAL
#undef DAW_IS_CONSTANT_EVALUATED
#define DAW_IF_NOT_CONSTEVAL if( false )
#define DAW_IF_CONSTEVAL if( true )
#define DAW_IS_CONSTANT_EVALUATED( ) true
#endif
#define CHECK( ... ) sym_assert( static_cast<bool>( __VA_ARGS__ ), #__VA_ARGS__ )
static inline constexpr std::size_t NPOS = static_cast<std::size_t>( -1 );

// a size: every one in [lo, hi], or with the parameter BIG that size and the one before it
static inline std::size_t pick_size( char const *name, std::size_t lo, std::size_t hi ) {
	std::size_t const big = static_cast<std::size_t>( sym_param( "BIG", 0 ) );
	return big ? big - static_cast<std::size_t>( sym_pick( name, 0, 1 ) ) : static_cast<std::size_t>( sym_pick( name, lo, hi ) );
}
// a position: every one of a short range, the ends and the middle of a long one
static inline std::size_t pick_pos( char const *name, std::size_t lo, std::size_t hi ) {
	if( hi - lo <= 10 ) return static_cast<std::size_t>( sym_pick( name, lo, hi ) );
	switch( sym_pick( name, 0, 4 ) ) {
	case 0: return lo;
	case 1: return lo + 1;
	case 2: return lo + ( hi - lo ) / 2;
	case 3: return hi - 1;
	default: return hi;
	}
}

// a search text: every short one, or with the parameter BIG one or two or nine characters
static inline std::size_t pick_needle( char const *name, std::size_t lo, std::size_t hi ) {
	if( not sym_param( "BIG", 0 ) ) return static_cast<std::size_t>( sym_pick( name, lo, hi ) );
	int const k = static_cast<int>( sym_pick( name, 0, 2 ) );
	return k == 2 ? 9 : static_cast<std::size_t>( k + 1 );
}

// select without a branch
template<typename T>
inline T sel( bool c, T a, T b ) {
	T m = static_cast<T>( -static_cast<T>( c ) );
	return static_cast<T>( ( a & m ) | ( b & ~m ) );
}
template<typename F>
inline bool throws( F &&f ) {
	try {
		f( );
	} catch( ... ) { return true; }
	return false;
}
template<typename Ex, typename F>
inline bool throws_as( F &&f ) {
	try {
		f( );
	} catch( Ex const & ) { return true; } catch( ... ) {
		return false;
	}
	return false;
}

// Element type that checks its own life cycle: every construction, destruction, copy, move and comparison is validated.
struct Track {
	static inline int64_t live = 0;
	static inline int64_t copies = 0, moves = 0;
	static inline int64_t throw_at = -1; // n-th copy from now throws
	static inline int64_t throw_move_at = -1;
	static constexpr uint32_t alive = 0x600DF00Du, moved = 0x30BED000u, gone = 0xDEADDEADu;
	uint32_t state;
	uint32_t v;
	static void tick( ) {
		if( throw_at >= 0 ) {
			if( throw_at == 0 ) {
				throw_at = -1;
				throw 42;
			}
			--throw_at;
		}
	}
	Track( ) : v( 0 ) {
		tick( );
		state = alive;
		++live;
	}
	Track( uint32_t x ) : v( x ) {
		tick( );
		state = alive;
		++live;
	}
	Track( Track const &o ) : v( o.v ) {
		sym_assert( o.state == alive, "copy from an object that is not alive" );
		tick( );
		state = alive;
		++live;
		++copies;
	}
	Track( Track &&o ) noexcept : v( o.v ) {
		sym_assert( o.state == alive, "move from an object that is not alive" );
		o.state = moved;
		state = alive;
		++live;
		++moves;
	}
	Track &operator=( Track const &o ) {
		sym_assert( state == alive || state == moved, "assignment to an object that does not exist" );
		sym_assert( o.state == alive, "copy assignment from an object that is not alive" );
		tick( );
		v = o.v;
		state = alive;
		++copies;
		return *this;
	}
	Track &operator=( Track &&o ) noexcept {
		sym_assert( state == alive || state == moved, "assignment to an object that does not exist" );
		sym_assert( o.state == alive, "move assignment from an object that is not alive" );
		if( this != &o ) {
			v = o.v;
			o.state = moved;
			state = alive;
		}
		++moves;
		return *this;
	}
	~Track( ) {
		sym_assert( state == alive || state == moved, "destruction of an object that does not exist" );
		state = gone;
		--live;
	}
	uint32_t get( ) const {
		sym_assert( state == alive, "value read from an object that is not alive" );
		return v;
	}
	friend bool operator==( Track const &a, Track const &b ) {
		return a.get( ) == b.get( );
	}
	friend bool operator!=( Track const &a, Track const &b ) {
		return a.get( ) != b.get( );
	}
	friend bool operator<( Track const &a, Track const &b ) {
		return a.get( ) < b.get( );
	}
	friend bool operator>( Track const &a, Track const &b ) {
		return a.get( ) > b.get( );
	}
	friend bool operator<=( Track const &a, Track const &b ) {
		return a.get( ) <= b.get( );
	}
	friend bool operator>=( Track const &a, Track const &b ) {
		return a.get( ) >= b.get( );
	}
};
// checks that everything was destroyed and every allocation returned
struct LeakGuard {
	int64_t l, h;
	LeakGuard( ) : l( Track::live ), h( sym_heap_live( ) ) {}
	~LeakGuard( ) {
		sym_assert( Track::live == l, "every element constructed is destroyed exactly once" );
		sym_assert( sym_heap_live( ) == h, "every allocation is released" );
	}
};
