// random helpers over an arbitrary source of randomness: std's engines and distributions are replaced by ones whose every
// outcome within their specification is a solver variable
//@ bounds: sequences of <=4 or 5 elements; every bound and every outcome of the distribution
#include "stdrt.h"
#include "common.h"
#include <algorithm>
#include <random>
namespace std {
	namespace sym_rnd {
		enum class Mode { any, low, high, script } mode = Mode::any;
		std::uint64_t script[8];
		unsigned draws = 0;
		std::uint64_t table[2][8]; // what an engine seeded with an even / odd value yields
	} // namespace sym_rnd
	struct sym_engine {
		using result_type = std::uint64_t;
		std::uint64_t s = 0;
		unsigned idx = 0;
		sym_engine( ) = default;
		explicit sym_engine( std::uint64_t v ) : s( v ) {}
		void seed( std::uint64_t v ) {
			s = v;
			idx = 0;
		}
		static constexpr std::uint64_t min( ) {
			return 0;
		}
		static constexpr std::uint64_t max( ) {
			return ~std::uint64_t{ };
		}
		std::uint64_t operator( )( ) {
			return sym_rnd::table[s & 1][idx++ & 7];
		}
	};
	struct sym_device {
		unsigned operator( )( ) {
			return sym<unsigned>( "device" );
		}
	};
	template<typename T>
	struct sym_int_dist {
		using result_type = T;
		struct param_type {
			T a, b;
			param_type( T x = 0, T y = std::numeric_limits<T>::max( ) ) : a( x ), b( y ) {
				sym_assert( x <= y, "a distribution needs a <= b" );
			}
		} p;
		sym_int_dist( T x = 0, T y = std::numeric_limits<T>::max( ) ) : p( x, y ) {}
		template<typename G>
		T operator( )( G &g, param_type const &q ) {
			using U = std::make_unsigned_t<T>;
			U const span = static_cast<U>( static_cast<U>( q.b ) - static_cast<U>( q.a ) );
			U off;
			unsigned const i = sym_rnd::draws++;
			switch( sym_rnd::mode ) {
			case sym_rnd::Mode::low:
				off = 0;
				break;
			case sym_rnd::Mode::high:
				off = span;
				break;
			case sym_rnd::Mode::script:
				off = static_cast<U>( sym_rnd::script[i & 7] );
				sym_assume( sym_rnd::script[i & 7] <= span );
				break;
			default:
				off = static_cast<U>( g( ) );
				sym_assume( off <= span );
			}
			return static_cast<T>( static_cast<U>( static_cast<U>( q.a ) + off ) );
		}
		template<typename G>
		T operator( )( G &g ) {
			return ( *this )( g, p );
		}
	};
	template<typename T>
	struct sym_real_dist {
		using result_type = T;
		struct param_type {
			T a, b;
			param_type( T x = 0, T y = 1 ) : a( x ), b( y ) {
				sym_assert( x <= y, "a distribution needs a <= b" );
			}
		} p;
		sym_real_dist( T x = 0, T y = 1 ) : p( x, y ) {}
		template<typename G>
		T operator( )( G &, param_type const &q ) {
			T const r = sym<T>( "real" );
			sym_assume( q.a <= r and r < q.b );
			return r;
		}
		template<typename G>
		T operator( )( G &g ) {
			return ( *this )( g, p );
		}
	};
} // namespace std
#define mt19937_64 sym_engine
#define default_random_engine sym_engine
#define random_device sym_device
#define uniform_int_distribution sym_int_dist
#define uniform_real_distribution sym_real_dist
#include <daw/daw_random.h>

namespace {
	using std::sym_rnd::Mode;
	void source( Mode m ) {
		std::sym_rnd::mode = m;
		std::sym_rnd::draws = 0;
		for( auto &t : std::sym_rnd::table ) {
			for( auto &x : t ) {
				x = sym<uint64_t>( "random" );
			}
		}
		daw::reseed( );
	}
	template<typename T>
	void ints( ) {
		source( static_cast<Mode>( sym_pick( "mode", 0, 2 ) ) );
		T const a = sym<T>( "a" ), b = sym<T>( "b" );
		T r = 0;
		bool const t = throws( [&] { r = daw::randint<T>( a, b ); } );
		CHECK( t == ( a > b ) );
		if( not t ) {
			CHECK( r >= a and r <= b );
			CHECK( std::sym_rnd::mode != Mode::low or r == a );
			CHECK( std::sym_rnd::mode != Mode::high or r == b );
		}
		r = daw::randint<T>( );
		CHECK( std::sym_rnd::mode != Mode::low or r == std::numeric_limits<T>::min( ) );
		CHECK( std::sym_rnd::mode != Mode::high or r == std::numeric_limits<T>::max( ) );
	}
} // namespace
ENTRY integers( ) {
	switch( sym_pick( "type", 0, 5 ) ) {
	case 0:
		return ints<int8_t>( );
	case 1:
		return ints<uint8_t>( );
	case 2:
		return ints<int32_t>( );
	case 3:
		return ints<uint32_t>( );
	case 4:
		return ints<int64_t>( );
	default:
		return ints<uint64_t>( );
	}
}
ENTRY reseeding_repeats( ) {
	source( Mode::any );
	auto const s = sym<uint32_t>( "seed" );
	daw::reseed( s );
	auto const a = daw::randint<int64_t>( ), b = daw::randint<int64_t>( );
	daw::reseed( s );
	CHECK( daw::randint<int64_t>( ) == a and daw::randint<int64_t>( ) == b );
	daw::reseed( );
	auto const c = daw::randint<int64_t>( );
	daw::reseed( );
	CHECK( daw::randint<int64_t>( ) == c );
}
//@ q:k=4 t:k=5
ENTRY shuffles( ) {
	source( Mode::any );
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 4 ) ) ) );
	Arr<int16_t> a( n, "a" );
	int16_t before[8];
	std::copy( a.begin( ), a.end( ), before );
	daw::shuffle( a.begin( ), a.end( ) );
	int16_t const x = sym<int16_t>( "x" );
	std::size_t was = 0, is = 0;
	for( std::size_t i = 0; i < n; ++i ) {
		was += before[i] == x ? 1u : 0u;
		is += a[i] == x ? 1u : 0u;
	}
	CHECK( was == is );
}
// different outcomes of the source give different orders, and there are as many outcomes as orders: every order is equally likely
//@ q:k=4 t:k=5
ENTRY shuffles_are_fair( ) {
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 2, static_cast<int>( sym_param( "k", 4 ) ) ) );
	source( Mode::script );
	uint64_t s[2][8];
	int order[2][8];
	std::size_t orders = 1;
	for( std::size_t i = 2; i <= n; ++i ) {
		orders *= i;
	}
	for( int r = 0; r < 2; ++r ) {
		for( std::size_t i = 0; i < n; ++i ) {
			std::sym_rnd::script[i] = s[r][i] = static_cast<uint64_t>( sym_pick( "choice", 0, static_cast<int>( n ) - 1 ) );
			order[r][i] = static_cast<int>( i );
		}
		std::sym_rnd::draws = 0;
		daw::shuffle( order[r] + 0, order[r] + n );
		CHECK( std::sym_rnd::draws >= n - 1 and std::sym_rnd::draws <= n );
	}
	bool same_choice = true, same_order = true;
	for( std::size_t i = 0; i < std::sym_rnd::draws; ++i ) {
		same_choice &= s[0][i] == s[1][i];
	}
	for( std::size_t i = 0; i < n; ++i ) {
		same_order &= order[0][i] == order[1][i];
	}
	CHECK( same_choice == same_order );
}
//@ q:k=5 t:k=5
ENTRY fills( ) {
	source( static_cast<Mode>( sym_pick( "mode", 0, 2 ) ) );
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 3 ) ) ) );
	Arr<int32_t> a( n, "a" );
	int16_t const lo = sym<int16_t>( "lo" ), hi = sym<int16_t>( "hi" );
	bool const t = throws( [&] { daw::random_fill( a.begin( ), a.end( ), lo, hi ); } );
	CHECK( t == ( lo > hi ) );
	if( not t ) {
		for( std::size_t i = 0; i < n; ++i ) {
			CHECK( a[i] >= lo and a[i] <= hi );
			CHECK( std::sym_rnd::mode != Mode::low or a[i] == lo );
			CHECK( std::sym_rnd::mode != Mode::high or a[i] == hi );
		}
	}
}
//@ q:k=5 t:k=5
ENTRY data( ) {
	source( static_cast<Mode>( sym_pick( "mode", 0, 2 ) ) );
	std::size_t const n = static_cast<std::size_t>( sym_pick( "n", 0, static_cast<int>( sym_param( "k", 3 ) ) ) );
	int16_t const lo = sym<int16_t>( "lo" ), hi = sym<int16_t>( "hi" );
	if( lo > hi ) {
		sym_expect_terminate( true );
	}
	auto const v = daw::make_random_data<int16_t>( n, lo, hi );
	sym_expect_terminate( false );
	CHECK( lo <= hi and v.size( ) == n );
	for( std::size_t i = 0; i < v.size( ); ++i ) {
		CHECK( v[i] >= lo and v[i] <= hi );
		CHECK( std::sym_rnd::mode != Mode::low or v[i] == lo );
		CHECK( std::sym_rnd::mode != Mode::high or v[i] == hi );
	}
	auto const all = daw::make_random_data<uint8_t>( n );
	CHECK( all.size( ) == n );
	if( n > 0 ) {
		CHECK( std::sym_rnd::mode != Mode::low or all[0] == 0 );
		CHECK( std::sym_rnd::mode != Mode::high or all[0] == 255 );
	}
}
ENTRY integer_source( ) {
	source( static_cast<Mode>( sym_pick( "mode", 0, 2 ) ) );
	daw::RandomInteger<int32_t> r( sym<int32_t>( "seed" ) );
	int32_t const lo = sym<int32_t>( "lo" ), hi = sym<int32_t>( "hi" );
	int32_t x = 0;
	bool const t = throws( [&] { x = r( hi, lo ); } );
	CHECK( t == ( lo >= hi ) );
	if( not t ) {
		CHECK( x >= lo and x <= hi );
		CHECK( std::sym_rnd::mode != Mode::low or x == lo );
		CHECK( std::sym_rnd::mode != Mode::high or x == hi );
		x = r( hi );
		CHECK( x <= hi );
		CHECK( std::sym_rnd::mode != Mode::low or x == std::numeric_limits<int32_t>::min( ) );
		x = r( );
		CHECK( std::sym_rnd::mode != Mode::high or x == std::numeric_limits<int32_t>::max( ) );
	}
	daw::RandomInteger<uint8_t> d;
	CHECK( d( 9, 3 ) >= 3 and d( 9, 3 ) <= 9 );
}
ENTRY real_source( ) {
	source( Mode::any );
	daw::RandomFloat<double> r( sym<uint32_t>( "seed" ) );
	double const lo = sym<double>( "lo" ), hi = sym<double>( "hi" );
	double x = 0;
	bool const t = throws( [&] { x = r( hi, lo ); } );
	CHECK( t == not( lo < hi ) );
	if( not t ) {
		CHECK( x >= lo and x < hi );
	}
	x = r( );
	CHECK( x >= 0.0 and x < 1.0 );
	daw::RandomFloat<float> f( 3u );
	float const y = f( 2.0f );
	CHECK( y >= 0.0f and y < 2.0f );
}
ENTRY static_source( ) {
	auto const s = sym<std::size_t>( "seed" );
	daw::static_random a( s ), b( s );
	auto const x = a( ), y = a( );
	CHECK( b( ) == x and b( ) == y );
}
