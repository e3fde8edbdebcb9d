// Native side of sym_spawn / sym_join / sym_shared: the harness is compiled with -fsanitize=thread for the instrumentation only and
// linked with these definitions, which run the threads as coroutines and take every scheduling decision from the counterexample.
// The rules (visible operations, order of the options, vector clocks) are those of Executor::decide / hb* in engine/exec.cpp.
#include "../harness/sym.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <map>
#include <ucontext.h>
#include <unistd.h>
#include <vector>

namespace {
	using Clock = std::vector<uint32_t>;
	struct Thr {
		ucontext_t ctx;
		bool done = false, joining = false, go = false;
		Clock vc, acqPend, relF;
		void ( *fn )( void * ) = nullptr;
		void *arg = nullptr;
	};
	struct Acc { Clock w, r, aw, ar; };
	std::vector<Thr *> thr;
	int cur = 0, preempts = 0, yields = 0;
	struct Range { char const *p; size_t n; } ranges[64];
	int nranges = 0;
	bool busy = false; // inside this runtime
	std::map<uintptr_t, Clock> &loc( ) { static auto *m = new std::map<uintptr_t, Clock>; return *m; }
	std::map<uintptr_t, Acc> &accs( ) { static auto *m = new std::map<uintptr_t, Acc>; return *m; }
	enum SK { Preempt, Yield, Block };
	[[noreturn]] void bad( char const *m ) { fprintf( stderr, "REPLAY: %s\n", m ); fflush( stderr ); _exit( 77 ); }
	uint32_t at( Clock const &c, size_t i ) { return i < c.size( ) ? c[i] : 0; }
	void put( Clock &c, size_t i, uint32_t v ) { if( c.size( ) <= i ) c.resize( i + 1, 0 ); c[i] = v; }
	void join( Clock &a, Clock const &b ) { if( a.size( ) < b.size( ) ) a.resize( b.size( ), 0 ); for( size_t i = 0; i < b.size( ); ++i ) a[i] = std::max( a[i], b[i] ); }
	void decide( SK k ) {
		int opts[64], n = 0;
		bool othersDone = true;
		for( size_t t = 1; t < thr.size( ); ++t ) othersDone &= thr[t]->done;
		for( int t = 0; t < int( thr.size( ) ); ++t ) {
			if( t == cur ) {
				if( k == Preempt or ( k == Yield and yields < int( sym_param( "yields", 4 ) ) ) ) opts[n++] = t;
				continue;
			}
			if( thr[t]->done or ( thr[t]->joining and not othersDone ) ) continue;
			if( k == Preempt and preempts >= int( sym_param( "preempt", 2 ) ) ) continue;
			opts[n++] = t;
		}
		if( n == 0 ) {
			if( k == Yield ) return;
			bad( "no thread can run" );
		}
		int ch = 0;
		if( n > 1 ) {
			ch = sym_u8( "sched" );
			if( ch >= n ) ch = 0;
		}
		int to = opts[ch], was = cur;
		if( to == was ) { if( k == Yield ) ++yields; return; }
		if( k == Preempt ) ++preempts;
		cur = to;
		thr[to]->go = true;
		swapcontext( &thr[was]->ctx, &thr[to]->ctx );
	}
	bool active( ) { return thr.size( ) > 1 and not busy; }
	void point( ) {
		Thr &t = *thr[cur];
		if( t.go ) { t.go = false; return; }
		decide( Preempt );
		thr[cur]->go = false;
	}
	bool visible( uintptr_t a ) { for( int i = 0; i < nranges; ++i ) if( a - (uintptr_t)ranges[i].p < ranges[i].n ) return true; return false; }
	void plain( void *p, size_t n, bool wr ) {
		uintptr_t a = (uintptr_t)p;
		if( not active( ) or not visible( a ) ) return;
		busy = true;
		point( );
		Thr &t = *thr[cur];
		for( size_t i = 0; i < n; ++i ) {
			Acc &x = accs( )[a + i];
			for( size_t u = 0; u < thr.size( ); ++u ) {
				if( int( u ) == cur ) continue;
				uint32_t v = at( t.vc, u );
				if( at( x.w, u ) > v or at( x.aw, u ) > v or ( wr and ( at( x.r, u ) > v or at( x.ar, u ) > v ) ) ) bad( "data race" );
			}
			put( wr ? x.w : x.r, cur, at( t.vc, cur ) );
		}
		busy = false;
	}
	bool acq( int o ) { return o == 1 or o == 2 or o == 4 or o == 5; }
	bool rel( int o ) { return o == 3 or o == 4 or o == 5; }
	void pre( ) {
		if( not active( ) ) return;
		busy = true;
		point( );
		busy = false;
	}
	void hb( void volatile *p, size_t n, bool rd, bool wr, int o ) {
		if( not active( ) ) return;
		busy = true;
		uintptr_t a = (uintptr_t)p;
		Thr &t = *thr[cur];
		if( visible( a ) )
			for( size_t i = 0; i < n; ++i ) {
				Acc &x = accs( )[a + i];
				for( size_t u = 0; u < thr.size( ); ++u ) {
					if( int( u ) == cur ) continue;
					if( at( x.w, u ) > at( t.vc, u ) or ( wr and at( x.r, u ) > at( t.vc, u ) ) ) bad( "data race with an atomic access" );
				}
				if( wr ) put( x.aw, cur, at( t.vc, cur ) );
				if( rd ) put( x.ar, cur, at( t.vc, cur ) );
			}
		Clock &L = loc( )[a];
		if( rd ) join( acq( o ) ? t.vc : t.acqPend, L );
		if( wr ) {
			if( not rd ) L.clear( );
			join( L, rel( o ) ? t.vc : t.relF );
			if( rel( o ) ) put( t.vc, cur, at( t.vc, cur ) + 1 );
		}
		busy = false;
	}
	void trampoline( ) {
		busy = false;
		Thr *t = thr[cur];
		t->fn( t->arg );
		busy = true;
		t->done = true;
		decide( Block );
		bad( "finished thread resumed" );
	}
	void ensureMain( ) {
		if( thr.empty( ) ) { thr.push_back( new Thr ); thr[0]->vc = Clock{ 1 }; }
	}
}
extern "C" {
void sym_shared( void const *p, size_t n ) noexcept { ranges[nranges++] = { (char const *)p, n }; }
void sym_spawn( void ( *fn )( void * ), void *arg ) noexcept {
	ensureMain( );
	Thr *t = new Thr;
	t->fn = fn;
	t->arg = arg;
	int id = int( thr.size( ) );
	t->vc = thr[cur]->vc;
	t->vc.resize( id + 1, 0 );
	t->vc[id] = 1;
	++thr[cur]->vc[cur];
	getcontext( &t->ctx );
	t->ctx.uc_stack.ss_sp = malloc( 1 << 20 );
	t->ctx.uc_stack.ss_size = 1 << 20;
	t->ctx.uc_link = nullptr;
	makecontext( &t->ctx, trampoline, 0 );
	thr.push_back( t );
}
void sym_join( ) noexcept {
	ensureMain( );
	busy = true;
	for( ;; ) {
		bool all = true;
		for( size_t t = 1; t < thr.size( ); ++t ) all &= thr[t]->done;
		if( all ) break;
		thr[0]->joining = true;
		// coroutines that were preempted inside the runtime clear the flag themselves when they leave it
		busy = false;
		decide( Block );
		busy = true;
	}
	thr[0]->joining = thr[0]->go = false;
	for( Thr *t : thr ) join( thr[0]->vc, t->vc );
	thr.resize( 1 );
	busy = false;
}
void sym_sched_yield( ) noexcept {
	if( thr.size( ) < 2 ) return;
	decide( Yield );
	busy = false;
}
void __tsan_init( ) {}
void __tsan_func_entry( void * ) {}
void __tsan_func_exit( ) {}
void __tsan_vptr_update( void **, void * ) {}
void __tsan_vptr_read( void ** ) {}
void __tsan_ignore_thread_begin( ) {}
void __tsan_ignore_thread_end( ) {}
#define RW( N )                                                                                   \
	void __tsan_read##N( void *p ) { plain( p, N, false ); }                                        \
	void __tsan_write##N( void *p ) { plain( p, N, true ); }                                        \
	void __tsan_unaligned_read##N( void *p ) { plain( p, N, false ); }                              \
	void __tsan_unaligned_write##N( void *p ) { plain( p, N, true ); }                              \
	void __tsan_volatile_read##N( void *p ) { plain( p, N, false ); }                               \
	void __tsan_volatile_write##N( void *p ) { plain( p, N, true ); }                               \
	void __tsan_read_write##N( void *p ) { plain( p, N, false ); plain( p, N, true ); }             \
	void __tsan_unaligned_read_write##N( void *p ) { plain( p, N, false ); plain( p, N, true ); }
RW( 1 ) RW( 2 ) RW( 4 ) RW( 8 ) RW( 16 )
void __tsan_read_range( void *p, size_t n ) { plain( p, n, false ); }
void __tsan_write_range( void *p, size_t n ) { plain( p, n, true ); }
void *__tsan_memcpy( void *d, void const *s, size_t n ) { return __builtin_memcpy( d, s, n ); }
void *__tsan_memmove( void *d, void const *s, size_t n ) { return __builtin_memmove( d, s, n ); }
void *__tsan_memset( void *d, int c, size_t n ) { return __builtin_memset( d, c, n ); }
#define AT( B, T )                                                                                                                                    \
	T __tsan_atomic##B##_load( T const volatile *p, int o ) { pre( ); hb( const_cast<T volatile *>( p ), sizeof( T ), true, false, o ); return *p; }     \
	void __tsan_atomic##B##_store( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), false, true, o ); *p = v; }                                 \
	T __tsan_atomic##B##_exchange( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = v; return x; }              \
	T __tsan_atomic##B##_fetch_add( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( x + v ); return x; }    \
	T __tsan_atomic##B##_fetch_sub( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( x - v ); return x; }    \
	T __tsan_atomic##B##_fetch_and( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( x & v ); return x; }    \
	T __tsan_atomic##B##_fetch_or( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( x | v ); return x; }     \
	T __tsan_atomic##B##_fetch_xor( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( x ^ v ); return x; }    \
	T __tsan_atomic##B##_fetch_nand( T volatile *p, T v, int o ) { pre( ); hb( p, sizeof( T ), true, true, o ); T x = *p; *p = T( ~( x & v ) ); return x; } \
	T __tsan_atomic##B##_compare_exchange_val( T volatile *p, T c, T v, int o, int fo ) {                                                               \
		pre( );                                                                                                                                           \
		T x = *p;                                                                                                                                         \
		hb( p, sizeof( T ), true, x == c, x == c ? o : fo );                                                                                              \
		if( x == c ) *p = v;                                                                                                                              \
		return x;                                                                                                                                         \
	}                                                                                                                                                   \
	int __tsan_atomic##B##_compare_exchange_strong( T volatile *p, T *c, T v, int o, int fo ) {                                                         \
		T x = __tsan_atomic##B##_compare_exchange_val( p, *c, v, o, fo );                                                                                 \
		if( x == *c ) return 1;                                                                                                                           \
		*c = x;                                                                                                                                           \
		return 0;                                                                                                                                         \
	}                                                                                                                                                   \
	int __tsan_atomic##B##_compare_exchange_weak( T volatile *p, T *c, T v, int o, int fo ) { return __tsan_atomic##B##_compare_exchange_strong( p, c, v, o, fo ); }
AT( 8, uint8_t ) AT( 16, uint16_t ) AT( 32, uint32_t ) AT( 64, uint64_t )
void __tsan_atomic_thread_fence( int o ) {
	if( not active( ) ) return;
	pre( );
	Thr &t = *thr[cur];
	if( acq( o ) ) join( t.vc, t.acqPend );
	if( rel( o ) ) { t.relF = t.vc; put( t.vc, cur, at( t.vc, cur ) + 1 ); }
}
void __tsan_atomic_signal_fence( int ) {}
}
