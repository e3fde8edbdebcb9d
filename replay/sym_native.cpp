// Native side of sym.h: replays one counterexample against the code compiled the ordinary way.
//   prog ENTRY INPUTS      INPUTS: lines "name hexvalue"; "param name value"
// exit 77: an assertion failed; 78: memory misuse seen by the allocation table; 79: unexpected termination; 0: nothing wrong.
// Exit codes of sanitizers and signals are left alone.
#include "../harness/sym.h"
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <malloc.h>
#include <new>
#include <unistd.h>
#include <chrono>

namespace {
	struct KV { char name[96]; unsigned long long v; bool used; };
	KV kv[65536]; int nkv = 0;
	KV pv[256]; int npv = 0;
	struct CN { char name[96]; int n; };
	CN cn[65536]; int ncn = 0;
	bool expectTerm = false;
	long long live = 0;
	long long failAt = -1;
	bool inRun = false;
	unsigned char fill = 0xAA;
	struct Blk { void *p; size_t n; int kind; };
	Blk *blks = nullptr; size_t nblk = 0, cblk = 0;

	[[noreturn]] void quit( int c ) { fflush( stdout ); fflush( stderr ); _exit( c ); }
	unsigned long long get( char const *name ) {
		int i = 0;
		for( ; i < ncn; ++i ) if( !strcmp( cn[i].name, name ) ) break;
		if( i == ncn ) { snprintf( cn[ncn].name, 96, "%s", name ); cn[ncn++].n = 0; }
		int k = cn[i].n++;
		char full[128];
		if( k ) snprintf( full, sizeof full, "%s#%d", name, k ); else snprintf( full, sizeof full, "%s", name );
		for( int j = 0; j < nkv; ++j ) if( !kv[j].used and !strcmp( kv[j].name, full ) ) { kv[j].used = true; return kv[j].v; }
		return 0;
	}
	void *doAlloc( size_t n, size_t al, int kind, bool nothrow ) {
		if( inRun and failAt >= 0 and failAt-- == 0 ) { if( nothrow ) return nullptr; throw std::bad_alloc( ); }
		void *p = n > ( 1ull << 40 ) ? nullptr : al > 16 ? aligned_alloc( al, ( n + al - 1 ) / al * al ) : malloc( n ? n : 1 );
		if( !p ) { if( nothrow ) return nullptr; throw std::bad_alloc( ); }
		memset( p, fill, n );
		if( nblk == cblk ) { cblk = cblk ? cblk * 2 : 1024; blks = (Blk *)realloc( blks, cblk * sizeof( Blk ) ); }
		blks[nblk++] = { p, n, kind };
		++live;
		return p;
	}
	void doFree( void *p, int kind, size_t n, bool sized ) {
		if( !p ) return;
		for( size_t i = nblk; i-- > 0; ) if( blks[i].p == p ) {
			if( inRun and ( blks[i].kind != kind or ( sized and blks[i].n != n ) ) ) { fprintf( stderr, "REPLAY: mismatched deallocation\n" ); quit( 78 ); }
			blks[i] = blks[--nblk];
			--live;
			free( p );
			return;
		}
		if( inRun ) { free( p ); fprintf( stderr, "REPLAY: free of an unknown block\n" ); quit( 78 ); }
		free( p );
	}
	void onTerm( ) {
		if( expectTerm ) { printf( "REPLAY: expected termination\n" ); quit( 0 ); }
		fprintf( stderr, "REPLAY: terminate called\n" );
		quit( 79 );
	}
	void onAbort( int ) { onTerm( ); }
}
void *operator new( size_t n ) { return doAlloc( n, 16, 1, false ); }
void *operator new[]( size_t n ) { return doAlloc( n, 16, 2, false ); }
void *operator new( size_t n, std::nothrow_t const & ) noexcept { return doAlloc( n, 16, 1, true ); }
void *operator new[]( size_t n, std::nothrow_t const & ) noexcept { return doAlloc( n, 16, 2, true ); }
void *operator new( size_t n, std::align_val_t a ) { return doAlloc( n, (size_t)a, 1, false ); }
void *operator new[]( size_t n, std::align_val_t a ) { return doAlloc( n, (size_t)a, 2, false ); }
void operator delete( void *p ) noexcept { doFree( p, 1, 0, false ); }
void operator delete[]( void *p ) noexcept { doFree( p, 2, 0, false ); }
void operator delete( void *p, size_t n ) noexcept { doFree( p, 1, n, true ); }
void operator delete[]( void *p, size_t n ) noexcept { doFree( p, 2, n, true ); }
void operator delete( void *p, std::align_val_t ) noexcept { doFree( p, 1, 0, false ); }
void operator delete[]( void *p, std::align_val_t ) noexcept { doFree( p, 2, 0, false ); }
void operator delete( void *p, size_t n, std::align_val_t ) noexcept { doFree( p, 1, n, true ); }
void operator delete[]( void *p, size_t n, std::align_val_t ) noexcept { doFree( p, 2, n, true ); }

extern "C" {
uint8_t sym_u8( char const *n ) noexcept { return (uint8_t)get( n ); }
uint16_t sym_u16( char const *n ) noexcept { return (uint16_t)get( n ); }
uint32_t sym_u32( char const *n ) noexcept { return (uint32_t)get( n ); }
uint64_t sym_u64( char const *n ) noexcept { return get( n ); }
bool sym_bool( char const *n ) noexcept { return get( n ) & 1; }
void sym_bytes( void *p, size_t n, char const *name ) noexcept {
	for( size_t i = 0; i < n; ++i ) { char b[128]; snprintf( b, sizeof b, "%s[%zu]", name, i ); ( (unsigned char *)p )[i] = (unsigned char)get( b ); }
}
void sym_assume( bool c ) noexcept { if( !c ) { printf( "REPLAY: assumption not met\n" ); quit( 0 ); } }
void sym_assert( bool c, char const *m ) noexcept { if( !c ) { fprintf( stderr, "REPLAY: assertion failed: %s\n", m ); quit( 77 ); } }
void sym_reach( char const * ) noexcept {}
uint64_t sym_param( char const *n, uint64_t d ) noexcept { for( int i = 0; i < npv; ++i ) if( !strcmp( pv[i].name, n ) ) return pv[i].v; return d; }
uint64_t sym_concrete( uint64_t v ) noexcept { return v; }
bool sym_symbolic( ) noexcept { return false; }
void sym_expect_terminate( bool on ) noexcept { expectTerm = on; }
int64_t sym_heap_live( ) noexcept { return live; }
void sym_fail_alloc_at( uint64_t n ) noexcept { failAt = (long long)n; }
void sym_note( char const * ) noexcept {}
bool sym_is_dead( void const * ) noexcept { return false; }
// environment stand-ins: used when the harness provides them
uint64_t sym_env_now( ) __attribute__( ( weak ) );
void sym_env_yield( ) __attribute__( ( weak ) );
int sched_yield( ) { if( sym_env_yield ) sym_env_yield( ); return 0; }
uint64_t sym_env_syscall( ) __attribute__( ( weak ) );
int nanosleep( struct timespec const *, struct timespec * ) { if( sym_env_yield ) sym_env_yield( ); return 0; }
}
namespace std { namespace chrono { inline namespace _V2 {
system_clock::time_point system_clock::now( ) noexcept { return system_clock::time_point( system_clock::duration( sym_env_now ? (long long)sym_env_now( ) : 0 ) ); }
steady_clock::time_point steady_clock::now( ) noexcept { return steady_clock::time_point( steady_clock::duration( sym_env_now ? (long long)sym_env_now( ) : 0 ) ); }
} } }

int main( int argc, char **argv ) {
	if( argc < 3 ) return 2;
	if( char const *f = getenv( "SYM_FILL" ) ) fill = (unsigned char)strtoul( f, nullptr, 0 );
	FILE *f = fopen( argv[2], "r" );
	if( !f ) return 2;
	char name[96]; unsigned long long v;
	while( fscanf( f, "%95s", name ) == 1 ) {
		if( !strcmp( name, "param" ) ) { if( fscanf( f, "%95s %llu", pv[npv].name, &v ) == 2 ) pv[npv++].v = v; }
		else if( fscanf( f, "%llx", &v ) == 1 and nkv < 65536 ) { snprintf( kv[nkv].name, 96, "%s", name ); kv[nkv].v = v; kv[nkv++].used = false; }
	}
	fclose( f );
	auto fn = (void ( * )( ))dlsym( RTLD_DEFAULT, argv[1] );
	if( !fn ) { fprintf( stderr, "no entry %s\n", argv[1] ); return 2; }
	std::set_terminate( onTerm );
	signal( SIGABRT, onAbort );
	live = 0;
	inRun = true;
	fn( );
	inRun = false;
	printf( "REPLAY: completed\n" );
	quit( 0 );
}
