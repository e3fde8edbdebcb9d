// memory_mapped_file_t and read_file against an operating system that may fail at every call
//@ bounds: every combination of failing calls; file sizes 0-8 bytes (mapped), 0-5 and 14-18 bytes (read); up to 3 (4) operations on two mappings
#include "stdrt.h"
#include "common.h"
#include <cstdio>
#include <fcntl.h>
#include <filesystem>
#include <iostream>
#include <optional>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/stat.h>
#include <system_error>
#include <unistd.h>
#include <daw/daw_string_view.h>
#include <daw/daw_unique_resource.h>
#include <daw/daw_exchange.h>

#ifdef SYMX
namespace std::_V2 {
	error_category const &system_category( ) noexcept {
		static char dummy[64];
		return reinterpret_cast<error_category const &>( dummy );
	}
} // namespace std::_V2
#endif

// ---- the stand-in operating system: records every call, fails on demand ----
namespace {
	constexpr int MaxFd = 6;
	struct OS {
		alignas( 16 ) unsigned char bytes[24] = { };
		long size = 0;
		bool open_fails = false;
		bool seek_fails = false;
		bool map_fails = false;
		int first_fd = 0;
		int opened = 0;
		bool is_open[MaxFd] = { };
		bool writable[MaxFd] = { };
		int mapped = 0;
		unsigned long mapped_size[MaxFd] = { };
		bool is_mapped[MaxFd] = { };
		char const *path = nullptr;
		// read_file
		bool size_fails = false;
		bool fopen_fails = false;
		unsigned long given = 0;
		int files = 0;
		int open_files = 0;
	};
	OS os;

	int open_count( ) {
		int r = 0;
		for( int i = 0; i < MaxFd; ++i ) {
			r += os.is_open[i] ? 1 : 0;
		}
		return r;
	}
	int map_count( ) {
		int r = 0;
		for( int i = 0; i < MaxFd; ++i ) {
			r += os.is_mapped[i] ? 1 : 0;
		}
		return r;
	}
} // namespace

// each mapping is a separate copy of the address range, so that releasing the
// wrong one shows
alignas( 16 ) static unsigned char map_area[MaxFd][24];

static int sim_open( char const *p, int flags, ... ) {
	sym_assert( p == os.path, "the file asked for is the one opened" );
	sym_assert( ( flags & ( O_CREAT | O_TRUNC | O_APPEND ) ) == 0, "opening changes nothing" );
	if( os.open_fails ) {
		return -1;
	}
	int const fd = os.opened++;
	os.is_open[fd] = true;
	os.writable[fd] = ( flags & O_ACCMODE ) == O_RDWR;
	return fd + os.first_fd;
}

static int sim_close( int fd ) {
	int const i = fd - os.first_fd;
	bool const ok = i >= 0 and i < os.opened and os.is_open[i];
	sym_assert( ok, "only a descriptor that is open is closed" );
	if( ok ) {
		os.is_open[i] = false;
	}
	return 0;
}

static off_t sim_lseek( int fd, off_t off, int whence ) {
	int const i = fd - os.first_fd;
	sym_assert( i >= 0 and i < os.opened and os.is_open[i], "seek uses an open descriptor" );
	if( os.seek_fails ) {
		return -1;
	}
	return whence == SEEK_END ? os.size + off : off;
}

static void *sim_mmap( void *, size_t n, int prot, int flags, int fd, off_t off ) {
	int const i = fd - os.first_fd;
	sym_assert( i >= 0 and i < os.opened and os.is_open[i], "mmap uses an open descriptor" );
	sym_assert( n == (size_t)os.size and off == 0, "the whole file is mapped" );
	sym_assert( ( prot & PROT_READ ) != 0, "the mapping can be read" );
	sym_assert( ( ( prot & PROT_WRITE ) != 0 ) == os.writable[i], "the mapping can be written exactly when asked for" );
	sym_assert( ( flags & MAP_SHARED ) != 0, "writes reach the file" );
	if( os.map_fails ) {
		return MAP_FAILED;
	}
	int const m = os.mapped++;
	os.is_mapped[m] = true;
	os.mapped_size[m] = n;
	for( int k = 0; k < 24; ++k ) {
		map_area[m][k] = os.bytes[k];
	}
	return map_area[m];
}

static int sim_munmap( void *p, size_t n ) {
	int m = -1;
	for( int k = 0; k < MaxFd; ++k ) {
		if( p == map_area[k] ) {
			m = k;
		}
	}
	bool const ok = m >= 0 and os.is_mapped[m];
	sym_assert( ok, "only a live mapping is unmapped" );
	if( ok ) {
		sym_assert( n == os.mapped_size[m], "the whole mapping is unmapped" );
		os.is_mapped[m] = false;
	}
	return 0;
}

static FILE *sim_fopen( char const *p, char const *mode ) {
	sym_assert( p[0] == 'n' and p[1] == 'm' and p[2] == 0, "the file asked for is the one opened" );
	sym_assert( mode[0] == 'r' and mode[1] == 'b' and mode[2] == 0, "the file is only read, byte for byte" );
	if( os.fopen_fails ) {
		return nullptr;
	}
	++os.files;
	++os.open_files;
	return reinterpret_cast<FILE *>( &os );
}

static size_t sim_fread( void *dst, size_t sz, size_t n, FILE *f ) {
	sym_assert( f == reinterpret_cast<FILE *>( &os ) and os.open_files == 1, "reading uses the open file" );
	size_t got = 0;
	auto *d = static_cast<unsigned char *>( dst );
	while( got < n and ( got + 1 ) * sz <= os.given ) {
		for( size_t k = 0; k < sz; ++k ) {
			d[got * sz + k] = os.bytes[got * sz + k];
		}
		++got;
	}
	return got;
}

static int sim_fclose( FILE *f ) {
	sym_assert( f == reinterpret_cast<FILE *>( &os ) and os.open_files == 1, "only an open file is closed" );
	--os.open_files;
	return 0;
}

namespace std {
	using ::sim_fclose;
	using ::sim_fopen;
	using ::sim_fread;
	struct sim_err_t {
		template<typename T>
		sim_err_t &operator<<( T const & ) {
			return *this;
		}
		sim_err_t &operator<<( std::ostream &( * )( std::ostream & ) ) {
			return *this;
		}
	};
	inline sim_err_t sim_cerr;
	namespace filesystem {
		inline uintmax_t sim_file_size( std::string const &p, std::error_code &ec ) {
			sym_assert( p.size( ) == 2 and p[0] == 'n' and p[1] == 'm', "the size asked for is that of the file" );
			if( os.size_fails ) {
				ec = std::error_code( 2, std::system_category( ) );
				return (uintmax_t)-1;
			}
			return (uintmax_t)os.size;
		}
	} // namespace filesystem
} // namespace std

#define open sim_open
#define close sim_close
#define lseek sim_lseek
#define mmap sim_mmap
#define munmap sim_munmap
#define fopen sim_fopen
#define fread sim_fread
#define fclose sim_fclose
#define file_size sim_file_size
#define cerr sim_cerr
#include <daw/daw_memory_mapped_file.h>
#include <daw/daw_read_file.h>

namespace {
	using daw::filesystem::open_mode;
	template<typename T>
	using Map = daw::filesystem::memory_mapped_file_t<T>;

	void sym_os( char const *tag, long maxsize = 8 ) {
		(void)tag;
		os.open_fails = sym<bool>( "openFails" );
		os.seek_fails = sym<bool>( "seekFails" );
		os.map_fails = sym<bool>( "mapFails" );
		os.first_fd = sym_range<int>( "fd", 0, 2000 );
		os.size = sym_range<long>( "size", 0, maxsize );
		for( int i = 0; i < 8; ++i ) {
			os.bytes[i] = sym<unsigned char>( "byte" );
		}
		os.path = "file";
	}
	bool should_open( ) {
		return not os.open_fails and not os.seek_fails and not os.map_fails and os.size > 0;
	}

	template<typename T>
	void holds( Map<T> &f, bool expected ) {
		auto const &cf = f;
		CHECK( (bool)f == expected and (bool)cf == expected );
		if( not expected ) {
			CHECK( f.size( ) == 0 and cf.size( ) == 0 );
			CHECK( f.empty( ) and cf.empty( ) );
			CHECK( f.begin( ) == f.end( ) and cf.begin( ) == cf.end( ) and cf.cbegin( ) == cf.cend( ) );
			return;
		}
		size_t const n = (size_t)os.size / sizeof( T );
		CHECK( f.size( ) == n and cf.size( ) == n );
		CHECK( f.empty( ) == ( n == 0 ) and cf.empty( ) == ( n == 0 ) );
		CHECK( f.data( ) == cf.data( ) );
		CHECK( f.begin( ) == f.data( ) and cf.begin( ) == cf.data( ) and cf.cbegin( ) == cf.data( ) );
		CHECK( f.end( ) == f.data( ) + n and cf.end( ) == cf.data( ) + n and cf.cend( ) == cf.data( ) + n );
		size_t const i = sym_range<size_t>( "i", 0, 7 );
		if( i < n ) {
			std::remove_const_t<T> e{ };
			__builtin_memcpy( &e, os.bytes + i * sizeof( T ), sizeof( T ) );
			CHECK( f[i] == e and cf[i] == e and f.data( )[i] == e and cf.begin( )[(ptrdiff_t)i] == e );
			CHECK( &f[i] == f.data( ) + i and &cf[i] == cf.data( ) + i );
		}
	}

	template<typename T>
	void open_close( ) {
		sym_os( "" );
		bool const rw = not std::is_const_v<T> and sym<bool>( "rw" );
		auto const mode = rw ? open_mode::read_write : open_mode::read;
		bool const ctor = sym<bool>( "ctor" );
		{
			if( ctor ) {
				Map<T> f( daw::string_view( os.path ), mode );
				holds( f, should_open( ) );
			} else {
				Map<T> f;
				holds( f, false );
				bool const r = f.open( daw::string_view( os.path ), mode );
				CHECK( r == should_open( ) );
				holds( f, should_open( ) );
				if constexpr( not std::is_const_v<T> ) {
					if( r and rw and f.size( ) > 0 ) {
						size_t const i = sym_range<size_t>( "wi", 0, 7 );
						if( i < f.size( ) ) {
							auto const v = sym<T>( "new" );
							f[i] = v;
							T e{ };
							__builtin_memcpy( &e, map_area[0] + i * sizeof( T ), sizeof( T ) );
							CHECK( e == v );
						}
					}
				}
			}
		}
		CHECK( open_count( ) == 0 );
		CHECK( map_count( ) == 0 );
		CHECK( os.opened == ( os.open_fails ? 0 : 1 ) );
		sym_reach( "done" );
	}
} // namespace

//@ q:time=100 t:time=300
ENTRY map_bytes( ) {
	open_close<char>( );
}

//@ q:time=100 t:time=300
ENTRY map_const_bytes( ) {
	open_close<unsigned char const>( );
}

//@ q:time=100 t:time=300
ENTRY map_words( ) {
	open_close<uint32_t>( );
}

//@ q:time=100 t:time=300
ENTRY map_read_by_default( ) {
	sym_os( "" );
	{
		Map<char> f( os.path );
		CHECK( (bool)f == should_open( ) );
		if( f ) {
			CHECK( not os.writable[0] );
			std::string_view const sv = f;
			CHECK( sv.data( ) == f.data( ) and sv.size( ) == f.size( ) );
		}
		Map<char> g;
		CHECK( g.open( os.path ) == should_open( ) );
		if( g ) {
			CHECK( not os.writable[1] );
			CHECK( map_count( ) == 2 and open_count( ) == 2 );
			CHECK( g.data( ) != f.data( ) );
		}
	}
	CHECK( open_count( ) == 0 and map_count( ) == 0 );
	sym_reach( "done" );
}

//@ q:time=200,k=2 t:time=700,k=3
ENTRY map_moves( ) {
	sym_os( "", 3 );
	{
		Map<char> f[2];
		bool live[2] = { false, false };
		uint64_t const steps = sym_param( "k", 2 );
		for( uint64_t s = 0; s < steps; ++s ) {
			int const a = sym<bool>( "which" ) ? 1 : 0;
			int const b = 1 - a;
			switch( sym_pick( "op", 0, 3 ) ) {
			case 0:
				// opening again lets go of what was held
				os.open_fails = sym<bool>( "openFails" );
				os.seek_fails = sym<bool>( "seekFails" );
				os.map_fails = sym<bool>( "mapFails" );
				CHECK( f[a].open( os.path ) == should_open( ) );
				live[a] = should_open( );
				break;
			case 1:
				f[b] = std::move( f[a] );
				live[b] = live[a];
				live[a] = false;
				break;
			case 2: {
				Map<char> g( std::move( f[a] ) );
				holds( g, live[a] );
				live[a] = false;
				break;
			}
			default: {
				Map<char> &r = f[a];
				f[a] = std::move( r );
				break;
			}
			}
			CHECK( (bool)f[0] == live[0] and (bool)f[1] == live[1] );
			CHECK( map_count( ) == (int)live[0] + (int)live[1] );
			CHECK( open_count( ) == (int)live[0] + (int)live[1] );
		}
		holds( f[0], live[0] );
		holds( f[1], live[1] );
	}
	CHECK( open_count( ) == 0 and map_count( ) == 0 );
	CHECK( not std::is_copy_constructible_v<Map<char>> and not std::is_copy_assignable_v<Map<char>> );
	sym_reach( "done" );
}

namespace {
	template<typename C>
	void reads( long lo, long hi, bool term ) {
		os.size_fails = sym<bool>( "sizeFails" );
		os.fopen_fails = sym<bool>( "openFails" );
		os.size = sym_range<long>( "size", lo, hi );
		os.given = sym_range<unsigned long>( "given", 0, (unsigned long)os.size );
		for( int i = 0; i < 24; ++i ) {
			os.bytes[i] = sym<unsigned char>( "byte" );
		}
		// a regular file gives all its bytes unless a read fails
		size_t const n = (size_t)os.size / sizeof( C );
		bool const good = not os.size_fails and ( os.size == 0 or ( not os.fopen_fails and os.given / sizeof( C ) >= n ) );
		std::string const path = "nm";
		std::optional<std::basic_string<C>> r;
		if constexpr( sizeof( C ) == 1 ) {
			if( term ) {
				if( not good ) {
					sym_expect_terminate( true );
					(void)daw::read_file( path, daw::terminate_on_read_file_error );
					sym_assert( false, "a failed read stops the program" );
					return;
				}
				r = daw::read_file( path, daw::terminate_on_read_file_error );
			} else {
				r = daw::read_file( path );
			}
		} else {
			(void)term;
			r = daw::read_file<C>( path );
		}
		CHECK( os.open_files == 0 );
		CHECK( (bool)r == good );
		if( r ) {
			CHECK( r->size( ) == n );
			size_t const i = sym_range<size_t>( "i", 0, 23 );
			if( i < n ) {
				C e{ };
				__builtin_memcpy( &e, os.bytes + i * sizeof( C ), sizeof( C ) );
				CHECK( ( *r )[i] == e );
			}
		}
		sym_reach( "done" );
	}
} // namespace

//@ q:time=150 t:time=400
ENTRY read_small( ) {
	reads<char>( 0, 5, sym<bool>( "terminate" ) );
}

//@ q:time=150 t:time=400
ENTRY read_longer( ) {
	reads<char>( 14, 18, sym<bool>( "terminate" ) );
}

//@ q:time=150 t:time=400
ENTRY read_wide( ) {
	reads<char16_t>( 0, 9, false );
}
