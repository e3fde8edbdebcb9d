// a C file handle is closed exactly once by whoever owns it
//@ bounds: two owners, up to 4 (6) operations in any order, open files or none
#include "stdrt.h"
#include "common.h"
#include <cstdio>
#include <utility>

namespace {
	int closes[12];
	char handles[12];
	int record_close( FILE *f ) {
		auto const i = reinterpret_cast<char *>( f ) - handles;
		CHECK( i >= 0 and i < 12 );
		++closes[i];
		return 0;
	}
} // namespace
#define fclose record_close
#include <daw/deprecated/daw_cfile.h>
#undef fclose

//@ q:ops=3 t:ops=5
ENTRY cfile_history( ) {
	int owner[12]; // which owner holds handle i: 0, 1, 2 = handed out, 3 = closed
	int next = 0;
	auto fresh = [&] { return reinterpret_cast<FILE *>( handles + next++ ); };
	int held[2] = { -1, -1 };
	for( auto &c : closes ) c = 0;
	{
		bool const open = sym_bool( "open" );
		daw::CFile f[2] = { open ? daw::CFile( fresh( ) ) : daw::CFile( ), daw::CFile( ) };
		if( open ) {
			held[0] = 0;
			owner[0] = 0;
		}
		auto drop = [&]( int w ) {
			if( held[w] >= 0 ) {
				owner[held[w]] = 3;
			}
			held[w] = -1;
		};
		size_t const n = sym_pick( "n", 0, sym_param( "ops", 3 ) );
		for( size_t k = 0; k < n; ++k ) {
			int const w = static_cast<int>( sym_pick( "who", 0, 1 ) );
			switch( sym_pick( "op", 0, 6 ) ) {
			case 0: {
				int const id = next;
				f[w].reset( fresh( ) );
				drop( w );
				held[w] = id;
				owner[id] = w;
				break;
			}
			case 1:
				f[w].close( );
				drop( w );
				break;
			case 2:
				f[w].reset( );
				drop( w );
				break;
			case 3: {
				FILE *p = f[w].release( );
				CHECK( p == ( held[w] < 0 ? nullptr : reinterpret_cast<FILE *>( handles + held[w] ) ) );
				if( held[w] >= 0 ) {
					owner[held[w]] = 2;
				}
				held[w] = -1;
				break;
			}
			case 4:
				f[w] = std::move( f[1 - w] );
				drop( w );
				held[w] = held[1 - w];
				if( held[w] >= 0 ) {
					owner[held[w]] = w;
				}
				held[1 - w] = -1;
				break;
			case 5: {
				auto &self = f[w];
				f[w] = std::move( self );
				break;
			}
			default: {
				daw::CFile tmp( std::move( f[w] ) );
				CHECK( tmp.get( ) == ( held[w] < 0 ? nullptr : reinterpret_cast<FILE *>( handles + held[w] ) ) );
				drop( w );
				break;
			}
			}
			for( int i = 0; i < 2; ++i ) {
				CHECK( f[i].get( ) == ( held[i] < 0 ? nullptr : reinterpret_cast<FILE *>( handles + held[i] ) ) );
			}
			for( int i = 0; i < next; ++i ) {
				CHECK( closes[i] == ( owner[i] == 3 ? 1 : 0 ) );
			}
		}
	}
	for( int i = 0; i < next; ++i ) {
		CHECK( closes[i] == ( owner[i] == 2 ? 0 : 1 ) );
	}
}
