// symx BITCODE --entry NAME [--param k=v]... [--max-time S] [--max-steps N] [--out FILE] [--all-violations]
#include "exec.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdio>
#include <cstring>
#include <fstream>
int main( int argc, char **argv ) {
	Options o;
	std::string file, out;
	if( argc > 1 and !strcmp( argv[1], "--selftest" ) ) {
		int r = X::selftest( argc > 2 ? atoi( argv[2] ) : 1, argc > 3 ? atoi( argv[3] ) : 300 );
		printf( "selftest %s\n", r ? "FAILED" : "ok" );
		return r;
	}
	for( int i = 1; i < argc; ++i ) {
		std::string a = argv[i];
		auto next = [&] { return std::string( argv[++i] ); };
		if( a == "--entry" ) o.entry = next( );
		else if( a == "--param" ) { auto p = next( ); auto e = p.find( '=' ); o.params[p.substr( 0, e )] = strtoull( p.c_str( ) + e + 1, nullptr, 0 ); }
		else if( a == "--max-time" ) o.maxTime = atof( next( ).c_str( ) );
		else if( a == "--max-steps" ) o.maxSteps = strtoull( next( ).c_str( ), nullptr, 0 );
		else if( a == "--max-violations" ) o.maxViolations = strtoull( next( ).c_str( ), nullptr, 0 );
		else if( a == "--out" ) out = next( );
		else if( a == "-v" ) o.verbose = true;
		else file = a;
	}
	if( o.params.count( "preempt" ) ) o.maxPreempt = int( o.params["preempt"] );
	if( o.params.count( "yields" ) ) o.maxYield = int( o.params["yields"] );
	llvm::LLVMContext ctx;
	llvm::SMDiagnostic err;
	auto M = llvm::parseIRFile( file, err, ctx );
	if( not M ) { err.print( "symx", llvm::errs( ) ); return 3; }
	Executor x( M.get( ), o );
	int r = x.run( );
	if( r ) return r;
	std::string j = x.resultJson( );
	if( out.empty( ) ) printf( "%s\n", j.c_str( ) );
	else { std::ofstream f( out ); f << j << "\n"; }
	fflush( stdout );
	_Exit( x.violations.empty( ) ? ( x.incomplete.empty( ) ? 0 : 2 ) : 1 );
}
