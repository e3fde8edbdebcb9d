// symx: path-exploring symbolic executor for LLVM 18 IR.
#pragma once
#include "expr.h"
#include "solver.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <functional>
#include <unordered_map>
#include <chrono>

enum class OK : uint8_t { Global, Const, Stack, Heap, Exc, Extern };
enum class AK : uint8_t { None, Malloc, New, NewArr };

struct Obj {
	uint64_t base = 0, size = 0;
	OK kind = OK::Global;
	AK ak = AK::None;
	bool freed = false;   // deallocated or out of scope
	bool dead = false;    // lifetime ended
	uint64_t align = 16;
	std::string name;
	std::vector<E> bytes; // nullptr: uninitialised
};
using ObjP = std::shared_ptr<Obj>;

struct KInst {
	llvm::Instruction *I;
	int dest;               // register slot or -1
	std::vector<int> ops;   // >=0 register; <0 constant -(i+1)
	uint64_t a = 0, b = 0;  // pre-decoded data
	std::vector<std::pair<int, uint64_t>> gep; // variable index operand, scale
	E goff = nullptr;
};
struct KBlock { int first; std::vector<KInst *> phis; };
struct KFunc {
	llvm::Function *F;
	int nregs = 0;
	std::vector<KInst> insts;
	std::unordered_map<llvm::BasicBlock const *, int> bb;
	std::vector<E> consts;
	std::vector<int> args;
	bool counted = false;
};
struct Frame {
	KFunc *kf = nullptr;
	int pc = 0;
	llvm::BasicBlock const *prev = nullptr;
	std::vector<E> regs;
	std::vector<uint64_t> allocas;
	std::vector<E> varargs;
	int retSlot = -1;
	llvm::CallBase const *cs = nullptr; // call site in the caller
	bool discardRet = false;
	bool nounwindBarrier = false;
};
struct Exc {
	uint64_t obj;
	uint64_t tinfo;
	uint64_t dtor;
	int refs = 0;
	uint64_t size = 0;
};
using Clock = std::vector<uint32_t>; // vector clock, one component per thread
struct Thread {
	std::vector<Frame> stack;
	bool go = false;       // chosen by the scheduler: its next visible operation runs without another choice
	Clock vc, acqPend, relF;
	std::vector<uint64_t> caught;
	int uncaught = 0;
	bool done = false;
	bool joining = false;
};
// last accesses to one shared byte, per thread (plain and atomic, as epochs of the accessing thread)
struct Accesses { Clock w, r, aw, ar; };
struct State {
	std::map<uint64_t, ObjP> mem;
	std::vector<Thread> threads;
	int cur = 0;
	std::vector<E> cons;
	Model model;
	std::vector<std::pair<std::string, E>> inputs;
	std::map<std::string, int> nameCount;
	std::map<uint64_t, Exc> excs;
	uint64_t next = 0x10000000;
	uint64_t steps = 0;
	uint64_t depth = 0;
	int64_t heapLive = 0;
	bool expectTerm = false;
	int64_t allocFailAt = -1;
	uint64_t errnoAddr = 0;
	int preempts = 0, yields = 0;
	std::vector<std::pair<uint64_t, uint64_t>> shared; // address ranges whose plain accesses are visible operations
	std::map<uint64_t, Clock> locClock;
	std::map<uint64_t, Accesses> accs;
	std::vector<std::string> trace;
	std::set<std::string> tags;
	std::vector<Frame> &stack( ) { return threads[cur].stack; }
	Frame &top( ) { return threads[cur].stack.back( ); }
};

struct Violation {
	std::string kind, msg, where;
	std::vector<std::string> stack;
	std::vector<std::pair<std::string, APInt>> inputs;
	std::vector<std::string> trace;
};

struct PathEnd {};     // thrown to end the current path
struct Reexec {};      // instruction must be executed again in the current state
struct Stop { std::string why; };

struct Options {
	std::string entry;
	std::map<std::string, uint64_t> params;
	double maxTime = 300;
	uint64_t maxSteps = 3000000;
	uint64_t maxViolations = 1;
	uint64_t maxConcretize = 4096;
	uint64_t maxAlloc = 1u << 22;
	int maxPreempt = 2, maxYield = 4;
	bool trace = false;
	bool verbose = false;
};

struct Executor {
	llvm::Module *M;
	llvm::DataLayout const *DL;
	Options opt;
	Solver solver;
	std::vector<std::unique_ptr<State>> work;
	std::map<uint64_t, ObjP> constMem;
	std::unordered_map<llvm::GlobalValue const *, uint64_t> gaddr;
	std::unordered_map<uint64_t, llvm::Function *> faddr;
	std::unordered_map<uint64_t, llvm::GlobalVariable const *> gvAt;
	std::unordered_map<llvm::Function const *, std::unique_ptr<KFunc>> kf;
	std::unordered_map<std::string, E> varByName;
	std::map<std::string, uint64_t> typeIds;
	std::vector<Violation> violations;
	std::set<std::string> violationKeys;
	std::set<std::string> reached, allReach, incomplete, functions, externals;
	uint64_t paths = 0, completed = 0, assumedOut = 0, terminated = 0, forks = 0, instrs = 0, asserts = 0, asserts_solver = 0;
	std::chrono::steady_clock::time_point t0;
	State *S = nullptr;

	using Native = std::function<E( Executor &, State &, llvm::CallBase const *, std::vector<E> const & )>;
	std::unordered_map<std::string, Native> natives;

	Executor( llvm::Module *m, Options o );
	int run( );
	std::string resultJson( );

	// helpers
	double elapsed( ) const;
	std::string where( State &s );
	std::vector<std::string> backtrace( State &s );
	void violation( State &s, Model const &m, std::string kind, std::string msg );
	[[noreturn]] void fatal( State &s, std::string kind, std::string msg ); // violation on every continuation of this path
	[[noreturn]] void unsupported( State &s, std::string what );

	// solving
	bool mayBeTrue( State &s, E c, Model *m = nullptr );
	bool mustBeTrue( State &s, E c );
	void addCons( State &s, E c );
	E concretize( State &s, E e );
	// assert that c holds: report if it can fail, then continue assuming it
	void require( State &s, E c, std::string kind, std::string msg );
	bool branch( State &s, E c, std::function<void( State & )> onFalse ); // forks; returns the side taken by s

	// memory
	ObjP alloc( State &s, uint64_t size, uint64_t align, OK k, std::string name );
	Obj *find( State &s, uint64_t addr, uint64_t *base = nullptr );
	Obj &writable( State &s, uint64_t base );
	// resolves to one object; checks bounds; returns base and offset expression
	uint64_t resolve( State &s, E addr, uint64_t size, bool write, E &off );
	E load( State &s, E addr, uint32_t bits, uint64_t bytes );
	void store( State &s, E addr, E v, uint64_t bytes );
	E loadByteAt( State &s, uint64_t base, uint64_t off );
	void checkRange( State &s, uint64_t addr, uint64_t n, bool write, char const *what );
	void copyBytes( State &s, uint64_t dst, uint64_t src, uint64_t n );
	void freeObj( State &s, E p, AK ak, E sz );
	std::string cstr( State &s, E p );

	// values
	uint32_t bitsOf( llvm::Type *t );
	E constant( llvm::Constant *c );
	E loadTyped( State &s, E addr, llvm::Type *t );
	void storeTyped( State &s, E addr, E v, llvm::Type *t );
	uint32_t aggOffset( llvm::Type *t, llvm::ArrayRef<unsigned> idx, llvm::Type *&out );
	KFunc *getK( llvm::Function *F );
	E val( Frame &f, int op ) {
		E e = op >= 0 ? f.regs[op] : f.kf->consts[-op - 1];
		if( not e ) noValue( f );
		return e;
	}
	[[noreturn]] void noValue( Frame &f );
	E freshUninit( uint32_t w, std::string const &hint );
	E input( State &s, std::string const &name, uint32_t w );

	// control
	void initGlobals( State &s );
	void writeInit( Obj &o, uint64_t off, llvm::Constant *c );
	void exec( State &s );
	void step( State &s );
	void jump( State &s, llvm::BasicBlock const *to );
	void call( State &s, KInst &k, llvm::CallBase *cb );
	void pushFrame( State &s, llvm::Function *F, std::vector<E> args, llvm::CallBase const *cs, int retSlot, bool discard );
	void ret( State &s, E v );
	void popFrame( State &s );
	E intrinsic( State &s, KInst &k, llvm::CallBase *cb, llvm::Intrinsic::ID id, std::vector<E> const &a );
	void registerNatives( );
	void prepareModule( );
	void noteFunctions( KFunc *k );
	std::set<std::string> libFunctions;
	std::vector<std::vector<std::pair<std::string, APInt>>> samples;
	std::map<std::string, uint64_t> usedParams;
	E fcmp( llvm::CmpInst::Predicate p, E a, E b );
	// exceptions
	void unwind( State &s, uint64_t exc, bool fromResume );
	bool typeMatches( uint64_t thrown, uint64_t caught, int64_t &adj );
	uint64_t typeId( uint64_t tinfo );
	std::string typeName( uint64_t tinfo );
	void doTerminate( State &s, std::string why );
	// threads
	enum class SK { Preempt, Yield, Block };
	bool decide( State &s, SK k );                                                 // true: another thread runs now
	bool schedPoint( State &s );                                                   // before a visible operation
	bool visible( State &s, E addr );
	void hbAtomic( State &s, E addr, uint64_t n, bool rd, bool wr, llvm::AtomicOrdering o );
	void hbPlain( State &s, E addr, uint64_t n, bool wr );
	void hbFence( State &s, llvm::AtomicOrdering o );
	uint64_t seed_ctr = 0;
};
std::string demangle( std::string const & );
