// K05: child processes are run and reported faithfully, and leave nothing behind.
#include "vm.h"
#include <kwsys/Process.h>
#include <algorithm>
#include <memory>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/select.h>
#include <sys/syscall.h>
#include <time.h>

typedef std::string Str;
typedef std::vector< Str > Strs;

namespace {

Str child;                         // the child program

// ---- what the code under test asks of the system ---------------------------
// kill() reaches only processes this harness is an ancestor of; anything else is recorded and not done.
// fork() and pipe() can be made to fail, and are delayed to vary the schedule.
int fork_fail, pipe_fail;          // n-th call from now fails; 0 for none
unsigned delay_child, delay_parent, delay_report;  // microseconds at most
uint64_t delay_state = 1;
bool forked;                       // in a forked child
bool own_group;                    // the group of this process may be signalled
std::vector< Str > stray;          // signals that must not have been sent
std::vector< pid_t > groups;       // process groups that may be signalled
std::vector< pid_t > mine;         // direct children
Strs allowed_dirs;                 // where chdir() may go; anywhere if empty
unsigned waits, faults;

void doze( unsigned most )
{
  if( !most ) { return; }
  delay_state = vm::mix( delay_state );
  unsigned us = static_cast< unsigned >( delay_state % ( most + 1 ) );
  timespec t = { 0, static_cast< long >( us ) * 1000 };
  while( nanosleep( &t, &t ) && errno == EINTR ) { }
}
bool descendant( pid_t p )
{
  pid_t me = getpid();
  for( int i = 0; i < 30 && p > 1; ++i )
  {
    char f[ 64 ], b[ 600 ];
    std::snprintf( f, sizeof f, "/proc/%d/stat", static_cast< int >( p ) );
    int fd = ::open( f, O_RDONLY | O_CLOEXEC );
    if( fd < 0 ) { return false; }
    ssize_t n = ::read( fd, b, sizeof b - 1 );
    ::close( fd );
    if( n <= 0 ) { return false; }
    b[ n ] = 0;
    char const* q = std::strrchr( b, ')' );
    int pp = 0;
    if( !q || std::sscanf( q + 1, "%*s %d", &pp ) != 1 ) { return false; }
    if( pp == me ) { return true; }
    p = pp;
  }
  return false;
}

} // namespace

extern "C" pid_t fork() noexcept
{
  static pid_t ( *real )() = reinterpret_cast< pid_t ( * )() >( dlsym( RTLD_NEXT, "fork" ) );
  if( fork_fail && --fork_fail == 0 ) { ++faults; errno = EAGAIN; return -1; }
  pid_t p = real();
  if( p == 0 ) { forked = true; doze( delay_child ); }
  else if( p > 0 && !forked ) { mine.push_back( p ); int e = errno; doze( delay_parent ); errno = e; }
  else if( p > 0 ) { doze( delay_report ); }   // the one between, before it reports
  return p;
}
extern "C" int pipe( int* fd ) noexcept
{
  if( pipe_fail && --pipe_fail == 0 ) { ++faults; errno = EMFILE; return -1; }
  return static_cast< int >( syscall( SYS_pipe2, fd, 0 ) );
}
extern "C" int chdir( char const* d ) noexcept
{
  if( !forked && allowed_dirs.size() && std::find( allowed_dirs.begin(), allowed_dirs.end(), Str( d, strnlen( d, 5000 ) ) ) == allowed_dirs.end() && stray.size() < 10 ) { stray.push_back( "chdir(" + vm::show( Str( d, strnlen( d, 40 ) ) ) + "), not a signal" ); }
  return static_cast< int >( syscall( SYS_chdir, d ) );
}
extern "C" int kill( pid_t p, int s ) noexcept
{
  bool ok = p == 0 ? own_group && getsid( 0 ) == getpid() : p > 1 ? p == getpid() || descendant( p ) : p < -1 && std::find( groups.begin(), groups.end(), -p ) != groups.end();
  if( !ok )
  {
    if( p > 1 && syscall( SYS_kill, p, 0 ) ) { errno = ESRCH; return -1; }   // no such process
    if( stray.size() < 10 ) { stray.push_back( "kill(" + std::to_string( p ) + "," + std::to_string( s ) + ")" ); }
    errno = EPERM;
    return -1;
  }
  return static_cast< int >( syscall( SYS_kill, p, s ) );
}

namespace {

double now() { timespec t; clock_gettime( CLOCK_MONOTONIC, &t ); return static_cast< double >( t.tv_sec ) + static_cast< double >( t.tv_nsec ) * 1e-9; }

Str stream( unsigned long n, unsigned long k )
{
  Str r( n, 0 );
  for( unsigned long i = 0; i < n; ++i ) { r[ i ] = static_cast< char >( k * 131 + i * 7 + ( i >> 8 ) * 13 + ( i >> 16 ) * 29 ); }
  return r;
}

// ---- everything of this process that a run must leave as it was -------------
struct World
{
  std::map< int, Str > fds;
  struct sigaction act[ 3 ];
  sigset_t mask;
  Str cwd;
};
World world()
{
  World w;
  DIR* d = opendir( "/proc/self/fd" );
  while( dirent* e = readdir( d ) )
  {
    if( e->d_name[ 0 ] == '.' ) { continue; }
    int f = std::atoi( e->d_name );
    if( f == dirfd( d ) ) { continue; }
    char b[ 500 ];
    Str p = Str( "/proc/self/fd/" ) + e->d_name;
    ssize_t n = readlink( p.c_str(), b, sizeof b );
    w.fds[ f ] = n > 0 ? Str( b, static_cast< size_t >( n ) ) : "?";
  }
  closedir( d );
  int s[] = { SIGCHLD, SIGINT, SIGTERM };
  for( int i = 0; i < 3; ++i ) { sigaction( s[ i ], nullptr, &w.act[ i ] ); }
  sigprocmask( SIG_BLOCK, nullptr, &w.mask );
  char b[ 4096 ];
  w.cwd = getcwd( b, sizeof b ) ? b : "gone";
  return w;
}
void same_world( World const& a, Str const& what )
{
  World b = world();
  for( auto const& f : b.fds )
  {
    auto i = a.fds.find( f.first );
    VM_CHECK( i != a.fds.end(), "descriptor-left-open", "descriptor " << f.first << " (" << f.second << ") stays open after " << what );
    VM_CHECK( i->second == f.second, "descriptor-changed", "descriptor " << f.first << " was " << i->second << ", is " << f.second << " after " << what );
  }
  for( auto const& f : a.fds ) { VM_CHECK( b.fds.count( f.first ), "descriptor-closed", "descriptor " << f.first << " (" << f.second << ") is closed after " << what ); }
  char const* n[] = { "SIGCHLD", "SIGINT", "SIGTERM" };
  for( int i = 0; i < 3; ++i )
  {
    VM_CHECK( a.act[ i ].sa_sigaction == b.act[ i ].sa_sigaction && ( a.act[ i ].sa_flags & ~0x04000000 ) == ( b.act[ i ].sa_flags & ~0x04000000 ), "signal-handler-changed", n[ i ] << " is handled differently after " << what );
  }
  for( int s = 1; s < 32; ++s ) { VM_CHECK( sigismember( &a.mask, s ) == sigismember( &b.mask, s ), "signal-mask-changed", "signal " << s << " after " << what ); }
  VM_CHECK( a.cwd == b.cwd, "working-directory-changed", a.cwd << " became " << b.cwd << " after " << what );
  VM_CHECK( stray.empty(), "signal-to-others", what << " would have sent " << stray[ 0 ] );
  vm::event( "worlds_compared" );
}

bool runs( pid_t p )
{
  Str s = vm::slurp( "/proc/" + std::to_string( p ) + "/stat" );
  size_t i = s.rfind( ')' );
  return i != Str::npos && i + 2 < s.size() && s[ i + 2 ] != 'Z' && s[ i + 2 ] != 'X';
}

// nothing that ran is left; what outlived its parent came to us
void no_children( Str const& what, bool orphans_may_live = false )
{
  double end = now() + 8;
  for( ;; )
  {
    int st;
    pid_t p = waitpid( -1, &st, WNOHANG );
    if( p < 0 ) { return; }
    if( p > 0 )
    {
      VM_CHECK( std::find( mine.begin(), mine.end(), p ) == mine.end(), "zombie", "a child was not waited for after " << what );
      vm::event( "orphans_ended" );
      continue;
    }
    if( now() > end || orphans_may_live )
    {
      // end what is left, whatever it is, so that it does not disturb later cases
      DIR* d = opendir( "/proc" );
      bool any = false;
      while( dirent* e = readdir( d ) )
      {
        pid_t q = std::atoi( e->d_name );
        if( q > 1 && q != getpid() && descendant( q ) ) { syscall( SYS_kill, q, SIGKILL ); any = true; }
      }
      closedir( d );
      while( waitpid( -1, &st, 0 ) > 0 || errno == EINTR ) { }
      VM_CHECK( orphans_may_live, "survivor", "a process " << ( any ? "still runs" : "is left" ) << " after " << what );
      return;
    }
    usleep( 500 );
  }
}

// ---- signals that arrive all the time --------------------------------------
volatile sig_atomic_t alarms;
void on_alarm( int ) { ++alarms; }
void on_int( int ) { }
void on_int2( int ) { }
struct Storm
{
  timer_t t;
  bool on;
  explicit Storm( bool wanted, long us ) : on( wanted )
  {
    if( !on ) { return; }
    struct sigaction a;
    std::memset( &a, 0, sizeof a );
    a.sa_handler = on_alarm;       // no SA_RESTART: calls are interrupted
    sigaction( SIGUSR1, &a, nullptr );
    sigevent e;
    std::memset( &e, 0, sizeof e );
    e.sigev_notify = SIGEV_SIGNAL;
    e.sigev_signo = SIGUSR1;
    if( timer_create( CLOCK_MONOTONIC, &e, &t ) ) { on = false; return; }
    itimerspec s = { { 0, us * 1000 }, { 0, us * 1000 } };
    timer_settime( t, 0, &s, nullptr );
    vm::event( "signal_storms" );
  }
  ~Storm() { if( on ) { timer_delete( t ); signal( SIGUSR1, SIG_IGN ); vm::event( "interrupting_signals", static_cast< uint64_t >( alarms ) ); alarms = 0; } }
};

// ---- one process object -----------------------------------------------------
struct Proc
{
  kwsysProcess* p = kwsysProcess_New();
  Str out, err;
  bool done = false;
  ~Proc() { kwsysProcess_Delete( p ); }
  Proc() = default;
  Proc( Proc const& ) = delete;
};
char const* const* argv_of( Strs const& a, std::vector< char const* >& store )
{
  store.clear();
  for( Str const& s : a ) { store.push_back( s.c_str() ); }
  store.push_back( nullptr );
  return store.data();
}
void add( kwsysProcess* p, Strs const& a, bool set = false )
{
  // a copy in a block of its own, gone before the process starts
  std::vector< char const* > v;
  Strs b = a;
  char const* const* w = argv_of( b, v );
  int ok = set ? kwsysProcess_SetCommand( p, w ) : kwsysProcess_AddCommand( p, w );
  VM_CHECK( ok == 1, "command-refused", "adding a command returns " << ok );
}

// one call of WaitForData; false at the end
bool step( vm::Rng& r, Proc& q )
{
  char* data = nullptr;
  int len = -1;
  double t = 0, asked = 0;
  bool timed = r.chance( 1, 2 );
  if( timed ) { t = asked = r.pick( std::vector< double >{ 0, -1, 0.0005, 0.002, 0.01, 0.03, 5, 1e5 } ); }
  double t0 = now();
  int k = kwsysProcess_WaitForData( q.p, &data, &len, timed ? &t : nullptr );
  double took = now() - t0;
  ++waits;
  if( k == kwsysProcess_Pipe_None ) { return false; }
  if( k == kwsysProcess_Pipe_Timeout )
  {
    VM_CHECK( timed, "timeout-not-asked", "WaitForData without a timeout reports one" );
    VM_CHECK( took >= asked - 0.002, "timeout-early", "a wait of " << asked << " s ends after " << took );
    VM_CHECK( t == 0, "timeout-not-used-up", t << " s left" );
    vm::event( "waits_timed_out" );
    if( asked <= 0 ) { usleep( 300 ); }
    return true;
  }
  VM_CHECK( k == kwsysProcess_Pipe_STDOUT || k == kwsysProcess_Pipe_STDERR, "unknown-pipe", "WaitForData returns " << k );
  VM_CHECK( data && len > 0 && len <= 65536, "no-data", "pipe " << k << " with " << len << " bytes" );
  if( timed ) { VM_CHECK( t >= 0 && t <= std::max( asked, 0. ), "timeout-grew", asked << " became " << t ); VM_CHECK( asked <= 0 || t >= asked - took - 0.002 || t == 0, "timeout-overcharged", asked << " became " << t << " in " << took << " s" ); }
  ( k == kwsysProcess_Pipe_STDOUT ? q.out : q.err ).append( data, static_cast< size_t >( len ) );
  vm::event( "pieces_read" );
  if( r.chance( 1, 30 ) ) { usleep( static_cast< useconds_t >( r.below( 2000 ) ) ); }
  return true;
}
void finish( vm::Rng& r, Proc& q )
{
  for( ;; )
  {
    if( r.chance( 1, 2 ) )
    {
      VM_CHECK( kwsysProcess_WaitForExit( q.p, nullptr ) == 1, "exit-not-waited", "WaitForExit without a timeout returns 0" );
      break;
    }
    double t = r.pick( std::vector< double >{ 0, 0.001, 0.01, 10 } ), asked = t, t0 = now();
    int k = kwsysProcess_WaitForExit( q.p, &t );
    double took = now() - t0;
    if( k == 1 ) { break; }
    VM_CHECK( k == 0 && took >= asked - 0.002, "exit-timeout-early", "a wait of " << asked << " s ends after " << took << " with " << k );
    if( asked <= 0 ) { usleep( 300 ); }
  }
}
void take_all( vm::Rng& r, Proc& q ) { while( step( r, q ) ) { } finish( r, q ); }

Str state_name( int s )
{
  char const* n[] = { "starting", "error", "exception", "executing", "exited", "expired", "killed", "disowned" };
  return s >= 0 && s < 8 ? n[ s ] : "?";
}
Str describe( kwsysProcess* p )
{
  std::ostringstream o;
  int s = kwsysProcess_GetState( p );
  o << state_name( s ) << " value " << kwsysProcess_GetExitValue( p ) << " exception " << kwsysProcess_GetExitException( p )
    << " \"" << kwsysProcess_GetErrorString( p ) << "\" \"" << kwsysProcess_GetExceptionString( p ) << "\"";
  return o.str();
}
void same( Str const& got, Str const& want, char const* what, Str const& line )
{
  if( got == want ) { return; }
  size_t i = 0;
  while( i < got.size() && i < want.size() && got[ i ] == want[ i ] ) { ++i; }
  VM_FAIL( Str( "output-" ) + what, what << ": " << got.size() << " bytes of " << want.size() << ", different from byte " << i << " on | " << line );
}

// ---- what a child does -------------------------------------------------------
struct Plan
{
  Strs ops;
  Str out, err;
  Str both;                        // in the order written, for merged output
  int code = 0, sig = 0;
};
Str shown( Strs const& v ) { Str r; for( Str const& s : v ) { r += ( r.empty() ? "" : " " ) + ( s.size() > 60 ? s.substr( 0, 60 ) + "..." : s ); } return r; }

unsigned long volume( vm::Rng& r )
{
  switch( r.below( 8 ) )
  {
  case 0: return r.below( 4 );
  case 1: return static_cast< unsigned long >( r.range( 1020, 1030 ) );
  case 2: return static_cast< unsigned long >( r.range( 4090, 4100 ) );
  case 3: return static_cast< unsigned long >( r.range( 65530, 65545 ) );
  case 4: return r.below( 200000 );
  default: return r.below( 300 );
  }
}
Plan plan( vm::Rng& r, bool ends = true )
{
  Plan p;
  unsigned n = static_cast< unsigned >( r.below( 6 ) );
  for( unsigned i = 0; i < n; ++i )
  {
    if( r.chance( 1, 5 ) ) { p.ops.push_back( "s:" + std::to_string( r.below( 12 ) ) ); continue; }
    bool e = r.chance( 1, 3 );
    unsigned long v = volume( r ), k = r.below( 256 ), c = r.pick( std::vector< unsigned long >{ 0, 1024, 4096, 100, 7 } );
    if( v / ( c ? c : 65536 ) > 600 ) { c = 0; }
    p.ops.push_back( Str( e ? "e:" : "o:" ) + std::to_string( v ) + ":" + std::to_string( k ) + ":" + std::to_string( c ) );
    Str s = stream( v, k );
    ( e ? p.err : p.out ) += s;
    p.both += s;
  }
  if( !ends ) { return p; }
  if( r.chance( 1, 15 ) ) { p.ops.push_back( "C:1" ); }
  if( r.chance( 1, 15 ) ) { p.ops.push_back( "C:2" ); }
  if( r.chance( 1, 8 ) ) { p.ops.push_back( "s:" + std::to_string( r.below( 15 ) ) ); }
  if( r.chance( 1, 3 ) )
  {
    p.sig = r.pick( std::vector< int >{ SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGINT, SIGABRT, SIGKILL, SIGTERM, SIGHUP, SIGUSR1, SIGPIPE, SIGALRM, SIGXCPU, SIGRTMIN + 3, SIGUSR2, SIGSTKFLT, SIGXFSZ, SIGVTALRM, SIGPROF, SIGPOLL, SIGPWR, SIGSYS, SIGQUIT, SIGTRAP, 64 } );
    p.ops.push_back( "k:" + std::to_string( p.sig ) );
  }
  else if( r.chance( 4, 5 ) )
  {
    p.code = r.chance( 1, 3 ) ? 0 : static_cast< int >( r.below( 256 ) );
    p.ops.push_back( "x:" + std::to_string( p.code ) );
  }
  return p;
}
Strs command( Strs const& ops ) { Strs r = { child }; r.insert( r.end(), ops.begin(), ops.end() ); return r; }

void outcome( kwsysProcess* p, int code, int sig, Str const& line )
{
  int s = kwsysProcess_GetState( p );
  if( sig == 0 )
  {
    VM_CHECK( s == kwsysProcess_State_Exited && kwsysProcess_GetExitValue( p ) == code, "exit-value", "exit " << code << " is reported as " << describe( p ) << " | " << line );
    VM_CHECK( WIFEXITED( kwsysProcess_GetExitCode( p ) ) && WEXITSTATUS( kwsysProcess_GetExitCode( p ) ) == code, "exit-code", "exit " << code << " has code " << kwsysProcess_GetExitCode( p ) );
    VM_CHECK( kwsysProcess_GetExitException( p ) == kwsysProcess_Exception_None, "exit-exception", "a normal exit has exception " << kwsysProcess_GetExitException( p ) );
    vm::event( "exits" );
    return;
  }
  int want = kwsysProcess_Exception_Other;
  switch( sig )
  {
  case SIGSEGV: case SIGBUS: want = kwsysProcess_Exception_Fault; break;
  case SIGFPE: want = kwsysProcess_Exception_Numerical; break;
  case SIGILL: want = kwsysProcess_Exception_Illegal; break;
  case SIGINT: want = kwsysProcess_Exception_Interrupt; break;
  }
  VM_CHECK( s == kwsysProcess_State_Exception && kwsysProcess_GetExitException( p ) == want, "exception", "signal " << sig << " is reported as " << describe( p ) << " | " << line );
  VM_CHECK( WIFSIGNALED( kwsysProcess_GetExitCode( p ) ) && WTERMSIG( kwsysProcess_GetExitCode( p ) ) == sig, "exception-code", "signal " << sig << " has code " << kwsysProcess_GetExitCode( p ) );
  VM_CHECK( Str( kwsysProcess_GetExceptionString( p ) ) != "" && Str( kwsysProcess_GetExceptionString( p ) ) != "No exception", "exception-text", "signal " << sig << " is described as \"" << kwsysProcess_GetExceptionString( p ) << "\"" );
  // what is said is about that signal
  static std::map< int, Str > const words = { { SIGSEGV, "Segmentation fault" }, { SIGBUS, "Bus error" }, { SIGFPE, "Floating-point exception" }, { SIGILL, "Illegal instruction" }, { SIGINT, "User interrupt" },
    { SIGABRT, "Child aborted" }, { SIGKILL, "Child killed" }, { SIGTERM, "Child terminated" } };
  char const* ab = sigabbrev_np( sig );
  Str said = words.count( sig ) ? words.at( sig ) : ab ? Str( "SIG" ) + ab : "Signal " + std::to_string( sig );
  VM_CHECK( Str( kwsysProcess_GetExceptionString( p ) ) == said, "exception-text", "signal " << sig << " is described as \"" << kwsysProcess_GetExceptionString( p ) << "\"" );
  vm::event( "signalled" );
}
void refused( kwsysProcess* p, int err, Str const& what )
{
  VM_CHECK( kwsysProcess_GetState( p ) == kwsysProcess_State_Error, "failure-unnoticed", what << " is reported as " << describe( p ) );
  if( err ) { VM_CHECK( Str( kwsysProcess_GetErrorString( p ) ) == std::strerror( err ), "failure-text", what << " is described as \"" << kwsysProcess_GetErrorString( p ) << "\", not \"" << std::strerror( err ) << "\"" ); }
  char* d; int l;
  VM_CHECK( kwsysProcess_WaitForData( p, &d, &l, nullptr ) == kwsysProcess_Pipe_None && kwsysProcess_WaitForExit( p, nullptr ) == 1, "failure-goes-on", "data or exit still expected after " << what );
}

// ---- the kinds of case ---------------------------------------------------------
void one( vm::Rng& r )
{
  Proc q;
  unsigned times = r.chance( 1, 4 ) ? 3 : 1;
  bool merge = r.chance( 1, 4 ), group = r.chance( 1, 4 );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_MergeOutput, merge );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, group );
  if( r.chance( 1, 2 ) ) { kwsysProcess_SetTimeout( q.p, r.pick( std::vector< double >{ 0, -3, 40.25, 1e6, 33 } ) ); }
  for( unsigned t = 0; t < times; ++t )
  {
    Plan p = plan( r );
    Str line = shown( p.ops ) + ( merge ? " (merged)" : "" );
    vm::note( line );
    // in a new process every handler is the default one again, and the mask is the parent's
    add( q.p, command( p.ops ), t > 0 || r.chance( 1, 2 ) );
    q.out.clear(); q.err.clear();
    kwsysProcess_Execute( q.p );
    VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Executing, "not-started", describe( q.p ) << " | " << line );
    if( r.chance( 1, 8 ) ) { kwsysProcess_Execute( q.p ); vm::event( "started_twice" ); }
    if( r.chance( 1, 10 ) )
    {
      finish( r, q );
      vm::event( "data_ignored" );
    }
    else
    {
      take_all( r, q );
      same( q.out, merge ? p.both : p.out, "stdout", line );
      same( q.err, merge ? "" : p.err, "stderr", line );
      vm::event( "bytes_received", q.out.size() + q.err.size() );
      if( merge && !p.both.empty() ) { vm::event( "merged" ); }
    }
    outcome( q.p, p.code, p.sig, line );
    if( p.out.size() > 65536 || p.err.size() > 65536 ) { vm::event( "more_than_a_pipe_holds" ); }
    vm::sig( line );
    if( t ) { vm::event( "object_used_again" ); }
  }
}

void pipeline( vm::Rng& r )
{
  Proc q;
  unsigned n = static_cast< unsigned >( r.range( 2, 5 ) );
  bool merge = r.chance( 1, 4 ), early = r.chance( 1, 4 );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_MergeOutput, merge );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, r.chance( 1, 4 ) );
  Str data, errs, line;
  int code = 0, sig = 0;
  for( unsigned i = 0; i < n; ++i )
  {
    Strs ops;
    if( i == 0 )
    {
      unsigned long v = volume( r ), k = r.below( 256 );
      ops.push_back( "o:" + std::to_string( v ) + ":" + std::to_string( k ) + ":0" );
      data = stream( v, k );
    }
    else if( early && i + 1 == n )
    {
      // the last one reads a part and leaves: those before are cut off, not hung
      unsigned long v = r.below( 20 );
      ops.push_back( "r:" + std::to_string( v ) );
      data = data.substr( 0, v );
    }
    else
    {
      unsigned k = static_cast< unsigned >( r.below( 256 ) );
      ops.push_back( "c:" + std::to_string( k ) );
      for( char& c : data ) { c = static_cast< char >( c ^ static_cast< char >( k ) ); }
    }
    if( !early && r.chance( 1, 3 ) ) { unsigned long v = r.below( 100 ); ops.push_back( "e:" + std::to_string( v ) + ":" + std::to_string( i ) + ":0" ); errs += stream( v, i ); }
    if( i + 1 == n ) { if( r.chance( 1, 4 ) ) { sig = SIGTERM; ops.push_back( "k:15" ); } else { code = static_cast< int >( r.below( 256 ) ); ops.push_back( "x:" + std::to_string( code ) ); } }
    else if( r.chance( 1, 3 ) ) { ops.push_back( "x:" + std::to_string( r.below( 256 ) ) ); }
    else if( r.chance( 1, 6 ) ) { ops.push_back( "k:9" ); }
    add( q.p, command( ops ) );
    line += ( i ? " | " : "" ) + shown( ops );
  }
  vm::note( line );
  kwsysProcess_Execute( q.p );
  VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Executing, "not-started", describe( q.p ) << " | " << line );
  take_all( r, q );
  if( merge && !errs.empty() )                  // of several writers, in any order
  {
    Str a = q.out, b = data + errs;
    std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
    VM_CHECK( a == b, "pipeline-merged", q.out.size() << " bytes of " << b.size() << " | " << line );
    same( q.err, "", "pipeline-merged-stderr", line );
    vm::event( "pipelines_merged" );
  }
  else { same( q.out, data, "pipeline", line ); }
  if( !merge )
  {
    Str a = q.err, b = errs;                    // of several writers, in any order
    std::sort( a.begin(), a.end() ); std::sort( b.begin(), b.end() );
    VM_CHECK( a == b, "pipeline-stderr", q.err.size() << " bytes of " << errs.size() << " | " << line );
  }
  outcome( q.p, code, sig, line );
  vm::event( "pipelines" );
  if( early ) { vm::event( "pipelines_cut_off" ); }
  vm::sig( line );
}

// several processes at once
void several( vm::Rng& r )
{
  unsigned n = static_cast< unsigned >( r.range( 2, 6 ) );
  std::vector< std::unique_ptr< Proc > > q;
  std::vector< Plan > p;
  for( unsigned i = 0; i < n; ++i ) { p.push_back( plan( r ) ); q.emplace_back( new Proc ); add( q[ i ]->p, command( p[ i ].ops ) ); }
  Str line;
  for( auto const& x : p ) { line += shown( x.ops ) + " & "; }
  vm::note( line );
  std::vector< bool > started( n ), ended( n ), gone( n );
  unsigned left = n;
  while( left )
  {
    unsigned i = static_cast< unsigned >( r.below( n ) );
    if( gone[ i ] ) { continue; }
    if( !started[ i ] )
    {
      kwsysProcess_Execute( q[ i ]->p ); started[ i ] = true;
      VM_CHECK( kwsysProcess_GetState( q[ i ]->p ) == kwsysProcess_State_Executing, "not-started", describe( q[ i ]->p ) << " | " << line );
    }
    else if( !ended[ i ] )
    {
      char* data = nullptr; int len = 0;
      double t = r.chance( 1, 2 ) ? 0 : 0.002;
      int k = kwsysProcess_WaitForData( q[ i ]->p, &data, &len, &t );
      if( k == kwsysProcess_Pipe_STDOUT ) { q[ i ]->out.append( data, static_cast< size_t >( len ) ); }
      else if( k == kwsysProcess_Pipe_STDERR ) { q[ i ]->err.append( data, static_cast< size_t >( len ) ); }
      else if( k == kwsysProcess_Pipe_None ) { ended[ i ] = true; }
    }
    else
    {
      double t = 0.002;
      if( kwsysProcess_WaitForExit( q[ i ]->p, &t ) )
      {
        same( q[ i ]->out, p[ i ].out, "stdout", line );
        same( q[ i ]->err, p[ i ].err, "stderr", line );
        outcome( q[ i ]->p, p[ i ].code, p[ i ].sig, line );
        gone[ i ] = true; --left;
        if( r.chance( 1, 2 ) ) { q[ i ].reset(); }
      }
    }
  }
  vm::event( "several_at_once" );
  vm::sig( line );
}

// where input and output come from and go to
void redirected( vm::Rng& r )
{
  Str d = vm::dir() + "/w";
  vm::rmtree( d );
  mkdir( d.c_str(), 0700 );
  bool in_dir = r.chance( 1, 2 );
  Proc q;
  if( in_dir ) { VM_CHECK( kwsysProcess_SetWorkingDirectory( q.p, d.c_str() ) == 1, "directory-refused", "SetWorkingDirectory" ); }
  auto path = [ & ]( char const* f ) { return in_dir && r.chance( 1, 2 ) ? Str( f ) : d + "/" + f; };
  Str in = stream( volume( r ), r.below( 256 ) ), err = stream( r.below( 3000 ), 7 );
  unsigned k = static_cast< unsigned >( r.below( 256 ) );
  Str want = in;
  for( char& c : want ) { c = static_cast< char >( c ^ static_cast< char >( k ) ); }
  int how_in = static_cast< int >( r.below( 3 ) ), how_out = static_cast< int >( r.below( 4 ) ), how_err = static_cast< int >( r.below( 4 ) );
  int keep1 = -1, keep2 = -1, nin[ 2 ], nout[ 2 ], nerr[ 2 ];
  Str line = "in " + std::to_string( how_in ) + " out " + std::to_string( how_out ) + " err " + std::to_string( how_err ) + " " + std::to_string( in.size() );
  vm::note( line );
  Strs ops;
  if( how_in != 2 ) { ops.push_back( "c:" + std::to_string( k ) ); } else { ops.push_back( "c:0" ); want = ""; }
  ops.push_back( "e:" + std::to_string( err.size() ) + ":7:0" );
  ops.push_back( "w" );
  ops.push_back( "x:3" );
  want += ( in_dir ? d : world().cwd ) + "\n";
  add( q.p, command( ops ) );
  pid_t feeder = 0;
  switch( how_in )
  {
  case 0: vm::spit( d + "/in", in ); kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDIN, path( "in" ).c_str() ); vm::event( "input_from_file" ); break;
  case 1:
    syscall( SYS_pipe2, nin, 0 );
    kwsysProcess_SetPipeNative( q.p, kwsysProcess_Pipe_STDIN, nin );
    vm::event( "input_from_pipe" );
    break;
  default: kwsysProcess_SetPipeShared( q.p, kwsysProcess_Pipe_STDIN, 0 ); vm::event( "no_input" ); break;
  }
  auto redirect = [ & ]( int how, int pipe_id, char const* f, int fd, int* keep, int* native )
  {
    if( how == 0 ) { return; }
    if( how == 1 )
    {
      if( r.chance( 1, 2 ) ) { vm::spit( d + "/" + f, "to be overwritten, whatever its length" ); }
      kwsysProcess_SetPipeFile( q.p, pipe_id, path( f ).c_str() );
      vm::event( "output_to_file" );
    }
    if( how == 2 )
    {
      // the parent's own descriptor, here a file for the time being
      *keep = fcntl( fd, F_DUPFD_CLOEXEC, 60 );
      int g = open( ( d + "/" + f ).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
      dup2( g, fd ); close( g );
      kwsysProcess_SetPipeShared( q.p, pipe_id, 1 );
      vm::event( "output_shared" );
    }
    if( how == 3 )
    {
      syscall( SYS_pipe2, native, O_CLOEXEC );
      fcntl( native[ 1 ], F_SETPIPE_SZ, 1 << 20 );   // holds all of it
      kwsysProcess_SetPipeNative( q.p, pipe_id, native );
      vm::event( "output_to_pipe" );
    }
  };
  redirect( how_out, kwsysProcess_Pipe_STDOUT, "out", 1, &keep1, nout );
  redirect( how_err, kwsysProcess_Pipe_STDERR, "err", 2, &keep2, nerr );
  kwsysProcess_Execute( q.p );
  int st = kwsysProcess_GetState( q.p );
  if( how_in == 1 && st == kwsysProcess_State_Executing )
  {
    // written by another process, so that nothing waits for us
    feeder = static_cast< pid_t >( syscall( SYS_fork ) );
    if( feeder == 0 )
    {
      size_t off = 0;
      while( off < in.size() ) { ssize_t n = write( nin[ 1 ], in.data() + off, in.size() - off ); if( n <= 0 ) { break; } off += static_cast< size_t >( n ); }
      _exit( 0 );
    }
    close( nin[ 1 ] );
  }
  if( keep1 >= 0 ) { dup2( keep1, 1 ); close( keep1 ); }
  if( keep2 >= 0 ) { dup2( keep2, 2 ); close( keep2 ); }
  VM_CHECK( st == kwsysProcess_State_Executing, "not-started", describe( q.p ) << " | " << line );
  take_all( r, q );
  if( feeder > 0 ) { int s; while( waitpid( feeder, &s, 0 ) < 0 && errno == EINTR ) { } }
  auto drain = []( int fd ) { Str s; char b[ 65536 ]; ssize_t n; while( ( n = read( fd, b, sizeof b ) ) > 0 ) { s.append( b, static_cast< size_t >( n ) ); } close( fd ); return s; };
  Str out = how_out == 0 ? q.out : how_out == 3 ? drain( nout[ 0 ] ) : vm::slurp( d + "/out" );
  Str er = how_err == 0 ? q.err : how_err == 3 ? drain( nerr[ 0 ] ) : vm::slurp( d + "/err" );
  if( how_out ) { VM_CHECK( q.out.empty(), "redirected-twice", "redirected output also came through the pipe | " << line ); }
  same( out, want, "redirected-stdout", line );
  same( er, err, "redirected-stderr", line );
  outcome( q.p, 3, 0, line );
  vm::sig( line );
}

void arguments( vm::Rng& r )
{
  Proc q;
  Strs a;
  unsigned n = static_cast< unsigned >( r.chance( 1, 10 ) ? r.range( 100, 1500 ) : r.range( 0, 8 ) );
  bool verbatim = r.chance( 1, 2 );
  for( unsigned i = 0; i < n; ++i )
  {
    Str s;
    size_t l = r.chance( 1, 20 ) ? r.below( 20000 ) : r.below( 14 );
    for( size_t j = 0; j < l; ++j ) { s += r.chance( 1, 2 ) ? r.pick( "ab\\\"' \t$*;|&<>()`\n=-" ) : static_cast< char >( r.range( 1, 255 ) ); }
    a.push_back( s );
  }
  Strs all = { child, "a" };
  all.insert( all.end(), a.begin(), a.end() );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_Verbatim, verbatim );
  if( verbatim )
  {
    Str line;
    for( Str const& s : all )
    {
      line += line.empty() ? "" : r.str( " \t\n", 1, 3 );
      // any mixture of quoting that means this argument
      if( s.empty() ) { line += r.chance( 1, 2 ) ? "\"\"" : "''"; continue; }
      for( size_t i = 0; i < s.size(); )
      {
        size_t m = 1 + r.below( 9 );
        Str part = s.substr( i, m );
        i += part.size();
        int how = static_cast< int >( r.below( 3 ) );
        if( how == 0 && part.find_first_of( "'\\" ) == Str::npos ) { line += "'" + part + "'"; }
        else if( how == 1 )
        {
          line += '"';
          for( char c : part ) { if( c == '"' || c == '\\' ) { line += '\\'; } line += c; }
          line += '"';
        }
        else { for( char c : part ) { if( std::strchr( "\\\"' \t\n\v\f\r", c ) || r.chance( 1, 10 ) ) { line += '\\'; } line += c; } }
      }
    }
    if( r.chance( 1, 3 ) ) { line += " \n"; }
    add( q.p, Strs{ line, "this is not looked at" } );
    vm::event( "verbatim_lines" );
  }
  else { add( q.p, all ); vm::event( "argument_vectors" ); }
  vm::note( "arguments" );
  kwsysProcess_Execute( q.p );
  VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Executing, "not-started", describe( q.p ) );
  take_all( r, q );
  Str want;
  for( Str const& s : a ) { want += std::to_string( s.size() ) + ":" + s; }
  VM_CHECK( q.out == want, verbatim ? "verbatim-arguments" : "arguments", "the child got " << vm::show( q.out.substr( 0, 300 ) ) << ", not " << vm::show( want.substr( 0, 300 ) ) );
  outcome( q.p, 0, 0, "arguments" );
  vm::sig( want );
}

void not_started( vm::Rng& r )
{
  Str d = vm::dir() + "/w";
  vm::rmtree( d );
  mkdir( d.c_str(), 0700 );
  vm::spit( d + "/plain", "not a program" );
  Proc q;
  unsigned times = static_cast< unsigned >( r.range( 1, 4 ) );
  for( unsigned t = 0; t < times; ++t )
  {
    kwsysProcess_SetCommand( q.p, nullptr );
    kwsysProcess_SetWorkingDirectory( q.p, nullptr );
    kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDIN, nullptr );
    kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDOUT, nullptr );
    kwsysProcess_SetPipeShared( q.p, kwsysProcess_Pipe_STDIN, 1 );
    bool detach = r.chance( 1, 4 );
    kwsysProcess_SetOption( q.p, kwsysProcess_Option_Detach, detach );
    delay_report = detach && r.chance( 1, 2 ) ? 20000 : 0;
    unsigned n = static_cast< unsigned >( r.range( 1, 3 ) ), bad = static_cast< unsigned >( r.below( n ) );
    int how = static_cast< int >( r.below( 6 ) );
    Str marker = d + "/ran";
    unlink( marker.c_str() );
    for( unsigned i = 0; i < n; ++i )
    {
      if( i == bad && how == 0 ) { add( q.p, Strs{ d + "/missing", "x" } ); }
      else if( i == bad && how == 1 ) { add( q.p, Strs{ d + "/plain" } ); }
      else if( i == bad && how == 2 ) { add( q.p, Strs{ d } ); }
      else { add( q.p, Strs{ child, "s:20000", "x:0" } ); }
    }
    int err = how == 0 ? ENOENT : how <= 2 ? EACCES : ENOENT;
    if( how == 3 ) { kwsysProcess_SetWorkingDirectory( q.p, ( d + "/nowhere" ).c_str() ); }
    if( how == 4 ) { kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDIN, ( d + "/nothing" ).c_str() ); }
    if( how == 5 ) { kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDOUT, ( d + "/nowhere/out" ).c_str() ); }
    if( how < 3 && r.chance( 1, 2 ) ) { kwsysProcess_SetWorkingDirectory( q.p, d.c_str() ); }
    Str line = "failure " + std::to_string( how ) + " at " + std::to_string( bad ) + " of " + std::to_string( n ) + ( detach ? " detached" : "" ) + ", attempt " + std::to_string( t );
    vm::note( line );
    double t0 = now();
    kwsysProcess_Execute( q.p );
    delay_report = 0;
    refused( q.p, err, line );
    VM_CHECK( now() - t0 < 15, "failure-waits", line << " takes " << now() - t0 << " s" );
    vm::event( "not_started" );
    if( detach ) { vm::event( "not_started_detached" ); }
    vm::sig( line );
    no_children( line );
  }
  // and the same object still works
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_Detach, 0 );
  kwsysProcess_SetWorkingDirectory( q.p, nullptr );
  kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDIN, nullptr );
  kwsysProcess_SetPipeFile( q.p, kwsysProcess_Pipe_STDOUT, nullptr );
  kwsysProcess_SetPipeShared( q.p, kwsysProcess_Pipe_STDIN, 1 );
  Plan p = plan( r );
  add( q.p, command( p.ops ), true );
  kwsysProcess_Execute( q.p );
  take_all( r, q );
  same( q.out, p.out, "stdout", "after a failure" );
  outcome( q.p, p.code, p.sig, "after a failure" );
  // a working directory that is gone
  if( r.chance( 1, 3 ) )
  {
    Str gone = d + "/gone", home = world().cwd;
    mkdir( gone.c_str(), 0700 );
    syscall( SYS_chdir, gone.c_str() );
    rmdir( gone.c_str() );
    kwsysProcess_SetWorkingDirectory( q.p, d.c_str() );
    allowed_dirs = Strs{ d };
    kwsysProcess_Execute( q.p );
    allowed_dirs.clear();
    refused( q.p, ENOENT, "the working directory is gone" );
    VM_CHECK( stray.empty(), "working-directory-changed", "with the working directory gone: " << stray[ 0 ] );
    VM_CHECK( world().cwd == "gone", "working-directory-changed", "from a removed one to " << world().cwd );
    syscall( SYS_chdir, home.c_str() );
    vm::event( "directory_gone" );
  }
  // no command, no object
  Proc e;
  VM_CHECK( kwsysProcess_AddCommand( e.p, nullptr ) == 0, "null-command", "a null command is taken" );
  char const* none[] = { nullptr };
  VM_CHECK( kwsysProcess_AddCommand( e.p, none ) == 0, "empty-command", "an empty command is taken" );
  kwsysProcess_SetOption( e.p, kwsysProcess_Option_Verbatim, 1 );
  char const* blank[] = { "  ", nullptr };
  VM_CHECK( kwsysProcess_AddCommand( e.p, blank ) == 0, "empty-command", "a blank command line is taken" );
  kwsysProcess_Execute( e.p );
  refused( e.p, 0, "no command" );
  kwsysProcess_Execute( nullptr );
  VM_CHECK( kwsysProcess_GetState( nullptr ) == kwsysProcess_State_Error, "null-object", "a null object has no error" );
}

// the system refuses descriptors or processes
void resources( vm::Rng& r )
{
  Proc q;
  unsigned n = static_cast< unsigned >( r.range( 1, 3 ) );
  bool detach = r.chance( 1, 4 ), group = r.chance( 1, 3 ), many = r.chance( 1, 6 );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_Detach, detach );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, group );
  if( r.chance( 1, 3 ) ) { kwsysProcess_SetWorkingDirectory( q.p, vm::dir().c_str() ); }
  for( unsigned i = 0; i < n; ++i ) { add( q.p, Strs{ child, "o:300:5:0", "s:30" } ); }
  std::vector< int > held;
  Str line = std::to_string( n ) + ( detach ? " detached" : "" );
  World w;
  if( many )
  {
    unsigned to = static_cast< unsigned >( r.range( 1010, 1040 ) );
    for( ;; ) { int f = open( "/dev/null", O_RDONLY | O_CLOEXEC ); if( f < 0 ) { break; } held.push_back( f ); if( f >= static_cast< int >( to ) ) { break; } }
    line += " with " + std::to_string( to ) + " descriptors open";
    w = world();
  }
  else if( r.chance( 1, 2 ) ) { fork_fail = static_cast< int >( 1 + r.below( n ) ) + ( detach && r.chance( 1, 2 ) ? static_cast< int >( r.below( 2 ) ) : 0 ); line += " fork " + std::to_string( fork_fail ); }
  else { pipe_fail = static_cast< int >( 1 + r.below( 4 + 3 * n ) ); line += " pipe " + std::to_string( pipe_fail ); }
  vm::note( line );
  unsigned f0 = faults;
  bool was_fork = fork_fail != 0;
  kwsysProcess_Execute( q.p );
  fork_fail = pipe_fail = 0;
  VM_CHECK( stray.empty(), "signal-to-others", line << ": would have sent " << stray[ 0 ] );
  int st = kwsysProcess_GetState( q.p );
  if( st == kwsysProcess_State_Error )
  {
    VM_CHECK( many || faults > f0 || detach, "not-started", describe( q.p ) << " | " << line );
    refused( q.p, many || detach ? 0 : was_fork ? EAGAIN : EMFILE, line );
    VM_CHECK( Str( kwsysProcess_GetErrorString( q.p ) ) != "", "failure-text", "no description | " << line );
    vm::event( was_fork ? "fork_failures" : many ? "descriptor_limits" : "pipe_failures" );
  }
  else
  {
    VM_CHECK( st == kwsysProcess_State_Executing && ( faults == f0 ), "failure-unnoticed", describe( q.p ) << " | " << line );
    take_all( r, q );
    if( n == 1 ) { same( q.out, stream( 300, 5 ), "stdout", line ); }
    if( many ) { vm::event( "many_descriptors" ); }
  }
  if( many ) { same_world( w, line ); }
  for( int f : held ) { close( f ); }
  vm::sig( line );
}

void ended_early( vm::Rng& r )
{
  Str d = vm::dir() + "/w", pids = d + "/pids";
  vm::rmtree( d );
  mkdir( d.c_str(), 0700 );
  Proc q;
  unsigned n = static_cast< unsigned >( r.range( 1, 3 ) );
  bool group = r.chance( 1, 3 ), timeout = r.chance( 1, 2 ), lives = r.chance( 3, 4 );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, group );
  double limit = r.pick( std::vector< double >{ 0.02, 0.05, 0.12, 0.2, 0.0001 } );
  if( timeout ) { kwsysProcess_SetTimeout( q.p, limit ); }
  if( timeout ) { lives = true; }
  Plan p = plan( r, false );
  Str line;
  for( unsigned i = 0; i < n; ++i )
  {
    Strs ops;
    if( i + 1 == n ) { ops = p.ops; }
    if( r.chance( 1, 3 ) ) { ops.insert( ops.begin(), "F:20000:" + pids ); }
    if( r.chance( 1, 3 ) ) { ops.insert( ops.begin(), "i" ); }
    ops.push_back( lives ? "s:20000" : "s:3" );
    add( q.p, command( ops ) );
    line += shown( ops ) + " | ";
  }
  line += timeout ? "timeout " + vm::str( limit ) : "killed";
  vm::note( line );
  double t0 = now();
  kwsysProcess_Execute( q.p );
  VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Executing, "not-started", describe( q.p ) << " | " << line );
  if( timeout )
  {
    if( r.chance( 1, 3 ) ) { VM_CHECK( kwsysProcess_WaitForExit( q.p, nullptr ) == 1, "exit-not-waited", line ); }
    else { take_all( r, q ); }
    double took = now() - t0;
    VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Expired, "not-expired", "a timeout is reported as " << describe( q.p ) << " | " << line );
    VM_CHECK( took >= limit - 0.003, "expired-early", "a timeout of " << limit << " s ends after " << took );
    VM_CHECK( took < limit + 15, "expired-late", "a timeout of " << limit << " s ends after " << took << " | " << line );
    vm::event( "expired" );
  }
  else
  {
    unsigned reads = static_cast< unsigned >( r.below( 5 ) );
    bool more = true;
    for( unsigned i = 0; i < reads && more; ++i )
    {
      char* data; int len; double t = 0.02;
      int k = kwsysProcess_WaitForData( q.p, &data, &len, &t );
      if( k == kwsysProcess_Pipe_STDOUT ) { q.out.append( data, static_cast< size_t >( len ) ); }
      else if( k == kwsysProcess_Pipe_STDERR ) { q.err.append( data, static_cast< size_t >( len ) ); }
      else if( k == kwsysProcess_Pipe_None ) { more = false; }
    }
    usleep( static_cast< useconds_t >( r.below( 8000 ) ) );
    kwsysProcess_Kill( q.p );
    if( r.chance( 1, 4 ) ) { kwsysProcess_Kill( q.p ); }
    char* data; int len;
    VM_CHECK( kwsysProcess_WaitForData( q.p, &data, &len, nullptr ) == kwsysProcess_Pipe_None, "data-after-kill", line );
    VM_CHECK( kwsysProcess_WaitForExit( q.p, nullptr ) == 1, "exit-not-waited", line );
    int st = kwsysProcess_GetState( q.p );
    VM_CHECK( st == kwsysProcess_State_Killed || ( !lives && st == kwsysProcess_State_Exited ), "not-killed", "killing is reported as " << describe( q.p ) << " | " << line );
    vm::event( "killed" );
  }
  VM_CHECK( p.out.compare( 0, q.out.size(), q.out ) == 0 && p.err.compare( 0, q.err.size(), q.err ) == 0, "output-before-end", "what was received is not how the output begins | " << line );
  if( lives ) { no_children( line ); }
  else { no_children( line, true ); }
  if( access( pids.c_str(), F_OK ) == 0 && lives ) { vm::event( "grandchildren_ended" ); }
  vm::sig( line );
  // and again
  if( r.chance( 1, 3 ) )
  {
    kwsysProcess_SetTimeout( q.p, 0 );
    Plan p2 = plan( r );
    add( q.p, command( p2.ops ), true );
    q.out.clear(); q.err.clear();
    kwsysProcess_Execute( q.p );
    take_all( r, q );
    same( q.out, p2.out, "stdout", "after " + line );
    outcome( q.p, p2.code, p2.sig, "after " + line );
  }
}

void interrupted( vm::Rng& r )
{
  Proc q;
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, 1 );
  int how = static_cast< int >( r.below( 3 ) ), code = static_cast< int >( r.below( 256 ) );
  Strs ops;
  // the commands before the last: each in a group of its own, and each is interrupted
  unsigned before = r.chance( 1, 2 ) ? 0 : static_cast< unsigned >( r.range( 1, 4 ) );
  for( unsigned i = 0; i < before; ++i ) { add( q.p, command( r.chance( 1, 2 ) ? Strs{ "s:20000" } : Strs{ "h:7", "s:20000" } ) ); }
  if( how == 1 ) { ops.push_back( "h:" + std::to_string( code ) ); }
  if( how == 2 ) { ops.push_back( "i" ); }
  ops.push_back( "g" );
  ops.push_back( "s:20000" );
  add( q.p, command( ops ) );
  mine.clear();
  kwsysProcess_Execute( q.p );
  groups = mine;
  Str line = "interrupt, after " + std::to_string( before ) + " commands " + shown( ops );
  vm::note( line );
  while( q.out.size() < 4 ) { if( !step( r, q ) ) { break; } }
  VM_CHECK( q.out == "own\n", "process-group", "the child's group and session are \"" << q.out << "\"" );
  kwsysProcess_Interrupt( q.p );
  VM_CHECK( stray.empty(), "signal-to-others", line << ": would have sent " << stray[ 0 ] );
  if( how == 2 )
  {
    double t = 0.02;
    VM_CHECK( kwsysProcess_WaitForExit( q.p, &t ) == 0, "interrupt-ended-it", "a child that ignores interrupts has ended: " << describe( q.p ) );
    double end = now() + 10;
    for( unsigned i = 0; i < before && i < mine.size(); )
    {
      if( !runs( mine[ i ] ) ) { ++i; continue; }
      VM_CHECK( now() < end, "interrupt-lost", "command " << i << " still runs after an " << line );
      usleep( 500 );
    }
    kwsysProcess_Kill( q.p );
    kwsysProcess_WaitForExit( q.p, nullptr );
    VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Killed, "not-killed", describe( q.p ) );
  }
  else
  {
    double t = 15;
    VM_CHECK( kwsysProcess_WaitForExit( q.p, &t ) == 1, "interrupt-lost", line << " has no effect" );
    outcome( q.p, how == 1 ? code : 0, how == 1 ? 0 : SIGINT, line );
  }
  groups.clear();
  vm::event( "interrupted" );
  if( before ) { vm::event( "pipelines_interrupted" ); }
  vm::sig( line );
}

// without a group of its own, a child is interrupted together with the whole group of this process
void all_interrupted( vm::Rng& r )
{
  int fd[ 2 ];
  bool ignores = r.chance( 1, 3 );
  vm::note( Str( "interrupt of the own group, the child " ) + ( ignores ? "ignores it" : "does not" ) );
  if( syscall( SYS_pipe2, fd, O_CLOEXEC ) ) { return; }
  pid_t p = fork();
  if( p == 0 )
  {
    setsid();
    signal( SIGINT, SIG_DFL ); signal( SIGTERM, SIG_DFL );
    mine.clear(); forked = false; own_group = true;
    {
      Proc q;
      add( q.p, ignores ? Strs{ child, "i", "o:1:1:0", "s:150" } : Strs{ child, "o:1:1:0", "s:20000" } );
      kwsysProcess_Execute( q.p );
      char* data; int len;
      kwsysProcess_WaitForData( q.p, &data, &len, nullptr );
      if( write( fd[ 1 ], "r", 1 ) != 1 ) { _exit( 1 ); }
      kwsysProcess_Interrupt( q.p );
    }
    _exit( 2 );
  }
  close( fd[ 1 ] );
  char c;
  ssize_t n;
  double t0 = now();
  while( ( n = read( fd[ 0 ], &c, 1 ) ) < 0 && errno == EINTR ) { }
  close( fd[ 0 ] );
  int st = 0;
  while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) { }
  VM_CHECK( n == 1 && WIFSIGNALED( st ) && WTERMSIG( st ) == SIGINT, "group-interrupt", "a process that interrupts its group and runs a child in it has status " << st );
  VM_CHECK( now() - t0 < 15, "group-interrupt-late", "ending takes " << now() - t0 << " s" );
  mine.clear();
  no_children( "the group was interrupted" );
  vm::event( "groups_interrupted" );
  vm::sig( vm::mix( 77u + ignores ) );
}

// what is set is what is told; without an object nothing happens
void settings( vm::Rng& r )
{
  Proc q;
  int const names[] = { kwsysProcess_Option_Detach, kwsysProcess_Option_MergeOutput, kwsysProcess_Option_Verbatim, kwsysProcess_Option_CreateProcessGroup };
  int want[ 4 ];
  for( int i = 0; i < 4; ++i ) { want[ i ] = kwsysProcess_GetOption( q.p, names[ i ] ); VM_CHECK( want[ i ] == 0, "option-default", "option " << names[ i ] << " is " << want[ i ] << " in a new object" ); }
  for( int k = 0; k < 12; ++k )
  {
    size_t i = r.below( 5 );
    int v = r.chance( 1, 2 );
    if( i == 4 ) { kwsysProcess_SetOption( q.p, 4711, v ); VM_CHECK( kwsysProcess_GetOption( q.p, 4711 ) == 0, "option-unknown", "" ); }
    else { kwsysProcess_SetOption( q.p, names[ i ], v ); want[ i ] = v; }
    for( int j = 0; j < 4; ++j ) { VM_CHECK( kwsysProcess_GetOption( q.p, names[ j ] ) == want[ j ], "option-lost", "option " << names[ j ] << " is " << kwsysProcess_GetOption( q.p, names[ j ] ) << " instead of " << want[ j ] ); }
  }
  VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Starting, "new-object", describe( q.p ) );
  // nothing to run, nothing to wait for, nothing to interrupt
  char* data = nullptr; int len = 0; double t = 0.001;
  kwsysProcess_Interrupt( q.p ); kwsysProcess_Kill( q.p ); kwsysProcess_Disown( q.p );
  VM_CHECK( kwsysProcess_WaitForData( q.p, &data, &len, &t ) == kwsysProcess_Pipe_None && kwsysProcess_WaitForExit( q.p, &t ) == 1, "wait-without-a-child", describe( q.p ) );
  kwsysProcess_Execute( q.p );
  refused( q.p, 0, "no command" );
  kwsysProcess* none = nullptr;
  char const* cmd[] = { child.c_str(), nullptr };
  kwsysProcess_Delete( none );
  VM_CHECK( kwsysProcess_SetCommand( none, cmd ) == 0 && kwsysProcess_AddCommand( none, cmd ) == 0 && kwsysProcess_SetWorkingDirectory( none, "/" ) == 0
            && kwsysProcess_SetPipeFile( none, kwsysProcess_Pipe_STDOUT, "/dev/null" ) == 0, "no-object", "accepted" );
  VM_CHECK( kwsysProcess_AddCommand( q.p, nullptr ) == 0, "no-command", "accepted" );
  char const* empty[] = { nullptr };
  VM_CHECK( kwsysProcess_AddCommand( q.p, empty ) == 0, "empty-command", "accepted" );
  int pp[ 2 ] = { -1, -1 };
  kwsysProcess_SetTimeout( none, 1 ); kwsysProcess_SetPipeShared( none, kwsysProcess_Pipe_STDIN, 1 ); kwsysProcess_SetPipeNative( none, kwsysProcess_Pipe_STDIN, pp );
  kwsysProcess_SetOption( none, kwsysProcess_Option_Verbatim, 1 );
  kwsysProcess_Execute( none ); kwsysProcess_Kill( none ); kwsysProcess_Interrupt( none ); kwsysProcess_Disown( none );
  VM_CHECK( kwsysProcess_GetOption( none, kwsysProcess_Option_Verbatim ) == 0 && kwsysProcess_GetState( none ) == kwsysProcess_State_Error && kwsysProcess_GetErrorString( none ) && kwsysProcess_GetExceptionString( none ), "no-object", "has a state" );
  VM_CHECK( kwsysProcess_SetPipeFile( q.p, 4711, "/dev/null" ) == 0, "no-such-pipe", "accepted" );
  vm::event( "settings" );
  vm::sig( r.u64() );
}

// a signal that ends this process also ends the children in groups of their own
void parent_interrupted( vm::Rng& r )
{
  int sig = r.chance( 1, 2 ) ? SIGINT : SIGTERM, fd[ 2 ];
  vm::note( "parent gets signal " + std::to_string( sig ) );
  if( syscall( SYS_pipe2, fd, O_CLOEXEC ) ) { return; }
  // whatever other processes did before, handlers are still the default ones
  bool before = r.chance( 1, 2 );
  pid_t p = fork();
  if( p == 0 )
  {
    signal( SIGINT, SIG_DFL ); signal( SIGTERM, SIG_DFL );
    mine.clear(); forked = false;
    {
      if( before ) { Proc o; add( o.p, Strs{ child, "x:0" } ); kwsysProcess_Execute( o.p ); kwsysProcess_WaitForExit( o.p, nullptr ); }
      Proc q;
      kwsysProcess_SetOption( q.p, kwsysProcess_Option_CreateProcessGroup, 1 );
      add( q.p, Strs{ child, "o:1:1:0", "s:20000" } );
      kwsysProcess_Execute( q.p );
      groups = mine;
      char* data; int len;
      kwsysProcess_WaitForData( q.p, &data, &len, nullptr );
      if( write( fd[ 1 ], "r", 1 ) != 1 ) { _exit( 1 ); }
      kwsysProcess_WaitForExit( q.p, nullptr );
    }
    _exit( 2 );
  }
  close( fd[ 1 ] );
  char c;
  ssize_t n;
  while( ( n = read( fd[ 0 ], &c, 1 ) ) < 0 && errno == EINTR ) { }
  close( fd[ 0 ] );
  double t0 = now();
  syscall( SYS_kill, p, sig );
  int st = 0;
  while( waitpid( p, &st, 0 ) < 0 && errno == EINTR ) { }
  VM_CHECK( n == 1 && WIFSIGNALED( st ) && WTERMSIG( st ) == sig, "parent-signal", "a process running a child and ended by signal " << sig << " has status " << st );
  VM_CHECK( now() - t0 < 15, "parent-signal-late", "ending takes " << now() - t0 << " s" );
  mine.clear();
  no_children( "the parent was ended by a signal" );
  vm::event( "parent_signalled" );
  vm::sig( vm::mix( static_cast< uint64_t >( sig ) * 2 + before ) );
}

void detached( vm::Rng& r )
{
  Str d = vm::dir() + "/w", pf = d + "/pid";
  vm::rmtree( d );
  mkdir( d.c_str(), 0700 );
  pid_t pid = 0;
  unsigned long v = r.below( 5000 );
  bool disown = r.chance( 1, 2 ), kill_it = !disown && r.chance( 1, 2 );
  Str line = Str( "detached, " ) + ( disown ? "disowned" : kill_it ? "killed" : "deleted" );
  vm::note( line );
  {
    Proc q;
    delay_report = r.chance( 1, 2 ) ? 5000 : 0;
    kwsysProcess_SetOption( q.p, kwsysProcess_Option_Detach, 1 );
    add( q.p, Strs{ child, "p:" + pf, "o:" + std::to_string( v ) + ":9:0", "o:1:1:0", "s:20000" } );
    kwsysProcess_Execute( q.p );
    delay_report = 0;
    VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Executing, "not-started", describe( q.p ) << " | " << line );
    while( q.out.size() < v + 1 ) { if( !step( r, q ) ) { break; } }
    same( q.out, stream( v, 9 ) + stream( 1, 1 ), "stdout", line );
    pid = std::atoi( vm::slurp( pf ).c_str() );
    VM_CHECK( pid > 1 && syscall( SYS_kill, pid, 0 ) == 0, "detached-gone", "the detached child has ended" );
    if( disown )
    {
      kwsysProcess_Disown( q.p );
      VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Disowned, "not-disowned", describe( q.p ) );
    }
    if( kill_it )
    {
      kwsysProcess_Kill( q.p );
      kwsysProcess_WaitForExit( q.p, nullptr );
      VM_CHECK( kwsysProcess_GetState( q.p ) == kwsysProcess_State_Killed, "not-killed", describe( q.p ) );
    }
  }
  usleep( 3000 );
  bool alive = syscall( SYS_kill, pid, 0 ) == 0 && vm::slurp( "/proc/" + std::to_string( pid ) + "/stat" ).find( ") Z" ) == Str::npos;
  VM_CHECK( alive != kill_it, kill_it ? "survivor" : "detached-ended", "the detached child " << ( alive ? "runs" : "has ended" ) << " after it was " << line );
  if( !kill_it ) { syscall( SYS_kill, pid, SIGKILL ); }
  mine.clear();
  no_children( line );
  vm::event( "detached" );
  vm::sig( line + std::to_string( v ) );
}

// what a child is given besides its arguments
void inherited( vm::Rng& r )
{
  Proc q, o;
  unsigned n = static_cast< unsigned >( r.range( 1, 3 ) );
  bool merge = r.chance( 1, 3 ), with = r.chance( 1, 2 );
  if( with ) { add( o.p, Strs{ child, "s:20000" } ); kwsysProcess_Execute( o.p ); }
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_MergeOutput, merge );
  kwsysProcess_SetOption( q.p, kwsysProcess_Option_Detach, r.chance( 1, 5 ) );
  for( unsigned i = 0; i + 1 < n; ++i ) { add( q.p, Strs{ child, "o:10:3:0" } ); }
  add( q.p, Strs{ child, "d", "m" } );
  Str want = "fds:";
  World w = world();
  for( auto const& f : w.fds ) { if( f.first < 3 || !( fcntl( f.first, F_GETFD ) & FD_CLOEXEC ) ) { if( !with || f.second.compare( 0, 5, "pipe:" ) != 0 || f.first < 3 ) { want += std::to_string( f.first ) + ","; } } }
  want += "\nSigBlk:\t" ;
  kwsysProcess_Execute( q.p );
  vm::note( "inherited" );
  take_all( r, q );
  uint64_t blk = 0;
  for( int s = 1; s <= 64; ++s ) { if( sigismember( &w.mask, s ) == 1 ) { blk |= 1ull << ( s - 1 ); } }
  char b[ 64 ];
  std::snprintf( b, sizeof b, "%016llx\nSigCgt:\t%016llx\n", static_cast< unsigned long long >( blk ), 0ull );
  want += b;
  VM_CHECK( q.out == want, "inherited", "the child is given " << vm::show( q.out ) << ", not " << vm::show( want ) );
  if( with ) { kwsysProcess_Kill( o.p ); kwsysProcess_WaitForExit( o.p, nullptr ); }
  vm::event( "inheritances" );
  vm::sig( vm::hash( q.out ) + n );
}

// the same again costs no memory
void footprint( vm::Rng& r )
{
  int how = static_cast< int >( r.below( 8 ) );
  Str d = vm::dir(), missing = d + "/missing";
  auto once = [ & ]
  {
    kwsysProcess* p = kwsysProcess_New();
    char const* good[] = { child.c_str(), "o:2000:1:0", "x:1", nullptr };
    char const* bad[] = { missing.c_str(), "x", nullptr };
    char const* blank[] = { " ", nullptr };
    char const* line[] = { "sh -c 'exit 0'", nullptr };
    char* data; int len;
    if( how == 0 ) { kwsysProcess_SetOption( p, kwsysProcess_Option_Verbatim, 1 ); kwsysProcess_AddCommand( p, blank ); kwsysProcess_AddCommand( p, line ); }
    else if( how == 1 ) { kwsysProcess_AddCommand( p, good ); kwsysProcess_AddCommand( p, bad ); }
    else { kwsysProcess_AddCommand( p, good ); kwsysProcess_AddCommand( p, good ); }
    if( how & 1 ) { kwsysProcess_SetWorkingDirectory( p, d.c_str() ); kwsysProcess_SetWorkingDirectory( p, "/" ); }
    if( how == 3 ) { kwsysProcess_SetPipeFile( p, kwsysProcess_Pipe_STDOUT, ( d + "/foot" ).c_str() ); kwsysProcess_SetPipeFile( p, kwsysProcess_Pipe_STDIN, "/dev/null" ); kwsysProcess_SetPipeFile( p, kwsysProcess_Pipe_STDERR, "/dev/null" ); }
    if( how == 4 ) { kwsysProcess_SetTimeout( p, 1e-5 ); }
    if( how != 7 ) { kwsysProcess_Execute( p ); }
    if( how == 5 ) { kwsysProcess_Kill( p ); }
    if( how != 2 && how != 7 ) { kwsysProcess_WaitForData( p, &data, &len, nullptr ); kwsysProcess_WaitForExit( p, nullptr ); }
    if( how == 6 ) { kwsysProcess_SetCommand( p, nullptr ); kwsysProcess_AddCommand( p, good ); kwsysProcess_Execute( p ); kwsysProcess_Execute( p ); kwsysProcess_WaitForExit( p, nullptr ); }
    kwsysProcess_Delete( p );
  };
  vm::note( "footprint " + std::to_string( how ) );
  mine.reserve( 1000 ); stray.reserve( 10 );
  once();
  size_t a = vm::live_bytes();
  once(); once();
  size_t b = vm::live_bytes();
  VM_CHECK( a == b, "memory-left", "two more runs of scenario " << how << " cost " << static_cast< long >( b - a ) << " bytes" );
  vm::event( "footprints" );
  vm::sig( vm::mix( static_cast< uint64_t >( how ) ) );
}

void one_case( vm::Rng& r, uint64_t )
{
  mine.clear(); stray.clear(); groups.clear();
  delay_state = r.u64();
  delay_child = r.chance( 1, 3 ) ? 3000 : 0;
  delay_parent = r.chance( 1, 3 ) ? 3000 : 0;
  delay_report = fork_fail = pipe_fail = 0;
  alarms = 0;
  struct sigaction a;
  std::memset( &a, 0, sizeof a );
  a.sa_handler = r.chance( 1, 2 ) ? on_int : r.chance( 1, 2 ) ? SIG_DFL : SIG_IGN;
  sigaction( SIGINT, &a, nullptr );
  a.sa_handler = r.chance( 1, 2 ) ? on_int2 : r.chance( 1, 2 ) ? SIG_DFL : SIG_IGN;
  sigaction( SIGTERM, &a, nullptr );
  sigset_t m;
  sigemptyset( &m );
  if( r.chance( 1, 4 ) ) { sigaddset( &m, SIGURG ); }
  sigprocmask( SIG_SETMASK, &m, nullptr );
  World w = world();
  unsigned kind = static_cast< unsigned >( r.below( 21 ) );
  Str what = "case " + std::to_string( kind );
  {
    Storm s( r.chance( 1, 3 ), r.range( 3000, 15000 ) );
    switch( kind )
    {
    case 0: case 1: case 2: case 3: one( r ); break;
    case 4: case 5: pipeline( r ); break;
    case 6: case 7: several( r ); break;
    case 8: case 9: redirected( r ); break;
    case 10: arguments( r ); break;
    case 11: case 12: not_started( r ); break;
    case 13: case 14: resources( r ); break;
    case 15: case 16: ended_early( r ); break;
    case 17: if( r.chance( 3, 4 ) ) { interrupted( r ); } else { r.chance( 1, 2 ) ? all_interrupted( r ) : settings( r ); } break;
    case 18: r.chance( 1, 2 ) ? parent_interrupted( r ) : detached( r ); break;
    case 19: inherited( r ); break;
    default: footprint( r ); break;
    }
  }
  vm::event( "waits", waits );
  waits = 0;
  no_children( what );
  same_world( w, what );
}

} // namespace

int main( int argc, char** argv )
{
  for( int i = 1; i + 1 < argc; ++i )
  {
    if( Str( argv[ i ] ) == "--extra" ) { Str e = argv[ i + 1 ]; child = e.substr( e.find( '=' ) + 1 ); }
  }
  prctl( PR_SET_CHILD_SUBREAPER, 1 );
  signal( SIGUSR1, SIG_IGN );
  rlimit l = { 4096, 4096 };
  setrlimit( RLIMIT_NOFILE, &l );
  // dlsym now, not in a forked child
  pid_t p = fork();
  if( p == 0 ) { _exit( 0 ); }
  int s;
  waitpid( p, &s, 0 );
  return vm::run( argc, argv, one_case );
}
