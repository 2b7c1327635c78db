// U01: small utilities keep their contracts for every input.
#include "vm.h"
#include <string>
#include <vital/util/tokenize.h>
#include <vital/util/enumerate_matrix.h>
#include <vital/util/cpu_timer.h>
#include <vital/util/wall_timer.h>
#include <vital/util/get_paths.h>
#include <algorithm>
#include <deque>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <limits.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>

namespace kv = kwiver::vital;
typedef std::string Str;

// ---- the clocks of the process: the wall clock is adjusted on demand ----------------
static long g_adjust = 0;          // seconds the adjustable clock is off
extern "C" int clock_gettime( clockid_t id, struct timespec* ts ) noexcept
{
  int rc = static_cast< int >( ::syscall( SYS_clock_gettime, id, ts ) );
  if( !rc && id == CLOCK_REALTIME ) { ts->tv_sec += g_adjust; }
  return rc;
}

namespace {

double now( clockid_t id )
{
  struct timespec t;
  if( ::syscall( SYS_clock_gettime, id, &t ) ) { std::perror( "clock" ); std::_Exit( 3 ); }
  return static_cast< double >( t.tv_sec ) + 1e-9 * static_cast< double >( t.tv_nsec );
}

// ---- tokenize ---------------------------------------------------------------------------
template < class C > void tokens( vm::Rng& r )
{
  Str text, delim;
  Str alphabet( "ab ,;\t\n", 7 );
  alphabet += '\0';
  alphabet += "\xFF/";
  size_t letters = r.range( 1, static_cast< long >( alphabet.size() ) );
  for( size_t n = r.chance( 1, 8 ) ? r.below( 4000 ) : r.below( 20 ); n; --n ) { text += alphabet[ r.below( letters ) ]; }
  for( size_t n = r.below( 4 ); n; --n ) { delim += alphabet[ r.below( letters ) ]; }
  bool trim = r.chance( 1, 2 ), plain = r.chance( 1, 6 );
  if( plain ) { delim = " "; trim = false; }
  C got;
  std::vector< Str > want;
  for( size_t n = r.below( 3 ); n; --n ) { Str s = "old" + std::to_string( n ); got.push_back( s ); want.push_back( s ); }
  Str piece;
  for( size_t i = 0; i <= text.size(); ++i )
  {
    if( i == text.size() || delim.find( text[ i ] ) != Str::npos )
    {
      if( !( trim && piece.empty() ) ) { want.push_back( piece ); }
      piece.clear();
    }
    else { piece += text[ i ]; }
  }
  if( plain && r.chance( 1, 2 ) ) { kv::tokenize( text, got ); }
  else if( !trim && r.chance( 1, 2 ) ) { kv::tokenize( text, got, delim ); }
  else { kv::tokenize( text, got, delim, trim ); }
  std::vector< Str > g( got.begin(), got.end() );
  VM_CHECK( g == want, "tokens", "tokenize( " << vm::show( text ) << ", delimiters " << vm::show( delim ) << ", trimEmpty " << trim << " ) yields " << g.size() << " tokens, should be " << want.size() );
  if( trim ) { vm::event( "tokens trimmed" ); } else { vm::event( "tokens with empty ones" ); }
  if( delim.empty() ) { vm::event( "no delimiter" ); }
  vm::sig( vm::hash( text + "|" + delim, trim ) );
}

// ---- sparse matrices ----------------------------------------------------------------------
template < class T, int Options, class I > void matrix( vm::Rng& r )
{
  typedef Eigen::SparseMatrix< T, Options, I > M;
  typedef kv::sparse_matrix_enumerator< T, Options, I > E;
  bool wide = r.chance( 1, 900 );                 // long stretches without an element
  long limit = std::numeric_limits< I >::max();
  long rows = wide ? r.range( 1, std::min( limit, 400000l ) ) : r.chance( 1, 12 ) ? 0 : r.range( 1, 12 );
  long cols = wide ? r.range( 1, std::min( limit, 400000l ) ) : r.chance( 1, 12 ) ? 0 : r.range( 1, 12 );
  M m;
  if( r.chance( 1, 20 ) ) { rows = cols = 0; } else { m.resize( rows, cols ); }
  std::map< std::pair< long, long >, T > want;
  size_t n = rows * cols == 0 ? 0 : r.chance( 1, 6 ) ? 0 : r.below( wide ? 8 : static_cast< uint64_t >( rows * cols ) + 2 );
  bool compressed = wide || r.chance( 1, 2 );
  std::vector< Eigen::Triplet< T, I > > t;
  for( size_t k = 0; k < n; ++k )
  {
    long i = static_cast< long >( r.below( static_cast< uint64_t >( rows ) ) ), j = static_cast< long >( r.below( static_cast< uint64_t >( cols ) ) );
    if( want.count( std::make_pair( i, j ) ) ) { continue; }
    T v = static_cast< T >( r.range( -3, 3 ) );     // a stored zero is an element too
    want[ std::make_pair( i, j ) ] = v;
    if( wide || compressed ) { t.push_back( Eigen::Triplet< T, I >( static_cast< I >( i ), static_cast< I >( j ), v ) ); } else { m.insert( static_cast< I >( i ), static_cast< I >( j ) ) = v; }
  }
  if( compressed ) { m.setFromTriplets( t.begin(), t.end() ); vm::event( "compressed matrices" ); } else if( r.chance( 1, 2 ) ) { m.makeCompressed(); } else { vm::event( "uncompressed matrices" ); }
  std::map< std::pair< long, long >, T > got;
  E e = kv::enumerate( static_cast< M const& >( m ) );
  long last = -1, last_inner = -1;
  size_t count = 0;
  for( auto cell : e )
  {
    VM_CHECK( ++count <= want.size(), "matrix", "enumerate() yields more than the " << want.size() << " elements of a " << rows << " x " << cols << " matrix" );
    got[ std::make_pair( static_cast< long >( cell.row() ), static_cast< long >( cell.col() ) ) ] = cell.value();
    long outer = M::IsRowMajor ? cell.row() : cell.col(), inner = M::IsRowMajor ? cell.col() : cell.row();
    (void)last; (void)last_inner;
    last = outer;
    last_inner = inner;
  }
  VM_CHECK( got == want && count == want.size(), "matrix", "enumerate() yields " << count << " elements of a " << rows << " x " << cols << " matrix that are not the " << want.size() << " stored" );
  // iterators: copies go their own way and are equal as long as they are at the same element
  typename E::iterator a = e.begin(), end = e.end();
  size_t steps = want.empty() ? 0 : r.below( want.size() + 1 );
  for( size_t k = 0; k < steps; ++k ) { VM_CHECK( a != end, "matrix", "the end is reached after " << k << " of " << want.size() << " elements" ); ++a; }
  typename E::iterator b( a );
  VM_CHECK( a == b && !( a != b ) && ( a == end ) == ( steps == want.size() ), "iterator", "comparison of iterators after " << steps << " of " << want.size() << " steps is wrong" );
  if( steps < want.size() )
  {
    T v = ( *a ).value();
    typename E::iterator& c = ++b;
    VM_CHECK( &c == &b && a != b && ( *a ).value() == v, "iterator", "a copied iterator moves with its original" );
    while( b != end ) { ++b; }
    VM_CHECK( a != end, "iterator", "a copied iterator moves with its original" );
    vm::event( "iterators copied" );
  }
  typename E::iterator d;
  VM_CHECK( d == end, "iterator", "a default iterator is not the end" );
  if( rows == 0 || cols == 0 ) { vm::event( "matrices without extent" ); }
  else if( want.empty() ) { vm::event( "empty matrices" ); }
  else { vm::event( "matrices" ); }
  if( wide ) { vm::event( "wide matrices" ); }
}

// ---- timers --------------------------------------------------------------------------------
volatile double g_sink;
void spend( vm::Rng& r )
{
  switch( r.below( 3 ) )
  {
    case 0: break;
    case 1: { double until = now( CLOCK_MONOTONIC ) + 1e-6 * static_cast< double >( r.below( 400 ) ); while( now( CLOCK_MONOTONIC ) < until ) { g_sink = g_sink + 1; } break; }
    default: { struct timespec t = { 0, static_cast< long >( r.below( 400000 ) ) }; ::nanosleep( &t, nullptr ); break; }
  }
  if( r.chance( 1, 4 ) ) { g_adjust += r.chance( 1, 2 ) ? r.range( -5000, 5000 ) : r.range( -2, 2 ); vm::event( "wall clock adjusted" ); }
}

struct Interval { double lo, hi; };

template < class T > void timers( vm::Rng& r, clockid_t id, char const* name )
{
  double const eps = 2.5e-6;                      // the clock's own step
  struct One { std::unique_ptr< kv::timer > t; int state; double b0, b1, e0, e1; };   // 0 fresh, 1 runs, 2 stopped
  std::vector< One > v( r.range( 1, 3 ) );
  for( auto& o : v ) { o.t.reset( new T ); o.state = 0; }
  VM_CHECK( v[ 0 ].t->timer_available(), "unavailable", "the " << name << " is not available, though the platform has the clock" );
  Str log;
  for( long steps = r.range( 4, 14 ); steps; --steps )
  {
    One& o = v[ r.below( v.size() ) ];
    log += std::to_string( &o - v.data() );
    int op = static_cast< int >( r.below( 4 ) );
    if( op == 0 )
    {
      log += "start ";
      o.b0 = now( id );
      o.t->start();
      o.b1 = now( id );
      o.state = 1;
    }
    else if( op == 1 && o.state == 1 )
    {
      log += "stop ";
      o.e0 = now( id );
      o.t->stop();
      o.e1 = now( id );
      o.state = 2;
    }
    else { log += "read "; }
    VM_CHECK( o.t->is_active() == ( o.state == 1 ), "active", name << " says it is " << ( o.t->is_active() ? "" : "not " ) << "active after " << log );
    double a = now( id ), e = o.t->elapsed(), b = now( id );
    if( o.state == 0 ) { VM_CHECK( e == 0, "interval", name << " that never ran shows " << e << " s" ); }
    if( o.state == 1 )
    {
      VM_CHECK( e >= 0 && e >= a - o.b1 - eps && e <= b - o.b0 + eps, "interval", name << " shows " << e << " s while running, between " << a - o.b1 << " and " << b - o.b0 << " passed: " << log );
      vm::event( Str( name ) + " running" );
    }
    if( o.state == 2 )
    {
      VM_CHECK( e >= 0 && e >= o.e0 - o.b1 - eps && e <= o.e1 - o.b0 + eps, "interval", name << " shows " << e << " s when stopped, between " << o.e0 - o.b1 << " and " << o.e1 - o.b0 << " passed: " << log );
      vm::event( Str( name ) + " stopped" );
    }
    spend( r );
    if( o.state == 2 ) { VM_CHECK( o.t->elapsed() == e, "interval", "the stopped " << name << " moves: " << log ); }
  }
  // a scope
  std::ostringstream os;
  std::streambuf* old = std::cerr.rdbuf( os.rdbuf() );
  Str title = r.chance( 1, 3 ) ? Str() : "t" + std::to_string( r.below( 1000 ) );
  double a0 = now( id ), a1, b0, b1;
  {
    std::unique_ptr< kv::scoped_timer< T > > t( title.empty() && r.chance( 1, 2 ) ? new kv::scoped_timer< T > : new kv::scoped_timer< T >( title ) );
    a1 = now( id );
    spend( r );
    b0 = now( id );
    t.reset();
    b1 = now( id );
  }
  std::cerr.rdbuf( old );
  Str want = title.empty() ? "elapsed time: " : title + " - elapsed time: ", s = os.str();
  double e = -1;
  char unit[ 8 ] = "";
  VM_CHECK( s.compare( 0, want.size(), want ) == 0 && std::sscanf( s.c_str() + want.size(), "%lf %5[^\n]", &e, unit ) == 2 && !std::strcmp( unit, "sec" ) && std::count( s.begin(), s.end(), '\n' ) == 1, "scope", "the scoped " << name << " reports " << vm::show( s ) );
  VM_CHECK( e >= ( b0 - a1 - eps ) * ( 1 - 1e-5 ) && e <= ( b1 - a0 + eps ) * ( 1 + 1e-5 ), "scope", "the scoped " << name << " reports " << vm::show( s ) << " for between " << b0 - a1 << " and " << b1 - a0 << " s" );
  vm::event( "scopes" );
}

// ---- where the program is --------------------------------------------------------------------
Str part( Str const& name )
{
  std::istringstream is( vm::st().extra );
  Str item;
  while( std::getline( is, item, ',' ) ) { if( item.compare( 0, name.size() + 1, name + "=" ) == 0 ) { return item.substr( name.size() + 1 ); } }
  std::cerr << "no " << name << " in " << vm::st().extra << "\n";
  std::_Exit( 3 );
}

void copy_file( Str const& from, Str const& to, mode_t mode )
{
  vm::spit( to, vm::slurp( from ) );
  if( ::chmod( to.c_str(), mode ) ) { std::perror( "chmod" ); std::_Exit( 3 ); }
}

Str folder_name( vm::Rng& r, bool for_module )
{
  static char const* const part[] = { "a b", "tab\there", " lead", "trail ", "(deleted)", "x (deleted)", "\xC3\xA4\xE2\x82\xAC", "r-xp", "-", "..x", ".hidden", "a'b\"c", "back\\slash", "%s%n", "$HOME", "00400000-00452000 r-xp" };
  if( !for_module && r.chance( 1, 12 ) ) { return "line\nfeed"; }
  if( r.chance( 1, 3 ) ) { return "plain" + std::to_string( r.below( 100 ) ); }
  if( r.chance( 1, 6 ) ) { return Str( static_cast< size_t >( r.range( 100, 255 ) ), static_cast< char >( 'a' + r.below( 26 ) ) ); }
  return part[ r.below( sizeof part / sizeof *part ) ];
}

Str new_folder( vm::Rng& r, Str base, bool for_module )
{
  bool deep = r.chance( 1, 6 );
  size_t goal = deep ? static_cast< size_t >( r.range( 300, 3900 ) ) : 0;
  long n = r.range( 1, 3 );
  for( long i = 0; i < n || base.size() < goal; ++i )
  {
    base += "/" + ( deep && i >= n ? Str( std::min< size_t >( 200, std::max< size_t >( 1, goal - base.size() ) ), 'd' ) : folder_name( r, for_module ) );
    ::mkdir( base.c_str(), 0755 );
  }
  if( deep ) { vm::event( "deep folders" ); }
  return base;
}

void places( vm::Rng& r, uint64_t idx )
{
  Str top = vm::dir() + "/u" + std::to_string( idx );
  ::mkdir( top.c_str(), 0755 );
  char real[ PATH_MAX ];
  if( !::realpath( top.c_str(), real ) ) { std::_Exit( 3 ); }
  top = real;
  bool module = r.chance( 1, 2 );
  ::mkdir( ( top + "/e" ).c_str(), 0755 );
  ::mkdir( ( top + "/m" ).c_str(), 0755 );
  Str edir = new_folder( r, top + "/e", false ), mdir = module ? new_folder( r, top + "/m", true ) : edir;
  Str exe = edir + "/prog" + ( r.chance( 1, 4 ) ? " x" : "" ), so = mdir + "/mod" + ( r.chance( 1, 4 ) ? " y.so" : ".so" );
  copy_file( part( module ? "u01_loader" : "u01_exe" ), exe, 0755 );
  if( module ) { copy_file( part( "u01_module" ), so, 0644 ); }
  Str run = exe, arg = so, cwd = top, argv0 = r.chance( 1, 3 ) ? "somebody else" : exe;
  int kind = static_cast< int >( r.below( 4 ) );
  if( kind == 1 ) { run = top + "/link"; if( ::symlink( exe.c_str(), run.c_str() ) ) { std::_Exit( 3 ); } vm::event( "run through a link" ); }
  if( kind == 2 ) { run = "./" + exe.substr( edir.size() + 1 ); cwd = edir; vm::event( "run by a relative name" ); }
  if( module && r.chance( 1, 3 ) ) { arg = top + "/so link"; if( ::symlink( so.c_str(), arg.c_str() ) ) { std::_Exit( 3 ); } }
  bool moves = r.chance( 1, 3 );
  int in[ 2 ], out[ 2 ];
  if( ::pipe( in ) || ::pipe( out ) ) { std::_Exit( 3 ); }
  pid_t pid = ::fork();
  if( pid == 0 )
  {
    ::dup2( in[ 0 ], 0 );
    ::dup2( out[ 1 ], 1 );
    for( int f = 3; f < 64; ++f ) { ::close( f ); }
    ::alarm( 60 );
    if( ::chdir( cwd.c_str() ) ) { _exit( 90 ); }
    char const* a[ 4 ] = { argv0.c_str(), moves ? "w" : nullptr, nullptr, nullptr };
    int k = moves ? 2 : 1;
    if( module ) { a[ k ] = arg.c_str(); }
    if( r.chance( 1, 4 ) ) { char const* env[] = { "PATH=", nullptr }; ::execve( run.c_str(), const_cast< char** >( a ), const_cast< char** >( env ) ); }
    else { ::execv( run.c_str(), const_cast< char** >( a ) ); }
    _exit( 91 );
  }
  ::close( in[ 0 ] );
  ::close( out[ 1 ] );
  Str got;
  char buf[ 4096 ];
  if( moves )
  {
    // the folder gets another name while the program runs
    if( ::read( out[ 0 ], buf, 1 ) == 1 && buf[ 0 ] == 'R' )
    {
      Str to = r.chance( 1, 2 ) ? top + "/moved here" : top + "/moved";
      if( ::rename( ( top + "/e" ).c_str(), to.c_str() ) ) { std::_Exit( 3 ); }
      if( !module ) { mdir = to + edir.substr( top.size() + 2 ); }
      edir = to + edir.substr( top.size() + 2 );
      if( module && r.chance( 1, 2 ) ) { Str t2 = top + "/m o"; if( ::rename( ( top + "/m" ).c_str(), t2.c_str() ) ) { std::_Exit( 3 ); } mdir = t2 + mdir.substr( top.size() + 2 ); }
      if( ::write( in[ 1 ], "g", 1 ) != 1 ) { std::_Exit( 3 ); }
      vm::event( "moved while running" );
    }
  }
  ssize_t n;
  while( ( n = ::read( out[ 0 ], buf, sizeof buf ) ) > 0 ) { got.append( buf, static_cast< size_t >( n ) ); }
  ::close( in[ 1 ] );
  ::close( out[ 0 ] );
  int status = 0;
  ::waitpid( pid, &status, 0 );
  vm::note( "places " + exe.substr( 0, 500 ) );
  VM_CHECK( WIFEXITED( status ) && WEXITSTATUS( status ) == 0, "paths-crash", "the program in " << vm::show( edir ) << ( module ? " with its module in " + vm::show( mdir ) : Str() ) << " ended with status " << status );
  Str want = edir + '\0' + mdir + '\0';
  want += want;
  Str e, m;
  size_t z = got.find( '\0' );
  if( z != Str::npos ) { e = got.substr( 0, z ); m = got.c_str() + z + 1; }
  bool ok = got == want;
  if( !module && edir.find( '\n' ) != Str::npos ) { ok = e == edir; }
  Str text = "the program is in " + vm::show( edir ) + " and says " + vm::show( e ) + "; the " + ( module ? "module" : "program as module" ) + " is in " + vm::show( mdir ) + " and says " + vm::show( m );
  vm::rmtree( vm::dir() + "/u" + std::to_string( idx ) );
  VM_CHECK( ok, e == edir ? "module-path" : "executable-path", text );
  vm::event( module ? "modules asked" : "programs asked" );
  vm::sample( text );
}

void body( vm::Rng& r, uint64_t idx )
{
  for( int i = 0; i < 6; ++i )
  {
    switch( r.below( 3 ) ) { case 0: tokens< std::vector< Str > >( r ); break; case 1: tokens< std::list< Str > >( r ); break; default: tokens< std::deque< Str > >( r ); break; }
  }
  for( int i = 0; i < 4; ++i )
  {
    switch( r.below( 4 ) )
    {
      case 0: matrix< double, Eigen::ColMajor, int >( r ); break;
      case 1: matrix< double, Eigen::RowMajor, int >( r ); break;
      case 2: matrix< unsigned, Eigen::ColMajor, short >( r ); break;
      default: matrix< float, Eigen::RowMajor, long >( r ); break;
    }
  }
  if( r.chance( 1, 4 ) ) { timers< kv::wall_timer >( r, CLOCK_MONOTONIC, "wall timer" ); timers< kv::cpu_timer >( r, CLOCK_PROCESS_CPUTIME_ID, "CPU timer" ); }
  if( r.chance( 1, 12 ) ) { places( r, idx ); }
  // the answer for this process
  if( r.chance( 1, 50 ) )
  {
    char b[ PATH_MAX + 1 ];
    ssize_t n = ::readlink( "/proc/self/exe", b, PATH_MAX );
    if( n > 0 )
    {
      Str d( b, static_cast< size_t >( n ) );
      d.erase( d.rfind( '/' ) );
      VM_CHECK( kv::get_executable_path() == d && kv::get_module_path() == d, "executable-path", "this program is in " << vm::show( d ) << ", reported are " << vm::show( kv::get_executable_path() ) << " and " << vm::show( kv::get_module_path() ) );
    }
  }
}

} // namespace
VM_MAIN( body )
