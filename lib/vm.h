// Monitoring support shared by every harness of /verif.
//
//  * every case i of a run draws only from Rng(seed,i): any case replays alone
//    with  --seed S --from i --cases 1
//  * the case under way and its phase are kept in a shared mapping, so that a
//    sanitizer abort, a signal or a hang is attributed to the case that caused it
//  * events actually observed are counted, distinct non-trivial cases are counted
//    by signature, a few cases are kept as samples; all of it goes to --out
#ifndef VM_H
#define VM_H
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iomanip>
#include <iostream>
#include <locale>
#include <map>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <dirent.h>
#include <dlfcn.h>
#include <cxxabi.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__( ( weak ) );

namespace vm {

// bytes allocated and not freed; 0 without a sanitizer
inline size_t live_bytes() { return __sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : 0; }

inline uint64_t mix( uint64_t z )
{
  z += 0x9E3779B97F4A7C15ull;
  z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
  z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
  return z ^ ( z >> 31 );
}

inline uint64_t hash( std::string const& s, uint64_t h = 1469598103934665603ull )
{
  for( unsigned char c : s ) { h ^= c; h *= 1099511628211ull; }
  return mix( h );
}

struct Rng
{
  uint64_t s;
  explicit Rng( uint64_t seed = 1 ) : s( mix( seed ) ) { }
  uint64_t u64() { s += 0x9E3779B97F4A7C15ull; return mix( s ); }
  uint64_t below( uint64_t n ) { return n ? u64() % n : 0; }
  long range( long lo, long hi ) { return lo + static_cast< long >( below( static_cast< uint64_t >( hi - lo ) + 1 ) ); }
  bool chance( unsigned num, unsigned den ) { return below( den ) < num; }
  double unit() { return static_cast< double >( u64() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
  double real( double lo, double hi ) { return lo + ( hi - lo ) * unit(); }
  double gauss()
  {
    double u = unit(), v = unit();
    if( u < 1e-300 ) { u = 1e-300; }
    return std::sqrt( -2.0 * std::log( u ) ) * std::cos( 6.283185307179586 * v );
  }
  // close to a value that code may treat on its own, at any distance
  double near( double x ) { return ( x == 0 ? 0 : x ) + ( x == 0 ? 1 : x ) * ( chance( 1, 2 ) ? 1 : -1 ) * std::pow( 10.0, real( -9, -1 ) ); }
  template < class T > T const& pick( std::vector< T > const& v ) { return v[ below( v.size() ) ]; }
  char pick( char const* s_ ) { return s_[ below( std::strlen( s_ ) ) ]; }
  std::string str( char const* alphabet, size_t lo, size_t hi )
  {
    std::string r;
    size_t n = static_cast< size_t >( range( static_cast< long >( lo ), static_cast< long >( hi ) ) );
    for( size_t i = 0; i < n; ++i ) { r += pick( alphabet ); }
    return r;
  }
};

struct CaseFail { };       // thrown to leave a case after a violation
struct CaseSkip { };       // thrown to leave a case that decides nothing

struct Shared { volatile uint64_t cur; volatile uint64_t started; char note[ 4096 ]; };

struct State
{
  uint64_t seed = 1, from = 0, cases = 1;
  std::string out, dir, tier = "quick", extra;
  std::map< std::string, uint64_t > events;
  std::unordered_set< uint64_t > sigs;
  std::vector< std::string > samples;
  struct V { std::string key, detail; uint64_t idx; };
  std::vector< V > violations;
  std::map< std::string, unsigned > perkey;
  uint64_t evaluations = 0, skipped = 0, idx = 0;
  Shared* sh = nullptr;
  std::mutex mtx;
};

inline State& st() { static State* s = new State; return *s; }

inline void event( std::string const& name, uint64_t n = 1 )
{
  std::lock_guard< std::mutex > g( st().mtx );
  st().events[ name ] += n;
}

// an application that chose a locale with a decimal comma and grouped digits
class OtherLocale
{
  struct punct : public std::numpunct< char >
  {
    char do_decimal_point() const override { return ','; }
    char do_thousands_sep() const override { return '.'; }
    std::string do_grouping() const override { return "\3"; }
    std::string do_truename() const override { return "wahr"; }
    std::string do_falsename() const override { return "falsch"; }
  };
  std::locale before;
public:
  explicit OtherLocale( bool on ) : before()
  {
    if( on ) { std::locale::global( std::locale( std::locale::classic(), new punct ) ); event( "other_locale" ); }
  }
  ~OtherLocale() { std::locale::global( before ); }
};

// signature of a non-trivial case
inline void sig( uint64_t h )
{
  std::lock_guard< std::mutex > g( st().mtx );
  if( st().sigs.size() < 4000000 ) { st().sigs.insert( h ); }
}
inline void sig( std::string const& s ) { sig( hash( s ) ); }

inline void sample( std::string const& s )
{
  std::lock_guard< std::mutex > g( st().mtx );
  if( st().samples.size() < 3 ) { st().samples.push_back( s.substr( 0, 600 ) ); }
}

// phase of the case, kept for crash attribution
inline void note( std::string const& s )
{
  if( st().sh )
  {
    size_t n = std::min( s.size(), sizeof( st().sh->note ) - 1 );
    std::memcpy( st().sh->note, s.data(), n );
    st().sh->note[ n ] = 0;
  }
}

inline void violation( std::string const& key, std::string const& detail )
{
  std::lock_guard< std::mutex > g( st().mtx );
  if( st().perkey[ key ]++ < 3 )
  {
    st().violations.push_back( { key, detail.substr( 0, 4000 ), st().idx } );
  }
}

#define VM_FAIL( key, text ) do { std::ostringstream vm_os_; vm_os_ << std::setprecision( 17 ) << text; \
    vm::violation( key, vm_os_.str() ); throw vm::CaseFail(); } while( 0 )
#define VM_CHECK( cond, key, text ) do { if( !( cond ) ) { VM_FAIL( key, text ); } } while( 0 )
// records and goes on
#define VM_EXPECT( cond, key, text ) do { if( !( cond ) ) { std::ostringstream vm_os_; vm_os_ << std::setprecision( 17 ) << text; \
    vm::violation( key, vm_os_.str() ); } } while( 0 )

inline std::string jesc( std::string const& s )
{
  std::string r = "\"";
  char b[ 8 ];
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { r += '\\'; r += static_cast< char >( c ); }
    else if( c < 32 || c > 126 ) { std::snprintf( b, sizeof b, "\\u%04x", c ); r += b; }
    else { r += static_cast< char >( c ); }
  }
  return r + "\"";
}

inline std::string show( std::string const& s )
{
  std::string r = jesc( s );
  return r;
}

inline std::string demangle( char const* n )
{
  int status = 0;
  char* d = abi::__cxa_demangle( n, nullptr, nullptr, &status );
  std::string r = d ? d : n;
  std::free( d );
  return r;
}

inline void write_result( bool complete )
{
  State& s = st();
  std::ostringstream o;
  o << "{\"complete\":" << ( complete ? "true" : "false" )
    << ",\"evaluations\":" << s.evaluations << ",\"skipped\":" << s.skipped
    << ",\"events\":{";
  bool first = true;
  for( auto const& e : s.events ) { o << ( first ? "" : "," ) << jesc( e.first ) << ":" << e.second; first = false; }
  o << "},\"samples\":[";
  first = true;
  for( auto const& e : s.samples ) { o << ( first ? "" : "," ) << jesc( e ); first = false; }
  o << "],\"violations\":[";
  first = true;
  for( auto const& v : s.violations )
  {
    o << ( first ? "" : "," ) << "{\"key\":" << jesc( v.key ) << ",\"case\":" << v.idx << ",\"detail\":" << jesc( v.detail ) << "}";
    first = false;
  }
  o << "],\"sigs\":[";
  first = true;
  for( uint64_t h : s.sigs ) { o << ( first ? "" : "," ) << ( h & 0xffffffffffffull ); first = false; }
  o << "]}";
  std::string tmp = s.out + ".tmp";
  FILE* f = std::fopen( tmp.c_str(), "w" );
  if( !f ) { std::perror( "result file" ); std::_Exit( 3 ); }
  std::string r = o.str();
  std::fwrite( r.data(), 1, r.size(), f );
  std::fclose( f );
  std::rename( tmp.c_str(), s.out.c_str() );
}

// scratch directory of this process; emptied by the runner
inline std::string const& dir() { return st().dir; }

inline int run( int argc, char** argv, std::function< void( Rng&, uint64_t ) > body )
{
  State& s = st();
  ::prctl( PR_SET_PDEATHSIG, SIGKILL );         // never outlives the runner
  for( int i = 1; i + 1 < argc; i += 2 )
  {
    std::string a = argv[ i ], v = argv[ i + 1 ];
    if( a == "--seed" ) { s.seed = std::strtoull( v.c_str(), nullptr, 10 ); }
    else if( a == "--from" ) { s.from = std::strtoull( v.c_str(), nullptr, 10 ); }
    else if( a == "--cases" ) { s.cases = std::strtoull( v.c_str(), nullptr, 10 ); }
    else if( a == "--out" ) { s.out = v; }
    else if( a == "--dir" ) { s.dir = v; }
    else if( a == "--tier" ) { s.tier = v; }
    else if( a == "--extra" ) { s.extra = v; }
  }
  std::string curf = s.out + ".cur";
  int fd = ::open( curf.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
  if( fd < 0 || ::ftruncate( fd, sizeof( Shared ) ) ) { std::perror( "cur" ); return 3; }
  s.sh = static_cast< Shared* >( ::mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
  ::close( fd );
  if( s.sh == MAP_FAILED ) { return 3; }
  for( uint64_t i = s.from; i < s.from + s.cases; ++i )
  {
    s.idx = i;
    s.sh->cur = i;
    s.sh->started = 1;
    s.sh->note[ 0 ] = 0;
    Rng rng( mix( s.seed * 0x100000001B3ull ) ^ mix( i + 77 ) );
    try
    {
      body( rng, i );
      ++s.evaluations;
    }
    catch( CaseFail const& ) { ++s.evaluations; }
    catch( CaseSkip const& ) { ++s.skipped; }
    catch( std::exception const& e )
    {
      ++s.evaluations;
      violation( "unexpected-exception:" + demangle( typeid( e ).name() ),
                 std::string( "what: " ) + e.what() + " | phase: " + s.sh->note );
    }
    if( s.violations.size() > 60 ) { break; }
  }
  s.sh->started = 2;
  write_result( true );
  std::cout.flush();
  std::fflush( nullptr );
  // static destructors of the code under test are not part of the case unless asked for
  if( std::getenv( "VM_EXIT_NORMALLY" ) ) { return 0; }
  std::_Exit( 0 );
}

#define VM_MAIN( fn ) int main( int argc, char** argv ) { return vm::run( argc, argv, fn ); }

// -- small utilities ------------------------------------------------------
inline std::string slurp( std::string const& p )
{
  std::string r;
  FILE* f = std::fopen( p.c_str(), "rb" );
  if( !f ) { return r; }
  char b[ 65536 ];
  size_t n;
  while( ( n = std::fread( b, 1, sizeof b, f ) ) > 0 ) { r.append( b, n ); }
  std::fclose( f );
  return r;
}

inline void spit( std::string const& p, std::string const& data )
{
  FILE* f = std::fopen( p.c_str(), "wb" );
  if( !f ) { std::perror( p.c_str() ); std::_Exit( 3 ); }
  std::fwrite( data.data(), 1, data.size(), f );
  std::fclose( f );
}

// recursive removal, only ever used below dir()
inline void rmtree( std::string const& p )
{
  if( st().dir.size() < 5 || p.compare( 0, st().dir.size(), st().dir ) != 0 ) { std::abort(); }
  struct stat sb;
  if( ::lstat( p.c_str(), &sb ) ) { return; }
  if( S_ISDIR( sb.st_mode ) )
  {
    ::chmod( p.c_str(), 0700 );
    std::vector< std::string > names;
    if( DIR* d = ::opendir( p.c_str() ) )
    {
      while( dirent* e = ::readdir( d ) )
      {
        std::string n = e->d_name;
        if( n != "." && n != ".." ) { names.push_back( n ); }
      }
      ::closedir( d );
    }
    for( auto const& n : names ) { rmtree( p + "/" + n ); }
    ::rmdir( p.c_str() );
  }
  else { ::unlink( p.c_str() ); }
}

inline bool same_bits( double a, double b ) { return std::memcmp( &a, &b, sizeof a ) == 0; }

template < class T > std::string str( T const& v )
{
  std::ostringstream o; o.imbue( std::locale::classic() );
  o << std::setprecision( 17 ) << v;
  return o.str();
}

// silence the process' stderr (the logger writes there); sanitizers keep reporting where it went
inline void quiet_stderr()
{
  int keep = ::fcntl( 2, F_DUPFD_CLOEXEC, 200 );
  if( keep >= 0 )
  {
    for( char const* lib : { "libubsan.so.1" } )
    {
      if( void* h = ::dlopen( lib, RTLD_LAZY | RTLD_NOLOAD ) )
      {
        typedef void ( *set_fd )( void* );
        if( set_fd f = reinterpret_cast< set_fd >( ::dlsym( h, "__sanitizer_set_report_fd" ) ) ) { f( reinterpret_cast< void* >( static_cast< long >( keep ) ) ); }
      }
    }
  }
  int fd = ::open( "/dev/null", O_WRONLY );
  if( fd >= 0 ) { ::dup2( fd, 2 ); ::close( fd ); }
}

// runs fn in a forked child, so that process-wide state starts afresh for the case;
// what the child observed is merged here, a crash of the child is a crash of the case
inline void in_child( std::function< void() > fn, unsigned seconds = 60 )
{
  std::fflush( nullptr );
  int fds[ 2 ];
  if( ::pipe( fds ) ) { std::perror( "pipe" ); std::_Exit( 3 ); }
  pid_t pid = ::fork();
  if( pid < 0 ) { std::perror( "fork" ); std::_Exit( 3 ); }
  if( pid == 0 )
  {
    ::close( fds[ 0 ] );
    int out = ::fcntl( fds[ 1 ], F_DUPFD_CLOEXEC, 150 );
    ::close( fds[ 1 ] );
    ::alarm( seconds );
    State& s = st();
    s.events.clear(); s.sigs.clear(); s.violations.clear(); s.perkey.clear(); s.samples.clear();
    bool skip = false;
    try { fn(); }
    catch( CaseFail const& ) { }
    catch( CaseSkip const& ) { skip = true; }
    catch( std::exception const& e )
    {
      violation( "unexpected-exception:" + demangle( typeid( e ).name() ), std::string( "what: " ) + e.what() + " | phase: " + s.sh->note );
    }
    std::string r;
    auto put = [ &r ]( char kind, std::string const& a, std::string const& b )
    {
      r += kind;
      r += std::to_string( a.size() ) + " " + std::to_string( b.size() ) + " " + a + b;
    };
    for( auto const& e : s.events ) { put( 'E', e.first, std::to_string( e.second ) ); }
    for( uint64_t h : s.sigs ) { put( 'S', std::to_string( h ), "" ); }
    for( auto const& e : s.samples ) { put( 'P', e, "" ); }
    for( auto const& v : s.violations ) { put( 'V', v.key, v.detail ); }
    put( skip ? 'K' : 'D', "", "" );
    size_t off = 0;
    while( off < r.size() )
    {
      ssize_t n = ::write( out, r.data() + off, r.size() - off );
      if( n <= 0 ) { break; }
      off += static_cast< size_t >( n );
    }
    ::close( out );
    std::_Exit( 0 );
  }
  ::close( fds[ 1 ] );
  std::string r;
  char b[ 65536 ];
  ssize_t n;
  while( ( n = ::read( fds[ 0 ], b, sizeof b ) ) > 0 ) { r.append( b, static_cast< size_t >( n ) ); }
  ::close( fds[ 0 ] );
  int status = 0;
  ::waitpid( pid, &status, 0 );
  if( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGALRM ) { violation( "hang", std::string( "phase: " ) + st().sh->note ); throw CaseFail(); }
  if( WIFSIGNALED( status ) )
  {
    std::signal( WTERMSIG( status ), SIG_DFL );
    ::raise( WTERMSIG( status ) );
    std::_Exit( 128 + WTERMSIG( status ) );
  }
  if( WEXITSTATUS( status ) ) { std::_Exit( WEXITSTATUS( status ) ); }
  size_t off = 0;
  bool skip = false, done = false;
  while( off < r.size() )
  {
    char kind = r[ off++ ];
    char* e = nullptr;
    size_t la = std::strtoul( r.c_str() + off, &e, 10 ), lb = std::strtoul( e, &e, 10 );
    off = static_cast< size_t >( e - r.c_str() ) + 1;
    std::string a = r.substr( off, la ), c = r.substr( off + la, lb );
    off += la + lb;
    switch( kind )
    {
    case 'E': event( a, std::strtoull( c.c_str(), nullptr, 10 ) ); break;
    case 'S': sig( static_cast< uint64_t >( std::strtoull( a.c_str(), nullptr, 10 ) ) ); break;
    case 'P': sample( a ); break;
    case 'V': violation( a, c ); break;
    case 'K': skip = true; done = true; break;
    default: done = true;
    }
  }
  if( !done ) { violation( "child-vanished", std::string( "phase: " ) + st().sh->note ); throw CaseFail(); }
  if( skip ) { throw CaseSkip(); }
}

} // namespace vm
#endif
