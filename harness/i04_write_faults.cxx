// I04: a write that did not reach the file is always reported.
// Every call that opens, writes or closes the output (or creates its folder) is made to fail in turn, from
// within the process, and the kernel's own file size limit stands for a disk that is full at every byte.
#include "vm.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
#include <vital/types/landmark_map.h>
#include <vital/types/track_set.h>
#include <vital/types/feature.h>
#include <vital/io/camera_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/exceptions.h>
#include <cerrno>
#include <csignal>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <stdarg.h>

using namespace kwiver::vital;

// -- the calls that reach the file -------------------------------------------
namespace fault {

enum Kind { NONE, FAIL, SHORT, INTERRUPT };
bool armed = false;          // only within a write call under test
int target_fd = -1;          // the output
std::string target;          // its path
unsigned calls = 0;          // calls seen
unsigned at = 0;             // which call is struck (1-based)
unsigned upto = 0;           // and the last one struck
Kind kind = NONE;
int error = 0;
unsigned struck = 0;
bool lossy = false;
std::string log;

bool strike( char const* what )
{
  ++calls;
  log += std::string( what ) + " ";
  return kind != NONE && calls >= at && calls <= upto;
}

bool is_target( char const* p ) { return armed && p && target == p; }

} // namespace fault

extern "C" {

ssize_t write( int fd, void const* p, size_t n )
{
  if( fault::armed && fd == fault::target_fd && fault::strike( "write" ) )
  {
    ++fault::struck;
    if( fault::kind == fault::SHORT && n > 1 ) { return syscall( SYS_write, fd, p, n / 2 ); }
    if( fault::kind == fault::INTERRUPT ) { errno = EINTR; return -1; }
    if( fault::kind == fault::FAIL ) { fault::lossy = true; errno = fault::error; return -1; }
  }
  return syscall( SYS_write, fd, p, n );
}

ssize_t writev( int fd, iovec const* v, int c )
{
  if( fault::armed && fd == fault::target_fd && fault::strike( "writev" ) )
  {
    ++fault::struck;
    if( fault::kind == fault::SHORT && c > 0 )
    {
      for( int i = 0; i < c; ++i ) { if( v[ i ].iov_len ) { return syscall( SYS_write, fd, v[ i ].iov_base, ( v[ i ].iov_len + 1 ) / 2 ); } }
    }
    if( fault::kind == fault::INTERRUPT ) { errno = EINTR; return -1; }
    if( fault::kind == fault::FAIL ) { fault::lossy = true; errno = fault::error; return -1; }
  }
  return syscall( SYS_writev, fd, v, c );
}

static FILE* opened( char const* p, FILE* f )
{
  if( fault::is_target( p ) && f ) { fault::target_fd = fileno( f ); }
  return f;
}

FILE* fopen( char const* p, char const* m )
{
  typedef FILE* ( *fn )( char const*, char const* );
  static fn real = reinterpret_cast< fn >( dlsym( RTLD_NEXT, "fopen" ) );
  if( fault::is_target( p ) && fault::strike( "open" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; return nullptr; }
  return opened( p, real( p, m ) );
}

FILE* fopen64( char const* p, char const* m )
{
  typedef FILE* ( *fn )( char const*, char const* );
  static fn real = reinterpret_cast< fn >( dlsym( RTLD_NEXT, "fopen64" ) );
  if( fault::is_target( p ) && fault::strike( "open" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; return nullptr; }
  return opened( p, real( p, m ) );
}

static int opening( char const* p, int flags, mode_t mode )
{
  if( fault::is_target( p ) && ( flags & ( O_WRONLY | O_RDWR ) ) && fault::strike( "open" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; return -1; }
  int fd = static_cast< int >( syscall( SYS_openat, AT_FDCWD, p, flags, mode ) );
  if( fault::is_target( p ) && fd >= 0 && ( flags & ( O_WRONLY | O_RDWR ) ) ) { fault::target_fd = fd; }
  return fd;
}

int open( char const* p, int flags, ... )
{
  va_list a;
  va_start( a, flags );
  mode_t mode = ( flags & O_CREAT ) ? va_arg( a, mode_t ) : 0;
  va_end( a );
  return opening( p, flags, mode );
}

int open64( char const* p, int flags, ... )
{
  va_list a;
  va_start( a, flags );
  mode_t mode = ( flags & O_CREAT ) ? va_arg( a, mode_t ) : 0;
  va_end( a );
  return opening( p, flags, mode );
}

int fclose( FILE* f )
{
  typedef int ( *fn )( FILE* );
  static fn real = reinterpret_cast< fn >( dlsym( RTLD_NEXT, "fclose" ) );
  bool ours = fault::armed && f && fileno( f ) == fault::target_fd;
  int rc = real( f );
  if( ours )
  {
    if( fault::strike( "close" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; rc = EOF; }
    fault::target_fd = -1;
  }
  return rc;
}

int close( int fd )
{
  bool ours = fault::armed && fd == fault::target_fd;
  int rc = static_cast< int >( syscall( SYS_close, fd ) );
  if( ours )
  {
    if( fault::strike( "close" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; rc = -1; }
    fault::target_fd = -1;
  }
  return rc;
}

int mkdir( char const* p, mode_t m )
{
  if( fault::armed && fault::strike( "mkdir" ) && fault::kind == fault::FAIL ) { ++fault::struck; fault::lossy = true; errno = fault::error; return -1; }
  return static_cast< int >( syscall( SYS_mkdirat, AT_FDCWD, p, m ) );
}

} // extern "C"

namespace {

struct Once { Once() { vm::quiet_stderr(); std::signal( SIGXFSZ, SIG_IGN ); } } once;

typedef std::function< void( std::string const& ) > Writer;

// outcome of one write
struct Out { bool thrown = false, right_type = false; std::string what; };

Out attempt( Writer const& w, std::string const& path )
{
  Out o;
  fault::target = path;
  fault::target_fd = -1;
  fault::calls = fault::struck = 0;
  fault::lossy = false;
  fault::log.clear();
  fault::armed = true;
  try { w( path ); }
  catch( file_write_exception const& e ) { o.thrown = o.right_type = true; o.what = e.what(); }
  catch( config_file_write_exception const& e ) { o.thrown = o.right_type = true; o.what = e.what(); }
  catch( std::exception const& e ) { o.thrown = true; o.what = vm::demangle( typeid( e ).name() ) + ": " + e.what(); }
  fault::armed = false;
  return o;
}

void judge( std::string const& name, Out const& o, std::string const& path, std::string const& content, bool must_fail, std::string const& what )
{
  if( o.thrown )
  {
    VM_CHECK( o.right_type, name + ":exception-type", what << ": raised " << o.what << " instead of the write error" );
    vm::event( "reported" );
    return;
  }
  VM_CHECK( !must_fail, name + ":unreported", what << " (calls: " << fault::log << "): the write returned as if all was well; the file holds " << vm::slurp( path ).size() << " of " << content.size() << " bytes" );
  std::string got = vm::slurp( path );
  VM_CHECK( got == content, name + ":incomplete", what << " (calls: " << fault::log << "): returned as if all was well, but the file holds " << got.size() << " bytes instead of " << content.size() << ": "
            << vm::show( got.substr( 0, 300 ) ) );
  vm::event( "survived" );
}

Writer make( vm::Rng& r, std::string& name, std::string& shape )
{
  unsigned kind = static_cast< unsigned >( r.below( 4 ) );
  size_t n = r.chance( 1, 3 ) ? static_cast< size_t >( r.range( 1, 4 ) ) : r.chance( 1, 2 ) ? static_cast< size_t >( r.range( 5, 60 ) ) : static_cast< size_t >( r.range( 100, 900 ) );
  shape = std::to_string( n < 5 ? n : n / 50 * 50 );
  if( kind == 0 )
  {
    name = "config";
    config_block_sptr c = config_block::empty_config();
    for( size_t i = 0; i < n; ++i )
    {
      std::string k = r.str( "abcdef", 1, 4 ) + std::to_string( i );
      if( r.chance( 1, 3 ) ) { k = "blk:" + k; }
      c->set_value( k, r.str( "abc 01", 1, 30 ) + "x", r.chance( 1, 3 ) ? config_block_description_t( "some text" ) : config_block_description_t() );
    }
    return [ c ]( std::string const& p ) { write_config_file( c, p ); };
  }
  if( kind == 1 )
  {
    name = "camera";
    Eigen::VectorXd d( static_cast< long >( n > 100 ? 5 : n % 9 ) );
    for( long i = 0; i < d.size(); ++i ) { d[ i ] = r.gauss(); }
    simple_camera c( vector_3d( r.gauss(), r.gauss(), r.gauss() ), rotation_d( vector_3d( r.gauss(), r.gauss(), r.gauss() ) ), simple_camera_intrinsics( 1000 + r.gauss(), vector_2d( r.gauss(), r.gauss() ), 1.0, 0.0, d ) );
    return [ c ]( std::string const& p ) { write_krtd_file( c, p ); };
  }
  if( kind == 2 )
  {
    name = "landmarks";
    landmark_map::map_landmark_t m;
    for( size_t i = 0; i < n; ++i ) { m[ static_cast< landmark_id_t >( i ) ] = std::make_shared< landmark_d >( vector_3d( r.gauss(), r.gauss(), r.gauss() ) ); }
    landmark_map_sptr l( new simple_landmark_map( m ) );
    return [ l ]( std::string const& p ) { write_ply_file( l, p ); };
  }
  name = "tracks";
  std::vector< track_sptr > ts;
  for( size_t i = 0; i < n; ++i )
  {
    if( i % 5 == 0 ) { ts.push_back( std::make_shared< track >() ); ts.back()->set_id( static_cast< track_id_t >( i ) ); }
    ts.back()->append( track::track_state( static_cast< frame_id_t >( i ), std::make_shared< feature_d >( vector_2d( r.gauss(), r.gauss() ), r.gauss() ), descriptor_sptr() ) );
  }
  track_set_sptr t( new simple_track_set( ts ) );
  return [ t ]( std::string const& p ) { write_track_file( t, p ); };
}

void limit( rlim_t n )
{
  rlimit l;
  getrlimit( RLIMIT_FSIZE, &l );
  l.rlim_cur = n;
  setrlimit( RLIMIT_FSIZE, &l );
}

void body( vm::Rng& r, uint64_t )
{
  std::string name, shape;
  Writer w = make( r, name, shape );
  std::string base = vm::dir() + "/o";
  syscall( SYS_mkdirat, AT_FDCWD, base.c_str(), 0755 );
  bool folder = r.chance( 1, 3 );
  // what a write without faults gives, and the calls it takes
  std::string ref = base + ( folder ? "/ref/a/out" : "/ref.out" );
  fault::kind = fault::NONE;
  Out o = attempt( w, ref );
  std::string content = vm::slurp( ref ), log = fault::log;
  unsigned calls = fault::calls;
  VM_CHECK( !o.thrown && !content.empty(), name + ":plain-write", "a write without faults: " << o.what );
  VM_CHECK( calls >= 3, "harness:calls", "only " << log << " seen" );
  if( vm::st().samples.size() < 3 ) { vm::sample( name + ", " + std::to_string( content.size() ) + " bytes: " + log ); }
  vm::sig( name + shape + log.substr( 0, 200 ) );
  vm::event( name );

  auto fresh = [ & ]( bool old ) -> std::string
  {
    static unsigned n = 0;
    std::string d = base + "/t" + std::to_string( ++n );
    if( folder ) { return d + "/a/out"; }
    if( old ) { vm::spit( d + ".out", content + content ); }    // a longer older file
    return d + ".out";
  };

  // 1. each call struck in turn, once and from there on
  int errors[] = { EIO, ENOSPC, EDQUOT, EACCES, EMFILE, EROFS, EINVAL };
  std::vector< unsigned > points;
  for( unsigned k = 1; k <= calls; ++k ) { if( calls < 40 || k <= 4 || k + 4 > calls || r.chance( 20, calls ) ) { points.push_back( k ); } }
  for( unsigned k : points )
  {
    for( int onward = 0; onward < 2; ++onward )
    {
      std::string p = fresh( r.chance( 1, 3 ) );
      fault::kind = fault::FAIL;
      fault::at = k;
      fault::upto = onward ? 1000000 : k;
      fault::error = errors[ r.below( 7 ) ];
      vm::note( name + " failing call " + std::to_string( k ) + " of " + log.substr( 0, 500 ) );
      o = attempt( w, p );
      std::ostringstream s;
      s << name << ": call " << k << " of " << calls << ( onward ? " and those after it" : "" ) << " failed with " << std::strerror( fault::error );
      // a failing mkdir of a folder that exists by then loses nothing
      bool lossy = fault::lossy;
      if( lossy && fault::log.find( "open " ) == std::string::npos ) { lossy = true; }
      judge( name, o, p, content, lossy && fault::log.find( "mkdir" ) == std::string::npos, s.str() );
      vm::event( "faults" );
    }
  }
  // 2. short and interrupted writes
  for( unsigned k : points )
  {
    if( points.size() > 12 && !r.chance( 12, static_cast< unsigned >( points.size() ) ) ) { continue; }
    std::string p = fresh( r.chance( 1, 3 ) );
    fault::kind = r.chance( 1, 2 ) ? fault::SHORT : fault::INTERRUPT;
    fault::at = k;
    fault::upto = fault::kind == fault::SHORT ? k + 50 : k;
    std::string what = name + ( fault::kind == fault::SHORT ? ": short" : ": interrupted" ) + " write at call " + std::to_string( k );
    vm::note( what );
    o = attempt( w, p );
    judge( name, o, p, content, false, what );
    if( fault::struck ) { vm::event( fault::kind == fault::SHORT ? "short_writes" : "interrupted_writes" ); }
  }
  // 3. the disk is full after so many bytes
  fault::kind = fault::NONE;
  for( int n = 0; n < 12; ++n )
  {
    size_t room = n == 0 ? 0 : n == 1 ? content.size() - 1 : n == 2 ? content.size() : n == 3 ? std::min< size_t >( 8191, content.size() - 1 ) : r.below( content.size() );
    std::string p = fresh( r.chance( 1, 3 ) && room > 0 );
    std::string what = name + ": room for " + std::to_string( room ) + " of " + std::to_string( content.size() ) + " bytes";
    vm::note( what );
    limit( room );
    o = attempt( w, p );
    limit( RLIM_INFINITY );
    judge( name, o, p, content, room < content.size(), what );
    vm::event( room < content.size() ? "disk_full" : "disk_just_big_enough" );
  }
  // 4. targets that can not be written
  std::string d = base + "/dir", f = base + "/file";
  syscall( SYS_mkdirat, AT_FDCWD, d.c_str(), 0755 );
  vm::spit( f, "x" );
  if( ::symlink( "/dev/full", ( base + "/full" ).c_str() ) ) { }
  if( ::symlink( ( base + "/loop" ).c_str(), ( base + "/loop" ).c_str() ) ) { }
  for( std::string const& p : { d, d + "/", f + "/below", f + "/deep/below", base + "/full", base + "/loop", base + "/" + std::string( 300, 'n' ), base + "/" + std::string( 300, 'n' ) + "/f", base + "/" + std::string( 5000, 'n' ) } )
  {
    vm::note( name + " to " + p );
    o = attempt( w, p );
    VM_CHECK( o.thrown, name + ":bad-target", "writing to " << vm::show( p.substr( base.size(), 200 ) ) << " returned as if all was well" );
    VM_CHECK( o.right_type, name + ":exception-type", "writing to " << vm::show( p.substr( base.size(), 200 ) ) << " raised " << o.what );
    vm::event( "bad_targets" );
  }
  VM_CHECK( vm::slurp( f ) == "x", name + ":damage", "a file in the place of a folder was changed" );
  vm::rmtree( base );
}

} // namespace

VM_MAIN( body )
