// L01: every enabled message appears once, whole and labelled; others never.
#include "vm.h"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/location_info.h>
#include <atomic>
#include <chrono>
#include <thread>

namespace kv = kwiver::vital;
typedef kv::kwiver_logger KL;

namespace {

// made before main, as in every library
kv::logger_handle_t early( kv::get_logger( "early" ) );

char const* const level_names[] = { "", "", "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };

enum Api { MACRO, DIRECT, DIRECT_LOC, MESSAGE, MESSAGE_LOC, ASSERTION, APIS };
char const* const api_names[] = { "macro", "direct", "direct_with_place", "log_message", "log_message_with_place", "assertion" };

struct Call
{
  unsigned logger;
  int level;
  Api api;
  std::string text, file;
  int line;                 // of the macro or the given place
  bool truth;               // of the assertion
  int set_level = 0;        // instead of logging
  // what came of it
  int lo = 0, hi = 0;       // levels the logger may have had
  unsigned evaluated = 0;
  long before = 0, after = 0;
};

long now_ms() { return std::chrono::duration_cast< std::chrono::milliseconds >( std::chrono::system_clock::now().time_since_epoch() ).count(); }
long steady_ms() { return std::chrono::duration_cast< std::chrono::milliseconds >( std::chrono::steady_clock::now().time_since_epoch() ).count(); }

std::string const& eval( Call& c ) { ++c.evaluated; return c.text; }

void perform( kv::logger_handle_t const& lg, Call& c )
{
  c.before = now_ms();
  switch( c.api )
  {
  case MACRO:
    switch( c.level )
    {
    case KL::LEVEL_TRACE: c.line = __LINE__; LOG_TRACE( lg, eval( c ) ); break;
    case KL::LEVEL_DEBUG: c.line = __LINE__; LOG_DEBUG( lg, eval( c ).substr( 0, 5 ) << c.text.substr( 5 ) ); break;
    case KL::LEVEL_INFO: c.line = __LINE__; LOG_INFO( lg, eval( c ) ); break;
    case KL::LEVEL_WARN: c.line = __LINE__; LOG_WARN( lg, eval( c ) ); break;
    case KL::LEVEL_ERROR: c.line = __LINE__; LOG_ERROR( lg, eval( c ) ); break;
    default: c.line = __LINE__; LOG_FATAL( lg, eval( c ) );
    }
    break;
  case DIRECT:
    switch( c.level )
    {
    case KL::LEVEL_TRACE: lg->log_trace( c.text ); break;
    case KL::LEVEL_DEBUG: lg->log_debug( c.text ); break;
    case KL::LEVEL_INFO: lg->log_info( c.text ); break;
    case KL::LEVEL_WARN: lg->log_warn( c.text ); break;
    case KL::LEVEL_ERROR: lg->log_error( c.text ); break;
    default: lg->log_fatal( c.text );
    }
    break;
  case DIRECT_LOC:
  {
    kv::logger_ns::location_info li( c.file.c_str(), "method", c.line );
    switch( c.level )
    {
    case KL::LEVEL_TRACE: lg->log_trace( c.text, li ); break;
    case KL::LEVEL_DEBUG: lg->log_debug( c.text, li ); break;
    case KL::LEVEL_INFO: lg->log_info( c.text, li ); break;
    case KL::LEVEL_WARN: lg->log_warn( c.text, li ); break;
    case KL::LEVEL_ERROR: lg->log_error( c.text, li ); break;
    default: lg->log_fatal( c.text, li );
    }
    break;
  }
  case MESSAGE: lg->log_message( static_cast< KL::log_level_t >( c.level ), c.text ); break;
  case MESSAGE_LOC: lg->log_message( static_cast< KL::log_level_t >( c.level ), c.text, kv::logger_ns::location_info( c.file.c_str(), "method", c.line ) ); break;
  default:
  {
    bool is_so = c.truth;
    c.line = __LINE__; LOG_ASSERT( lg, is_so, c.text );
  }
  }
  c.after = now_ms();
}

std::string place( Call const& c )
{
  if( c.api == DIRECT || c.api == MESSAGE ) { return ""; }
  std::string f = c.api == MACRO || c.api == ASSERTION ? std::string( __FILE__ ) : c.file;
  return f.substr( f.rfind( '/' ) + 1 ) + "(" + std::to_string( c.line ) + "): ";
}

std::vector< std::string > lines_of( std::string const& t )
{
  std::vector< std::string > r;
  size_t b = 0;
  while( b < t.size() )
  {
    size_t e = t.find( '\n', b );
    if( e == std::string::npos ) { r.push_back( t.substr( b ) ); break; }
    r.push_back( t.substr( b, e - b ) );
    b = e + 1;
  }
  return r;
}

int saved_stderr = -1;

struct Capture
{
  std::string file = vm::dir() + "/stderr";
  Capture()
  {
    int fd = ::open( file.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
    if( fd < 0 ) { std::_Exit( 3 ); }
    ::dup2( fd, 2 );
    ::close( fd );
  }
  std::string end()
  {
    std::cerr.flush();
    int fd = ::open( "/dev/null", O_WRONLY );
    ::dup2( fd, 2 );
    ::close( fd );
    return vm::slurp( file );
  }
};

void histories( vm::Rng& r, uint64_t idx )
{
  vm::OtherLocale other( r.chance( 1, 8 ) );
  unsigned threads = static_cast< unsigned >( r.chance( 1, 4 ) ? 1 : r.range( 2, 6 ) );
  unsigned n_loggers = static_cast< unsigned >( r.range( 1, 5 ) );
  std::vector< kv::logger_handle_t > loggers;
  std::vector< std::string > names;
  std::vector< int > level( n_loggers );
  std::vector< int > owner( n_loggers, -1 );          // the thread that changes its level; -2 the one that changes it at any time
  std::vector< std::pair< int, int > > range( n_loggers );
  for( unsigned l = 0; l < n_loggers; ++l )
  {
    std::string n = r.chance( 1, 10 ) && l == 0 ? "" : "log" + vm::str( l ) + r.str( ".ab", 0, 3 );
    names.push_back( n );
    loggers.push_back( kv::get_logger( n ) );
    VM_CHECK( loggers[ l ] && loggers[ l ]->get_name() == n, "name", "logger " << n << " is called " << loggers[ l ]->get_name() );
    VM_CHECK( loggers[ l ]->get_factory_name() == "default_logger factory", "factory", loggers[ l ]->get_factory_name() );
    level[ l ] = static_cast< int >( r.range( KL::LEVEL_TRACE, KL::LEVEL_FATAL ) );
    loggers[ l ]->set_level( static_cast< KL::log_level_t >( level[ l ] ) );
    unsigned k = static_cast< unsigned >( r.below( 4 ) );
    if( k == 0 ) { owner[ l ] = static_cast< int >( r.below( threads ) ); }
    range[ l ] = { level[ l ], level[ l ] };
    if( k == 1 && threads > 1 )
    {
      owner[ l ] = -2;
      int other = static_cast< int >( r.range( KL::LEVEL_TRACE, KL::LEVEL_FATAL ) );
      range[ l ] = { std::min( level[ l ], other ), std::max( level[ l ], other ) };
    }
  }
  // levels do not leak from one logger to another
  for( unsigned l = 0; l < n_loggers; ++l )
  {
    for( unsigned m = 0; m < l; ++m ) { VM_CHECK( ( loggers[ l ] == loggers[ m ] ) == ( names[ l ] == names[ m ] ), "wrong-logger", names[ l ] << " and " << names[ m ] ); }
    int v = level[ l ];
    VM_CHECK( loggers[ l ]->get_level() == v && IS_TRACE_ENABLED( loggers[ l ] ) == ( v <= KL::LEVEL_TRACE ) && IS_DEBUG_ENABLED( loggers[ l ] ) == ( v <= KL::LEVEL_DEBUG ) && IS_INFO_ENABLED( loggers[ l ] ) == ( v <= KL::LEVEL_INFO )
              && IS_WARN_ENABLED( loggers[ l ] ) == ( v <= KL::LEVEL_WARN ) && IS_ERROR_ENABLED( loggers[ l ] ) == ( v <= KL::LEVEL_ERROR ) && IS_FATAL_ENABLED( loggers[ l ] ), "wrong-level", names[ l ] << " at " << v );
  }
  // what each thread will do
  std::vector< std::vector< Call > > plan( threads );
  std::string alphabet = "abc %d(){}:=\t\"\\";
  alphabet += '\x01';
  bool big = r.chance( 1, 6 );
  for( unsigned t = 0; t < threads; ++t )
  {
    std::vector< int > mine = level;
    unsigned n = static_cast< unsigned >( r.range( 5, big ? 15 : 80 ) );
    for( unsigned i = 0; i < n; ++i )
    {
      Call c;
      c.logger = static_cast< unsigned >( r.below( n_loggers ) );
      c.level = static_cast< int >( r.range( KL::LEVEL_TRACE, KL::LEVEL_FATAL ) );
      c.api = r.chance( 1, 2 ) ? MACRO : static_cast< Api >( r.below( APIS ) );
      c.truth = r.chance( 1, 2 );
      if( c.api == ASSERTION ) { c.level = KL::LEVEL_ERROR; }
      if( owner[ c.logger ] == static_cast< int >( t ) && r.chance( 1, 4 ) ) { c.set_level = static_cast< int >( r.range( KL::LEVEL_TRACE, KL::LEVEL_FATAL ) ); mine[ c.logger ] = c.set_level; }
      c.file = r.chance( 1, 3 ) ? "/some/where/source" + vm::str( r.below( 9 ) ) + ".cxx" : r.chance( 1, 2 ) ? "plain.h" : r.str( "ab/.", 0, 9 ) + "x";
      c.line = static_cast< int >( r.range( 0, 100000 ) );
      c.text = "<" + vm::str( t ) + "." + vm::str( i ) + ">";
      for( unsigned k = static_cast< unsigned >( r.chance( 1, 4 ) ? r.below( 6 ) : 1 ); k; --k )
      {
        c.text += r.str( alphabet.c_str(), 0, big && r.chance( 1, 3 ) ? 20000 : 30 );
        if( r.chance( 1, 30 ) ) { c.text += '\0'; }
        if( k > 1 || r.chance( 1, 8 ) ) { c.text += '\n'; }
      }
      c.lo = c.hi = mine[ c.logger ];
      if( owner[ c.logger ] == -2 || ( owner[ c.logger ] >= 0 && owner[ c.logger ] != static_cast< int >( t ) ) ) { c.lo = range[ c.logger ].first; c.hi = range[ c.logger ].second; }
      if( owner[ c.logger ] >= 0 && owner[ c.logger ] != static_cast< int >( t ) ) { c.lo = KL::LEVEL_TRACE; c.hi = KL::LEVEL_FATAL; }
      plan[ t ].push_back( c );
    }
  }
  long s0 = steady_ms(), w0 = now_ms();
  Capture cap;
  std::atomic< unsigned > ready( 0 ), running( threads );
  std::vector< std::vector< kv::logger_handle_t > > handles( threads );
  auto work = [ & ]( unsigned t )
  {
    ++ready;
    while( ready.load() < threads ) { std::this_thread::yield(); }
    for( auto& c : plan[ t ] )
    {
      // the same logger whoever asks, and whether kept or asked for anew
      kv::logger_handle_t lg = ( c.line + c.level ) % 3 ? loggers[ c.logger ] : kv::get_logger( names[ c.logger ] );
      handles[ t ].push_back( lg );
      if( c.set_level ) { lg->set_level( static_cast< KL::log_level_t >( c.set_level ) ); continue; }
      perform( lg, c );
    }
    --running;
  };
  if( threads == 1 ) { work( 0 ); }
  else
  {
    std::vector< std::thread > ts;
    for( unsigned t = 0; t < threads; ++t ) { ts.push_back( std::thread( work, t ) ); }
    bool flip = false;
    while( running.load() )
    {
      flip = !flip;
      for( unsigned l = 0; l < n_loggers; ++l ) { if( owner[ l ] == -2 ) { loggers[ l ]->set_level( static_cast< KL::log_level_t >( flip ? range[ l ].first : range[ l ].second ) ); } }
      std::this_thread::yield();
    }
    for( auto& t : ts ) { t.join(); }
  }
  std::string out = cap.end();
  // a clock set meanwhile makes its readings worthless
  bool clock_ok = std::labs( ( now_ms() - w0 ) - ( steady_ms() - s0 ) ) < 3;

  for( unsigned t = 0; t < threads; ++t )
  {
    size_t i = 0;
    for( auto const& c : plan[ t ] ) { VM_CHECK( handles[ t ][ i++ ] == loggers[ c.logger ], "wrong-logger", names[ c.logger ] ); }
  }

  // ---- the offline check of everything that came out ----
  std::vector< std::string > lines = lines_of( out );
  VM_CHECK( out.empty() || out[ out.size() - 1 ] == '\n', "torn", "the last line is not ended: " << vm::show( lines.back().substr( 0, 200 ) ) );
  std::vector< long > last( threads, -1 );
  std::set< std::pair< unsigned, unsigned > > seen;
  std::string order;
  unsigned switches = 0, last_thread = 99;
  for( size_t p = 0; p < lines.size(); )
  {
    auto head = [ & ]( size_t q, long& ms, std::string& lev ) -> std::string
    {
      std::string const& s = lines[ q ];
      struct tm tm;
      std::memset( &tm, 0, sizeof tm );
      int frac = -1;
      bool ok = s.size() > 24 && std::sscanf( s.c_str(), "%4d-%2d-%2d %2d:%2d:%2d.%3d", &tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &frac ) == 7 && s[ 19 ] == '.' && s[ 23 ] == ' ';
      VM_CHECK( ok, "torn", "line " << q << ": " << vm::show( s.substr( 0, 200 ) ) );
      tm.tm_year -= 1900;
      tm.tm_mon -= 1;
      ms = static_cast< long >( std::mktime( &tm ) ) * 1000 + frac;
      size_t e = s.find( ' ', 24 );
      VM_CHECK( e != std::string::npos, "torn", "line " << q << ": " << vm::show( s.substr( 0, 200 ) ) );
      lev = s.substr( 24, e - 24 );
      return s.substr( e + 1 );
    };
    long ms;
    std::string lev, text = head( p, ms, lev );
    // whose message is it
    size_t id = text.find( '<' );
    bool assertion = false;
    if( text.find( "ASSERTION FAILED" ) != std::string::npos )
    {
      assertion = true;
      VM_CHECK( p + 1 < lines.size(), "torn", "assertion without message" );
      long ms2;
      text = head( p + 1, ms2, lev );
      id = text.find( '<' );
    }
    unsigned t = 0, n = 0;
    VM_CHECK( id != std::string::npos && std::sscanf( text.c_str() + id, "<%u.%u>", &t, &n ) == 2 && t < threads && n < plan[ t ].size(), "torn", "line " << p << ": " << vm::show( text.substr( 0, 200 ) ) );
    Call const& c = plan[ t ][ n ];
    VM_CHECK( assertion == ( c.api == ASSERTION ) && !c.set_level, "torn", "line " << p << ": " << vm::show( text.substr( 0, 200 ) ) );
    VM_CHECK( seen.insert( { t, n } ).second, "twice", "message " << t << "." << n << " at line " << p );
    VM_CHECK( last[ t ] < static_cast< long >( n ), "order", "message " << n << " of thread " << t << " comes after " << last[ t ] );
    last[ t ] = static_cast< long >( n );
    std::vector< std::string > want = lines_of( ( assertion ? "ASSERTION FAILED: (is_so)\n" : "" ) + c.text );
    for( size_t k = 0; k < want.size(); ++k )
    {
      VM_CHECK( p + k < lines.size(), "torn", "message " << t << "." << n << " ends after " << k << " of " << want.size() << " lines" );
      long ms2;
      std::string lev2, got = head( p + k, ms2, lev2 );
      VM_CHECK( lev2 == level_names[ c.level ], "label", lev2 << " instead of " << level_names[ c.level ] << " by " << api_names[ c.api ] );
      VM_CHECK( got == place( c ) + want[ k ], k ? "torn" : "label", "by " << api_names[ c.api ] << " line " << k << " of message " << t << "." << n << " is '" << vm::show( got.substr( 0, 200 ) ) << "' instead of '" << vm::show( ( place( c ) + want[ k ] ).substr( 0, 200 ) ) << "'" );
      if( clock_ok )
      {
        VM_CHECK( ms2 >= c.before - 1 && ms2 <= c.after + 1, "time", "message made between " << c.before << " and " << c.after << " is dated " << ms2 << ": " << lines[ p + k ].substr( 0, 40 ) );
        if( ms2 % 1000 < 100 ) { vm::event( "early_milliseconds" ); }
      }
    }
    if( want.size() > 1 ) { vm::event( "multi_line" ); }
    if( c.text.size() > 5000 ) { vm::event( "long_messages" ); }
    // was it due at all
    VM_CHECK( c.level >= c.lo && !( assertion && c.truth ), "not-enabled", level_names[ c.level ] << " message by " << api_names[ c.api ] << " of a logger at " << level_names[ c.lo ] );
    if( c.api == MACRO ) { VM_CHECK( c.evaluated == 1, "evaluated", c.evaluated << " times" ); }
    vm::event( std::string( "shown_" ) + api_names[ c.api ] );
    vm::event( std::string( "shown_" ) + level_names[ c.level ] );
    if( t != last_thread ) { ++switches; last_thread = t; }
    order += static_cast< char >( 'a' + t );
    p += want.size();
  }
  // and what did not come out
  for( unsigned t = 0; t < threads; ++t )
  {
    for( unsigned n = 0; n < plan[ t ].size(); ++n )
    {
      Call const& c = plan[ t ][ n ];
      if( c.set_level ) { vm::event( "level_set_by_thread" ); continue; }
      if( c.lo < c.hi && c.level >= c.lo && c.level < c.hi ) { vm::event( "undetermined" ); continue; }
      bool due = c.level >= c.hi && !( c.api == ASSERTION && c.truth );
      if( due ) { VM_CHECK( seen.count( { t, n } ), "lost", level_names[ c.level ] << " message " << t << "." << n << " by " << api_names[ c.api ] << " of a logger at " << level_names[ c.hi ] ); }
      else
      {
        VM_CHECK( c.evaluated == 0, "evaluated", "arguments of a " << level_names[ c.level ] << " message of a logger at " << level_names[ c.lo ] );
        vm::event( std::string( "held_back_" ) + api_names[ c.api ] );
      }
    }
  }
  vm::event( "lines_checked", lines.size() );
  if( threads > 1 ) { vm::event( "thread_switches", switches ); }
  vm::sig( vm::hash( order + vm::str( threads ) ) ^ vm::mix( out.size() ) );
  if( idx % 50 == 0 ) { vm::sample( vm::str( threads ) + " threads, order " + order.substr( 0, 150 ) ); }
}

void places( vm::Rng& r )
{
  std::string ns = r.chance( 1, 2 ) ? "ns::" + r.str( "ab", 0, 2 ) + ( r.chance( 1, 2 ) ? "x::" : "y::" ) : "", cls = r.chance( 2, 3 ) ? "Cls" + r.str( "ab", 0, 3 ) : "", m = "meth" + r.str( "od_", 0, 4 );
  std::string ret = r.chance( 1, 3 ) ? "void " : r.chance( 1, 2 ) ? "std::map<int, std::string> " : "static unsigned long ", args = r.chance( 1, 2 ) ? "()" : r.chance( 1, 2 ) ? "(std::string const&, int)" : "(T) [with T = std::vector<int>]";
  if( cls.empty() ) { ns.clear(); }
  std::string file = ( r.chance( 1, 2 ) ? "/dir/" + r.str( "ab", 1, 3 ) : std::string() ), name = r.str( "fg", 1, 4 ) + ".cxx";
  std::string full = file.empty() ? name : file + "/" + name;
  std::string sgn = ret + ns + ( cls.empty() ? "" : cls + "::" ) + m + args;
  int line = static_cast< int >( r.range( -1, 1000000 ) );
  kv::logger_ns::location_info li( full.c_str(), sgn.c_str(), line );
  VM_CHECK( li.get_file_name() == name && li.get_file_path() == file, "place", full << " gives " << li.get_file_path() << " and " << li.get_file_name() );
  VM_CHECK( li.get_signature() == sgn && li.get_method_name() == m && li.get_class_name() == ns + cls, "place", sgn << " gives " << li.get_class_name() << " and " << li.get_method_name() );
  VM_CHECK( li.get_line_number() == line, "place", "line " << line );
  kv::logger_ns::location_info unknown;
  VM_CHECK( unknown.get_file_name() == kv::logger_ns::location_info::NA && unknown.get_file_path().empty() && unknown.get_line_number() == -1 && unknown.get_signature() == kv::logger_ns::location_info::NA_METHOD &&
            unknown.get_method_name() == "?" && unknown.get_class_name() == "?", "place-unknown", unknown.get_file_name() << " " << unknown.get_signature() << " " << unknown.get_line_number() );
  vm::event( "places" );
}

// ---- factories chosen by the environment: a process of its own ----------
std::string extra( std::string const& which )
{
  std::string const& e = vm::st().extra;
  size_t p = e.find( which + "=" ) + which.size() + 1;
  return e.substr( p, e.find( ',', p ) - p );
}

class own_logger : public kv::kwiver_logger
{
public:
  own_logger( kv::logger_ns::kwiver_logger_factory* f, std::string const& n ) : kv::kwiver_logger( f, n ) { }
  virtual bool is_fatal_enabled() const { return true; }
  virtual bool is_error_enabled() const { return true; }
  virtual bool is_warn_enabled() const { return true; }
  virtual bool is_info_enabled() const { return true; }
  virtual bool is_debug_enabled() const { return false; }
  virtual bool is_trace_enabled() const { return false; }
  virtual void set_level( log_level_t ) { }
  virtual log_level_t get_level() const { return LEVEL_INFO; }
  void tell( log_level_t l, std::string const& m ) { std::fprintf( stderr, "MINE:%s:%s:%s\n", get_name().c_str(), get_level_string( l ), m.c_str() ); }
#define ONE( fn, L ) \
  virtual void fn( std::string const& m ) { tell( L, m ); } \
  virtual void fn( std::string const& m, kv::logger_ns::location_info const& ) { tell( L, m ); }
  ONE( log_fatal, LEVEL_FATAL )
  ONE( log_error, LEVEL_ERROR )
  ONE( log_warn, LEVEL_WARN )
  ONE( log_info, LEVEL_INFO )
  ONE( log_debug, LEVEL_DEBUG )
  ONE( log_trace, LEVEL_TRACE )
#undef ONE
  virtual void log_message( log_level_t l, std::string const& m ) { tell( l, m ); }
  virtual void log_message( log_level_t l, std::string const& m, kv::logger_ns::location_info const& ) { tell( l, m ); }
};

class own_factory : public kv::logger_ns::kwiver_logger_factory
{
public:
  own_factory() : kv::logger_ns::kwiver_logger_factory( "a factory of one's own" ) { }
  virtual kv::logger_handle_t get_logger( std::string const& name ) { return std::make_shared< own_logger >( this, name ); }
};

int child()
{
  kv::logger_handle_t lg = kv::get_logger( "child" );
  std::fprintf( stderr, "FACTORY:%s:%s\n", lg->get_factory_name().c_str(), kv::kwiver_logger_manager::instance()->get_factory_name().c_str() );
  LOG_INFO( lg, "from the child" );
  LOG_DEBUG( early, "from before main" );
  // another factory from here on: loggers got before stay as they are
  kv::kwiver_logger_manager::instance()->set_logger_factory( std::unique_ptr< kv::logger_ns::kwiver_logger_factory >( new own_factory ) );
  kv::logger_handle_t after = kv::get_logger( std::string( "child after" ) );
  std::fprintf( stderr, "OWN:%s:%s\n", after->get_factory_name().c_str(), kv::kwiver_logger_manager::instance()->get_factory_name().c_str() );
  LOG_INFO( after, "from the own logger" );
  LOG_TRACE( after, "not to be seen" );
  std::fprintf( stderr, "END\n" );
  return 0;
}

void factories( vm::Rng& r )
{
  std::string d = vm::dir() + "/f";
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  unsigned kind = static_cast< unsigned >( r.below( 6 ) );
  std::string env, lib;
  bool loaded = false;
  switch( kind )
  {
  case 0: break;
  case 1: env = d + "/missing.so"; break;
  case 2: env = d + "/garbage.so"; vm::spit( env, r.str( "abc\x7f" "ELF", 0, 200 ) ); break;
  case 3: env = extra( "foreign" ); break;
  case 4: env = extra( "factory" ); loaded = true; break;
  default: lib = d; vm::spit( d + "/vital_logger_plugin.so", vm::slurp( extra( "factory" ) ) ); loaded = true;
  }
  std::string err = d + "/err";
  std::vector< std::string > vars;
  for( char** e = environ; *e; ++e ) { vars.push_back( *e ); }
  if( !env.empty() ) { vars.push_back( "VITAL_LOGGER_FACTORY=" + env ); }
  if( !lib.empty() )
  {
    bool had = false;
    for( auto& v : vars ) { if( v.compare( 0, 16, "LD_LIBRARY_PATH=" ) == 0 ) { v += ":" + lib; had = true; } }
    if( !had ) { vars.push_back( "LD_LIBRARY_PATH=" + lib ); }
  }
  std::vector< char* > envp;
  for( auto& v : vars ) { envp.push_back( &v[ 0 ] ); }
  envp.push_back( nullptr );
  pid_t pid = ::fork();
  if( pid == 0 )
  {
    int fd = ::open( err.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
    ::dup2( fd, 2 );
    ::alarm( 40 );
    char const* const argv[] = { "/proc/self/exe", "--child", nullptr };
    ::execve( "/proc/self/exe", const_cast< char* const* >( argv ), envp.data() );
    std::_Exit( 77 );
  }
  int status = 0;
  ::waitpid( pid, &status, 0 );
  std::string out = vm::slurp( err ), what = "factory " + vm::str( kind ) + ": ";
  if( WIFEXITED( status ) && ( WEXITSTATUS( status ) == 99 || WEXITSTATUS( status ) == 66 ) ) { std::_Exit( WEXITSTATUS( status ) ); }
  VM_CHECK( WIFEXITED( status ) && WEXITSTATUS( status ) == 0 && out.find( "END\n" ) != std::string::npos, "factory", what << "status " << status << ": " << out.substr( 0, 500 ) );
  std::string name = loaded ? "the module's factory" : "default_logger factory";
  VM_CHECK( out.find( "FACTORY:" + name + ":" + name + "\n" ) != std::string::npos, "factory", what << out.substr( 0, 500 ) );
  VM_CHECK( out.find( "OWN:a factory of one's own:a factory of one's own\nMINE:child after:INFO:from the own logger\n" ) != std::string::npos && out.find( "not to be seen" ) == std::string::npos, "factory-set", what << out.substr( 0, 500 ) );
  vm::event( "factories_set" );
  if( loaded )
  {
    VM_CHECK( out.find( "TOLD:child:INFO:from the child\n" ) != std::string::npos && out.find( "before main" ) == std::string::npos, "factory", what << out.substr( 0, 500 ) );
    vm::event( "module_factories" );
  }
  else
  {
    VM_CHECK( out.find( " INFO " ) != std::string::npos && out.find( "from the child\n" ) != std::string::npos && out.find( "from before main\n" ) != std::string::npos, "factory", what << out.substr( 0, 500 ) );
    if( !env.empty() ) { VM_CHECK( out.find( "VITAL_LOGGER_FACTORY" ) < out.find( "FACTORY:" ), "factory", what << "says nothing: " << out.substr( 0, 500 ) ); vm::event( "failed_factories" ); }
    else { VM_CHECK( out.find( "ERROR" ) == std::string::npos, "factory", what << "a fault is told of though none was asked for: " << out.substr( 0, 500 ) ); }
    vm::event( "default_factories" );
  }
  vm::sig( what );
}

void one( vm::Rng& r, uint64_t i )
{
  static bool first = true;
  if( first ) { first = false; ::setenv( "TZ", "XYZ-5:45", 1 ); ::tzset(); vm::quiet_stderr(); }
  if( i % 32 == 31 && !vm::st().extra.empty() ) { factories( r ); return; }
  for( unsigned k = 0; k < 4; ++k ) { places( r ); }
  histories( r, i );
}

} // namespace

int main( int argc, char** argv )
{
  if( argc > 1 && std::string( argv[ 1 ] ) == "--child" ) { return child(); }
  return vm::run( argc, argv, one );
}
