// X01: the first use of the logging facility by several threads, in a program in which
// nothing used it before main.
#include "vm.h"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <atomic>
#include <thread>

namespace kv = kwiver::vital;

namespace {

void first( vm::Rng& r )
{
  unsigned threads = static_cast< unsigned >( r.range( 2, 8 ) );
  std::vector< unsigned > wait( threads );
  for( auto& w : wait ) { w = r.chance( 2, 3 ) ? 0 : static_cast< unsigned >( r.below( 300 ) ); }
  std::vector< int > kind( threads );
  for( auto& k : kind ) { k = static_cast< int >( r.below( 3 ) ); }
  std::vector< kv::kwiver_logger_manager* > manager( threads );
  std::vector< kv::logger_handle_t > logger( threads );
  std::string const factory = r.pick( std::vector< std::string >{ "", "no_such_module.so", "/dev/null" } );
  if( !factory.empty() ) { ::setenv( "VITAL_LOGGER_FACTORY", factory.c_str(), 1 ); }
  std::string const out = vm::dir() + "/stderr";
  int fd = ::open( out.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0600 );
  ::dup2( fd, 2 );
  ::close( fd );
  std::atomic< unsigned > ready( 0 );
  std::vector< std::thread > ts;
  for( unsigned t = 0; t < threads; ++t )
  {
    ts.push_back( std::thread( [ &, t ]()
    {
      ready.fetch_add( 1, std::memory_order_relaxed );
      while( ready.load( std::memory_order_relaxed ) < threads ) { }
      for( unsigned volatile n = 0; n < wait[ t ]; n = n + 1 ) { }
      if( kind[ t ] == 0 ) { manager[ t ] = kv::kwiver_logger_manager::instance(); }
      logger[ t ] = kv::get_logger( kind[ t ] == 1 ? "common" : "own" + std::to_string( t ) );
      LOG_INFO( logger[ t ], "<" << t << ">" );
      if( kind[ t ] != 0 ) { manager[ t ] = kv::kwiver_logger_manager::instance(); }
    } ) );
  }
  for( auto& t : ts ) { t.join(); }
  vm::event( "first_instance_raced" );
  std::string text = vm::slurp( out );
  kv::logger_handle_t common = kv::get_logger( "common" );
  for( unsigned t = 0; t < threads; ++t )
  {
    VM_CHECK( manager[ t ] == manager[ 0 ] && manager[ t ], "first:managers", "two logger managers" );
    VM_CHECK( logger[ t ] && logger[ t ]->get_name() == ( kind[ t ] == 1 ? "common" : "own" + vm::str( t ) ), "first:logger", "thread " << t );
    if( kind[ t ] == 1 ) { VM_CHECK( logger[ t ] == common, "first:same-logger", "two loggers of one name" ); vm::event( "same_logger" ); }
    std::string id = "<" + vm::str( t ) + ">";
    size_t p = text.find( id );
    VM_CHECK( p != std::string::npos && text.find( id, p + 1 ) == std::string::npos, "first:message", "message " << id << " not shown exactly once:\n" << text );
  }
  vm::event( "managers_compared", threads );
  // the notice about the factory comes from the one time it was looked for
  size_t n = 0;
  for( size_t p = 0; ( p = text.find( "Defaulting to built-in logger", p ) ) != std::string::npos; ++p ) { ++n; }
  VM_CHECK( n == 1, "first:count", "the logger factory was looked for " << n << " times" );
  std::string s = factory;
  for( unsigned t = 0; t < threads; ++t ) { s += vm::str( wait[ t ] ) + ":" + vm::str( kind[ t ] ) + " "; }
  vm::sig( s );
}

void one( vm::Rng& r, uint64_t ) { vm::in_child( [ & ]() { first( r ); }, 60 ); }

} // namespace

VM_MAIN( one )
