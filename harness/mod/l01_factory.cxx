// L01: a logger factory as a module
#include <vital/logger/kwiver_logger.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <cstdio>

using namespace kwiver::vital;

namespace {

class teller : public kwiver_logger
{
public:
  teller( logger_ns::kwiver_logger_factory* f, std::string const& n ) : kwiver_logger( f, n ) { }
  virtual bool is_fatal_enabled() const { return true; }
  virtual bool is_error_enabled() const { return true; }
  virtual bool is_warn_enabled() const { return false; }
  virtual bool is_info_enabled() const { return true; }
  virtual bool is_debug_enabled() const { return false; }
  virtual bool is_trace_enabled() const { return false; }
  virtual void set_level( log_level_t ) { }
  virtual log_level_t get_level() const { return LEVEL_INFO; }
  void tell( log_level_t l, std::string const& m ) { std::fprintf( stderr, "TOLD:%s:%s:%s\n", get_name().c_str(), get_level_string( l ), m.c_str() ); }
#define ONE( fn, L ) \
  virtual void fn( std::string const& m ) { tell( L, m ); } \
  virtual void fn( std::string const& m, logger_ns::location_info const& ) { tell( L, m ); }
  ONE( log_fatal, LEVEL_FATAL )
  ONE( log_error, LEVEL_ERROR )
  ONE( log_warn, LEVEL_WARN )
  ONE( log_info, LEVEL_INFO )
  ONE( log_debug, LEVEL_DEBUG )
  ONE( log_trace, LEVEL_TRACE )
  virtual void log_message( log_level_t l, std::string const& m ) { tell( l, m ); }
  virtual void log_message( log_level_t l, std::string const& m, logger_ns::location_info const& ) { tell( l, m ); }
};

class factory : public logger_ns::kwiver_logger_factory
{
public:
  factory() : logger_ns::kwiver_logger_factory( "the module's factory" ) { }
  virtual logger_handle_t get_logger( std::string const& name ) { return std::make_shared< teller >( this, name ); }
};

} // namespace

extern "C" __attribute__( ( visibility( "default" ) ) ) void* kwiver_logger_factory() { return static_cast< logger_ns::kwiver_logger_factory* >( new factory ); }
