// B02: every C function against the C++ operation it stands for, errors included.
#include "vm.h"
#include "b_mocks.h"
#include "a03_types.h"
#include <vital/algorithm_plugin_manager.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/algorithm_plugin_manager.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>

extern "C" void a03_called( char const* ) { }

namespace {

namespace kv = kwiver::vital;
typedef std::map< std::string, std::string > Map;

// ---- what the C++ operation did ------------------------------------------
struct Cpp
{
  bool ok = true;
  int code = -1;                // by the documentation of the C function
  std::string what;
};

template < class F > Cpp cpp( F f )
{
  Cpp r;
  try { f(); return r; }
  catch( kv::config_file_not_found_exception const& e ) { r.code = 1; r.what = e.what(); }
  catch( kv::config_file_not_read_exception const& e ) { r.code = 2; r.what = e.what(); }
  catch( kv::config_file_not_parsed_exception const& e ) { r.code = 3; r.what = e.what(); }
  catch( kv::config_file_write_exception const& e ) { r.code = 1; r.what = e.what(); }
  catch( std::exception const& e ) { r.what = e.what(); }
  catch( char const* e ) { r.what = e; }
  catch( ... ) { }
  r.ok = false;
  return r;
}

// what C alone can get wrong
Cpp bad() { Cpp r; r.ok = false; return r; }

// ---- an error handle in one of the states a caller may pass -----------------
struct Eh
{
  vital_error_handle_t* eh = nullptr;
  bool dirty = false;
  std::string old;
  explicit Eh( vm::Rng& r )
  {
    unsigned k = static_cast< unsigned >( r.below( 5 ) );
    if( k == 0 ) { vm::event( "eh_null" ); return; }
    eh = vital_eh_new();
    VM_CHECK( eh && eh->error_code == 0 && !eh->message, "fresh-handle", "reports " << eh->error_code );
    if( k == 1 )
    {
      dirty = true;
      vm::event( "eh_reused" );
      if( r.chance( 1, 2 ) ) { vital_track_size( nullptr, eh ); }
      else { vital_config_block_file_read( r.str( "xy/", 1, 3000 ).c_str(), eh ); }
      old = eh->message;
    }
    else { vm::event( "eh_fresh" ); }
  }
  ~Eh() { vital_eh_destroy( eh ); }
  operator vital_error_handle_t*() { return eh; }

  void expect( Cpp const& c, std::string const& op, bool exact_code = false )
  {
    vm::event( c.ok ? "succeeded" : "failed" );
    if( !eh ) { return; }
    if( c.ok )
    {
      if( !dirty ) { VM_CHECK( eh->error_code == 0 && !eh->message, "error-after-success", op << ": " << eh->error_code << " " << ( eh->message ? eh->message : "" ) ); }
      return;
    }
    VM_CHECK( eh->error_code != 0, "error-not-reported", op << " should have reported: " << c.what );
    VM_CHECK( eh->message, "no-message", op );
    std::string m = eh->message;
    VM_CHECK( !m.empty(), "no-message", op );
    if( exact_code ) { VM_CHECK( eh->error_code == c.code, "wrong-code", op << " gives " << eh->error_code << ", not " << c.code << ": " << m ); vm::event( "code_" + vm::str( c.code ) ); }
    else { VM_CHECK( eh->error_code == -1, "wrong-code", op << " gives " << eh->error_code << ": " << m ); }
    VM_CHECK( m.find( c.what ) != std::string::npos, "message-incomplete", op << " says '" << m.substr( 0, 300 ) << "', not '" << c.what.substr( 0, 300 ) << "'" );
    if( c.what.size() > 500 ) { vm::event( "long_messages" ); }
    if( dirty && old.size() > 8 && old.find( c.what ) == std::string::npos ) { VM_CHECK( m.find( old ) == std::string::npos, "old-message", op << " says '" << m.substr( 0, 300 ) << "' after '" << old.substr( 0, 300 ) << "'" ); }
  }
};

std::string take( vital_string_t* s )
{
  VM_CHECK( s->str && s->str[ s->length ] == 0, "string-not-ended", "length " << s->length );
  std::string r( s->str, s->length );
  std::memset( s->str, 'z', s->length );        // the caller's own
  vital_string_free( s );
  vm::event( "strings" );
  return r;
}

std::vector< std::string > take( unsigned n, char** l )
{
  std::vector< std::string > r;
  for( unsigned i = 0; i < n; ++i ) { r.push_back( l[ i ] ); std::memset( l[ i ], 'z', std::strlen( l[ i ] ) ); }
  vital_common_free_string_list( n, l );
  vm::event( "lists" );
  return r;
}

void same_string( vital_string_t* s, Cpp const& c, std::string const& want, std::string const& op )
{
  if( !c.ok ) { VM_CHECK( !s, "not-null", op << " gives a string though C++ refuses: " << c.what ); vm::event( "null_results" ); return; }
  VM_CHECK( s, "null", op << " gives no string, C++ '" << want.substr( 0, 200 ) << "'" );
  std::string got = take( s );
  VM_CHECK( got == want, "differs", op << " gives '" << vm::show( got.substr( 0, 200 ) ) << "', C++ '" << vm::show( want.substr( 0, 200 ) ) << "'" );
}

char const* cs( std::string const* s ) { return s ? s->c_str() : nullptr; }
std::string sh( std::string const* s ) { return s ? "'" + vm::show( s->substr( 0, 60 ) ) + "'" : "NULL"; }

Map listing( kv::config_block_sptr c )
{
  Map m;
  for( auto const& k : c->available_values() ) { m[ k ] = c->get_value< std::string >( k ) + "|" + c->get_description( k ) + "|" + ( c->is_read_only( k ) ? "ro" : "" ); }
  return m;
}

Map listing( vital_config_block_t* c )
{
  Map m;
  unsigned n = 77;
  char** keys = nullptr;
  vital_config_block_available_values( c, &n, &keys );
  for( auto const& k : take( n, keys ) )
  {
    VM_CHECK( vital_config_block_has_value( c, k.c_str() ), "has-value", k );
    vital_string_t* v = vital_config_block_get_value( c, k.c_str() );
    vital_string_t* d = vital_config_block_get_description( c, k.c_str() );
    VM_CHECK( v && d, "null", "value or description of " << k );
    std::string vs = take( v ), ds = take( d );
    m[ k ] = vs + "|" + ds + "|" + ( vital_config_block_is_read_only( c, k.c_str() ) ? "ro" : "" );
  }
  return m;
}

void compare( vital_config_block_t* c, kv::config_block_sptr p, std::string const& op )
{
  Map a = listing( c ), b = listing( p );
  if( a == b ) { vm::event( "configs_compared" ); return; }
  std::string d;
  for( auto const& e : a ) { if( !b.count( e.first ) || b[ e.first ] != e.second ) { d += " C:" + e.first + "=" + e.second; } }
  for( auto const& e : b ) { if( !a.count( e.first ) || a[ e.first ] != e.second ) { d += " C++:" + e.first + "=" + e.second; } }
  VM_FAIL( "differs", "configurations after " << op << ":" << vm::show( d.substr( 0, 600 ) ) );
}

// ---- configuration blocks ---------------------------------------------------
struct ConfigCase
{
  vm::Rng& r;
  struct Pair { vital_config_block_t* c; kv::config_block_sptr p; };
  std::vector< Pair > live;
  std::vector< vital_config_block_t* > dead;
  std::string log;
  long fake[ 4 ] = { 0 };

  explicit ConfigCase( vm::Rng& r_ ) : r( r_ ) { }
  ~ConfigCase() { for( auto const& l : live ) { vital_config_block_destroy( l.c, nullptr ); } }

  std::string keep[ 4 ];
  unsigned kept = 0;
  std::string const* hold( std::string const& s ) { keep[ kept++ % 4 ] = s; return &keep[ ( kept - 1 ) % 4 ]; }

  std::string const* key()
  {
    if( r.chance( 1, 14 ) ) { return nullptr; }
    std::string k;
    for( unsigned n = static_cast< unsigned >( r.below( 3 ) ); n; --n ) { k += std::string( 1, r.pick( "ab" ) ) + ":"; }
    k += r.chance( 1, 20 ) ? r.str( "a: \t.%s", 0, 30 ) : std::string( 1, r.pick( "abcd" ) );
    return hold( k );
  }

  std::string const* value()
  {
    switch( r.below( 12 ) )
    {
    case 0: return nullptr;
    case 1: return hold( "" );
    case 2: case 3: return hold( r.chance( 1, 2 ) ? "true" : "no" );
    case 4: return hold( vm::str( r.range( -5, 5 ) ) );
    case 5: return hold( r.str( "xyz \n\"%", 300, 5000 ) );
    case 6: return hold( "  padded\t" );
    default: return hold( r.str( "abc%d \xc3\xa9=:#", 1, 12 ) );
    }
  }

  Pair any( bool may_be_bad )
  {
    if( may_be_bad && r.chance( 1, 12 ) )
    {
      vm::event( "bad_handles" );
      if( !dead.empty() && r.chance( 1, 3 ) )
      {
        // unless the allocator gave its place to another
        vital_config_block_t* d = r.pick( dead );
        bool alive = false;
        for( auto const& l : live ) { alive = alive || l.c == d; }
        if( !alive ) { return Pair{ d, nullptr }; }
      }
      return Pair{ r.chance( 1, 2 ) ? nullptr : reinterpret_cast< vital_config_block_t* >( fake ), nullptr };
    }
    return r.pick( live );
  }

  // what C++ does, a failure if the handle is none
  template < class F > Cpp with( Pair const& p, F f ) { if( !p.p ) { return bad(); } return cpp( [ & ] { f( *p.p ); } ); }

  static std::string S( std::string const* s ) { if( !s ) { throw std::logic_error( "null" ); } return *s; }

  void step()
  {
    if( live.empty() ) { fresh(); return; }
    Pair p = any( true );
    std::string const* k = key();
    Eh eh( r );
    std::string op;
    unsigned kind = static_cast< unsigned >( r.below( 18 ) );
    static char const* const names[] = { "get_value", "get_value_bool", "get_value_default", "get_value_default_bool", "get_description", "set_value", "set_value_descr", "unset", "is_read_only",
      "mark_read_only", "merge", "has_value", "available_values", "get_name", "subblock", "subblock_view", "new", "destroy" };
    op = std::string( names[ kind ] ) + "(" + sh( k ) + ( p.p ? "" : ", bad handle" ) + ")";
    log += op + " ";
    vm::note( log );
    // a null string is as good as an exception; which of the two does not show
    Cpp null;
    if( !k && kind != 10 && kind != 12 && kind != 13 && kind < 16 ) { null = bad(); vm::event( "null_strings" ); }
    vm::event( names[ kind ] );
    switch( kind )
    {
    case 0:
    {
      std::string want;
      Cpp c = null.ok ? with( p, [ & ]( kv::config_block& b ) { want = b.get_value< std::string >( *k ); } ) : null;
      same_string( vital_config_block_get_value( p.c, cs( k ) ), c, want, op );
      break;
    }
    case 1:
    {
      bool want = false;
      Cpp c = null.ok ? with( p, [ & ]( kv::config_block& b ) { want = b.get_value< bool >( *k ); } ) : null;
      bool got = vital_config_block_get_value_bool( p.c, cs( k ), eh );
      VM_CHECK( got == ( c.ok && want ), "differs", op << " in " << log );
      eh.expect( c, op );
      if( c.ok ) { vm::event( want ? "bool_true" : "bool_false" ); }
      break;
    }
    case 2:
    {
      std::string const* d = value();
      std::string want;
      Cpp c = null.ok && d ? with( p, [ & ]( kv::config_block& b ) { want = b.get_value< std::string >( *k, *d ); } ) : bad();
      same_string( vital_config_block_get_value_default( p.c, cs( k ), cs( d ) ), c, want, op + " default " + sh( d ) );
      break;
    }
    case 3:
    {
      bool want = false, d = r.chance( 1, 2 );
      Cpp c = null.ok ? with( p, [ & ]( kv::config_block& b ) { want = b.get_value< bool >( *k, d ); } ) : null;
      bool got = vital_config_block_get_value_default_bool( p.c, cs( k ), d, eh );
      VM_CHECK( got == ( c.ok && want ), "differs", op << " in " << log );
      eh.expect( c, op );
      break;
    }
    case 4:
    {
      std::string want;
      Cpp c = null.ok ? with( p, [ & ]( kv::config_block& b ) { want = b.get_description( *k ); } ) : null;
      same_string( vital_config_block_get_description( p.c, cs( k ) ), c, want, op );
      break;
    }
    case 5:
    {
      std::string const* v = value();
      vital_config_block_set_value( p.c, cs( k ), cs( v ) );
      if( null.ok && v ) { with( p, [ & ]( kv::config_block& b ) { b.set_value< std::string >( *k, *v ); } ); }
      break;
    }
    case 6:
    {
      std::string const* v = value();
      std::string const* d = value();
      vital_config_block_set_value_descr( p.c, cs( k ), cs( v ), cs( d ) );
      if( null.ok && v && d ) { with( p, [ & ]( kv::config_block& b ) { b.set_value< std::string >( *k, *v, *d ); } ); }
      break;
    }
    case 7:
      vital_config_block_unset_value( p.c, cs( k ) );
      if( k ) { with( p, [ & ]( kv::config_block& b ) { b.unset_value( *k ); } ); }
      break;
    case 8:
    {
      bool want = false;
      if( k ) { with( p, [ & ]( kv::config_block& b ) { want = b.is_read_only( *k ); } ); }
      VM_CHECK( vital_config_block_is_read_only( p.c, cs( k ) ) == want, "differs", op << " in " << log );
      break;
    }
    case 9:
      if( !r.chance( 1, 3 ) ) { break; }
      vital_config_block_mark_read_only( p.c, cs( k ) );
      if( k ) { with( p, [ & ]( kv::config_block& b ) { b.mark_read_only( *k ); } ); }
      break;
    case 10:
    {
      Pair q = any( true );
      vital_config_block_merge_config( p.c, q.c );
      if( p.p && q.p ) { cpp( [ & ] { p.p->merge_config( q.p ); } ); }
      break;
    }
    case 11:
    {
      bool want = false;
      if( k ) { with( p, [ & ]( kv::config_block& b ) { want = b.has_value( *k ); } ); }
      VM_CHECK( vital_config_block_has_value( p.c, cs( k ) ) == want, "differs", op << " in " << log );
      break;
    }
    case 12:
    {
      unsigned n = 4242;
      char** l = nullptr;
      if( r.chance( 1, 6 ) ) { vital_config_block_available_values( p.c, nullptr, &l ); vital_config_block_available_values( p.c, &n, nullptr ); VM_CHECK( !l && n == 4242, "output-touched", op ); vm::event( "null_outputs" ); break; }
      vital_config_block_available_values( p.c, &n, &l );
      if( !p.p ) { VM_CHECK( !l && n == 4242, "output-touched", op << " of no block" ); break; }
      std::vector< std::string > want = p.p->available_values(), got = take( n, l );
      std::sort( want.begin(), want.end() );
      std::sort( got.begin(), got.end() );
      VM_CHECK( got == want, "differs", op << ": " << got.size() << " keys, C++ " << want.size() );
      break;
    }
    case 13:
    {
      std::string want;
      Cpp c = with( p, [ & ]( kv::config_block& b ) { want = b.get_name(); } );
      same_string( vital_config_block_get_name( p.c ), c, want, op );
      break;
    }
    case 14: case 15:
    {
      Pair n{ nullptr, nullptr };
      Cpp c = null.ok ? with( p, [ & ]( kv::config_block& b ) { n.p = kind == 14 ? b.subblock( *k ) : b.subblock_view( *k ); } ) : null;
      n.c = kind == 14 ? vital_config_block_subblock( p.c, cs( k ) ) : vital_config_block_subblock_view( p.c, cs( k ) );
      VM_CHECK( ( n.c != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ refuses" ) );
      if( n.c ) { live.push_back( n ); }
      break;
    }
    case 16: fresh(); break;
    default:
      if( !p.p ) { vital_config_block_destroy( p.c, eh ); if( !p.c ) { eh.expect( bad(), op ); } break; }
      if( live.size() < 2 ) { break; }
      vital_config_block_destroy( p.c, eh );
      eh.expect( Cpp(), op );
      for( size_t i = 0; i < live.size(); ++i ) { if( live[ i ].c == p.c ) { live.erase( live.begin() + static_cast< long >( i ) ); break; } }
      dead.push_back( p.c );
    }
  }

  void fresh()
  {
    std::string const* n = r.chance( 1, 8 ) ? nullptr : hold( r.str( "nm :", 0, 5 ) );
    bool unnamed = r.chance( 1, 3 );
    vital_config_block_t* c = unnamed ? vital_config_block_new() : vital_config_block_new_named( cs( n ) );
    if( !unnamed && !n ) { VM_CHECK( !c, "not-null", "block named NULL" ); vm::event( "null_strings" ); return; }
    VM_CHECK( c, "null", "new block" );
    live.push_back( Pair{ c, unnamed ? kv::config_block::empty_config() : kv::config_block::empty_config( *n ) } );
  }

  void run()
  {
    fresh();
    unsigned n = static_cast< unsigned >( r.range( 10, 60 ) );
    for( unsigned i = 0; i < n; ++i )
    {
      step();
      if( !live.empty() && ( i + 1 == n || r.chance( 1, 5 ) ) ) { Pair p = any( false ); compare( p.c, p.p, log ); }
    }
    vm::sig( log );
    vm::sample( log.substr( 0, 400 ) );
  }
};

std::string config_text( vm::Rng& r )
{
  std::string t;
  for( long i = r.range( 0, 6 ); i; --i ) { t += std::string( 1, r.pick( "abcd" ) ) + ( r.chance( 1, 3 ) ? "[RO]" : "" ) + " = " + r.str( "xyz 1", 0, 10 ) + "\n"; }
  switch( r.below( 6 ) )
  {
  case 0: t += "block b\n  q = 1\n"; break;               // not closed
  case 1: t += "no equals sign\n"; break;
  case 2: t += "include nowhere.conf\n"; break;
  case 3: t += "block b\n  q = 1\nendblock\n"; break;
  default: break;
  }
  return t;
}

// a file or what is found in its place
std::string some_path( vm::Rng& r, std::string const& d, std::string const& good )
{
  switch( r.below( 7 ) )
  {
  case 0: return d + "/missing";
  case 1: return d;
  case 2: return d + "/missing/deeper/x";
  case 3: return good + "/below-a-file";
  case 4: return d + "/" + r.str( "long", 300, 6000 );
  case 5: return "";
  default: return good;
  }
}

void config_files( vm::Rng& r )
{
  std::string d = vm::dir() + "/b02";
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  std::string good = d + "/c.conf";
  vm::spit( good, config_text( r ) );
  if( r.chance( 1, 2 ) )
  {
    std::string p = r.chance( 1, 2 ) ? good : some_path( r, d, good );
    bool null = r.chance( 1, 12 );
    Eh eh( r );
    kv::config_block_sptr want;
    Cpp c = null ? bad() : cpp( [ & ] { want = kv::read_config_file( p ); } );
    vital_config_block_t* got = vital_config_block_file_read( null ? nullptr : p.c_str(), eh );
    std::string op = "file_read of " + p.substr( 0, 100 ) + ": " + vm::show( vm::slurp( good ) );
    VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
    eh.expect( c, op, true );
    if( got ) { compare( got, want, op ); vital_config_block_destroy( got, nullptr ); }
    vm::event( "config_file_read" );
    return;
  }
  if( r.chance( 1, 2 ) )
  {
    // the standard locations, below a scratch folder
    std::string app = r.chance( 1, 4 ) ? "" : "app", ver = r.chance( 1, 3 ) ? "" : "1.0", pre = r.chance( 1, 2 ) ? "" : d + "/inst";
    for( std::string const& s : { d + "/inst", d + "/inst/share", d + "/inst/share/app", d + "/inst/share/app/1.0", d + "/inst/share/app/1.0/config", d + "/inst/share/app/config", d + "/env" } ) { ::mkdir( s.c_str(), 0755 ); }
    for( std::string const& s : { d + "/inst/share/app/1.0/config", d + "/inst/share/app/config", d + "/env" } ) { if( r.chance( 1, 2 ) ) { vm::spit( s + "/n.conf", config_text( r ) ); } }
    ::setenv( "KWIVER_CONFIG_PATH", ( d + "/env" ).c_str(), 1 );
    std::string name = r.chance( 5, 6 ) ? "n.conf" : r.chance( 1, 2 ) ? "absent.conf" : "";
    bool merge = r.chance( 1, 2 ), null_name = r.chance( 1, 12 );
    Eh eh( r );
    kv::config_block_sptr want;
    Cpp c = null_name ? bad() : cpp( [ & ] { want = kv::read_config_file( name, app, ver, pre, merge ); } );
    vital_config_block_t* got = vital_config_block_file_read_from_standard_location( null_name ? nullptr : name.c_str(), app.empty() ? nullptr : app.c_str(), ver.empty() ? nullptr : ver.c_str(), pre.empty() ? nullptr : pre.c_str(), merge, eh );
    std::string op = "file_read_from_standard_location( " + name + ", " + app + ", " + ver + ", " + ( pre.empty() ? "" : "prefix" ) + ", " + ( merge ? "merge" : "first" ) + " )";
    ::unsetenv( "KWIVER_CONFIG_PATH" );
    VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
    eh.expect( c, op, true );
    if( got ) { compare( got, want, op ); vital_config_block_destroy( got, nullptr ); vm::event( "found_in_standard_location" ); }
    vm::event( "config_standard_location" );
    return;
  }
  vital_config_block_t* c = vital_config_block_new();
  kv::config_block_sptr p = kv::config_block::empty_config();
  for( long i = r.range( 0, 6 ); i; --i )
  {
    std::string k = r.str( "ab:", 1, 4 ), v = r.str( "xy 1=", 0, 12 ), s = r.str( "some \n", 0, 100 );
    vital_config_block_set_value_descr( c, k.c_str(), v.c_str(), s.c_str() );
    p->set_value( k, v, s );
  }
  std::string f = r.chance( 1, 2 ) ? d + "/out" : some_path( r, d, good );
  int bad_handle = r.chance( 1, 8 ), null = r.chance( 1, 12 );
  Eh eh( r );
  Cpp e = null || bad_handle ? bad() : cpp( [ & ] { kv::write_config_file( p, f ); } );
  std::string want = vm::slurp( f );
  if( e.ok ) { ::unlink( f.c_str() ); }
  vital_config_block_file_write( bad_handle ? nullptr : c, null ? nullptr : f.c_str(), eh );
  std::string op = "file_write to " + f.substr( 0, 100 );
  eh.expect( e, op, true );
  if( e.ok ) { VM_CHECK( vm::slurp( f ) == want, "differs", op << ":\n" << vm::slurp( f ) << "\nnot\n" << want ); }
  vital_config_block_destroy( c, nullptr );
  vm::event( "config_file_write" );
}

// ---- strings ------------------------------------------------------------
void strings( vm::Rng& r )
{
  size_t n = r.below( 40 );
  std::string s( n, 0 );
  for( auto& ch : s ) { ch = static_cast< char >( r.below( 256 ) ); }
  std::string copy = s;
  vital_string_t* v = vital_string_new( n, s.data() );
  for( auto& ch : s ) { ch = 'q'; }
  VM_CHECK( v && v->length == n && std::string( v->str, n ) == copy && v->str[ n ] == 0, "differs", "string of " << n << " bytes" );
  vital_string_free( v );
  v = vital_string_new( n, nullptr );
  VM_CHECK( v && v->length == n && v->str && v->str[ n ] == 0, "differs", "string of " << n << " bytes without contents" );
  std::memset( v->str, 'x', n );
  vital_string_free( v );
  vital_eh_destroy( nullptr );
  // everything of a list with holes is given back
  {
    size_t before = vm::live_bytes(), len = r.below( 9 );
    void** list = static_cast< void** >( std::malloc( sizeof( void* ) * ( len + 1 ) ) );
    for( size_t k = 0; k <= len; ++k ) { list[ k ] = k == len || r.chance( 1, 3 ) ? nullptr : std::memset( std::malloc( 100 + k ), 1, 100 ); }
    char** texts = static_cast< char** >( std::malloc( sizeof( char* ) * ( len + 1 ) ) );
    for( size_t k = 0; k < len; ++k ) { texts[ k ] = r.chance( 1, 4 ) ? nullptr : strdup( r.str( "abc", 20, 40 ).c_str() ); }
    vital_free_double_pointer( len, list );
    vital_common_free_string_list( len, texts );
    vital_free_double_pointer( r.below( 4 ), nullptr );
    vital_free_pointer( nullptr );
    vital_free_pointer( std::malloc( 50 ) );
    size_t after = vm::live_bytes();
    VM_CHECK( after <= before + 40, "leak", after - before << " bytes left of a list of " << len );
    vm::event( "lists_freed" );
  }
  // one handle for many failures holds only the last message
  {
    vital_error_handle_t* eh = vital_eh_new();
    std::string p( 2000, 'p' );
    vital_camera_read_krtd_file( p.c_str(), eh );
    size_t before = vm::live_bytes();
    for( int k = 0; k < 10; ++k ) { vital_camera_read_krtd_file( p.c_str(), eh ); }
    size_t after = vm::live_bytes();
    VM_CHECK( after < before + 2000, "leak", after - before << " bytes more after ten failures with one error handle" );
    vital_eh_destroy( eh );
    vm::event( "messages_replaced" );
  }
  VM_CHECK( std::string( vital_config_block_block_sep()->str ) == kv::config_block::block_sep, "differs", "block_sep" );
  VM_CHECK( std::string( vital_config_block_global_value()->str ) == kv::config_block::global_value, "differs", "global_value" );
  vm::event( "plain_strings" );
}

// ---- images ---------------------------------------------------------------
void same_image( vital_image_t* c, kv::image const& p, std::string const& op )
{
  VM_CHECK( c, "null", op );
  VM_CHECK( vital_image_width( c ) == p.width() && vital_image_height( c ) == p.height() && vital_image_depth( c ) == p.depth(), "differs", op << ": dimensions" );
  VM_CHECK( vital_image_size( c ) == p.size(), "differs", op << ": size " << vital_image_size( c ) << ", C++ " << p.size() );
  VM_CHECK( ( vital_image_first_pixel( c ) != nullptr ) == ( p.first_pixel() != nullptr ), "differs", op << ": first pixel" );
  VM_CHECK( vital_image_w_step( c ) == static_cast< size_t >( p.w_step() ) && vital_image_h_step( c ) == static_cast< size_t >( p.h_step() ) && vital_image_d_step( c ) == static_cast< size_t >( p.d_step() ), "differs",
            op << ": steps " << vital_image_w_step( c ) << " " << vital_image_h_step( c ) << " " << vital_image_d_step( c ) );
  for( unsigned k = 0; k < p.depth(); ++k ) { for( unsigned j = 0; j < p.height(); ++j ) { for( unsigned i = 0; i < p.width(); ++i ) {
    VM_CHECK( vital_image_get_pixel3( c, i, j, k ) == p( i, j, k ), "differs", op << ": pixel " << i << "," << j << "," << k );
    if( k == 0 ) { VM_CHECK( vital_image_get_pixel2( c, i, j ) == p( i, j ), "differs", op << ": pixel " << i << "," << j ); }
  } } }
}

void images( vm::Rng& r )
{
  size_t w = r.below( 9 ), h = r.below( 7 ), d = r.below( 5 );
  std::string op = "image " + vm::str( w ) + "x" + vm::str( h ) + "x" + vm::str( d );
  vm::sig( op );
  vital_image_t* c = nullptr;
  kv::image p;
  switch( r.below( 3 ) )
  {
  case 0: c = vital_image_new(); same_image( c, p, "empty image" ); break;
  case 1:
  {
    bool inter = r.chance( 1, 2 );
    c = vital_image_new_with_dim( w, h, d, inter );
    p = kv::image( w, h, d, inter );
    VM_CHECK( c, "null", op );
    if( w * h * d )
    {
      // the same layout, so the same bytes make the same image
      for( size_t i = 0; i < w * h * d; ++i ) { vital_image_first_pixel( c )[ i ] = p.first_pixel()[ i ] = static_cast< unsigned char >( r.below( 256 ) ); }
    }
    same_image( c, p, op + " with_dim" );
    vm::event( inter ? "interleaved" : "planar" );
    break;
  }
  default:
  {
    // any layout in the caller's memory, rows and columns forward; planes also backward
    long ws = r.range( 1, 3 ), hs = static_cast< long >( w ) * ws + r.range( 0, 2 ), ds = static_cast< long >( h ) * hs + r.range( 0, 5 );
    if( r.chance( 1, 3 ) && d ) { ws = static_cast< long >( d ) + r.range( 0, 1 ); hs = ws * static_cast< long >( w ); ds = 1; }
    std::vector< unsigned char > raw( static_cast< size_t >( ws * static_cast< long >( w ) + hs * static_cast< long >( h ) + ds * static_cast< long >( d ) + 1 ) );
    for( auto& b : raw ) { b = static_cast< unsigned char >( r.below( 256 ) ); }
    bool back = r.chance( 1, 4 );
    c = vital_image_new_from_data( raw.data(), w, h, d, static_cast< int32_t >( ws ), static_cast< int32_t >( hs ), static_cast< int32_t >( back ? -ds : ds ) );
    p = kv::image( w, h, d );
    for( size_t k = 0; k < d; ++k ) { for( size_t j = 0; j < h; ++j ) { for( size_t i = 0; i < w; ++i ) {
      size_t plane = back ? d - 1 - k : k;
      p( static_cast< unsigned >( i ), static_cast< unsigned >( j ), static_cast< unsigned >( k ) ) = raw[ i * static_cast< size_t >( ws ) + j * static_cast< size_t >( hs ) + plane * static_cast< size_t >( ds ) ];
    } } }
    std::fill( raw.begin(), raw.end(), 0 );         // copied
    same_image( c, p, op + " from_data" );
    vm::event( back ? "from_data_reversed" : "from_data" );
  }
  }
  vital_image_t* again = vital_image_new_from_image( c );
  same_image( again, p, op + " new_from_image" );
  VM_CHECK( vital_image_first_pixel( again ) == vital_image_first_pixel( c ), "differs", op << " new_from_image does not share memory" );
  vital_image_container_t* ic = vital_image_container_new_simple( again );
  VM_CHECK( ic, "null", "container" );
  kv::simple_image_container pc( p );
  VM_CHECK( vital_image_container_size( ic ) == pc.size() && vital_image_container_width( ic ) == pc.width() && vital_image_container_height( ic ) == pc.height() && vital_image_container_depth( ic ) == pc.depth(),
            "differs", "container of " << op << ": " << vital_image_container_size( ic ) << " bytes" );
  vital_image_destroy( again );
  vital_image_t* g = vital_image_container_get_image( ic );
  same_image( g, p, op + " get_image" );
  vital_image_destroy( g );
  vital_image_destroy( c );
  Eh eh( r );
  vital_image_container_destroy( ic, eh );
  eh.expect( Cpp(), "destroying a container" );
  Eh eh2( r );
  vital_image_container_destroy( nullptr, eh2 );
  eh2.expect( bad(), "destroying no container" );
  long fake[ 4 ] = { 0 };
  for( void* f : { static_cast< void* >( fake ), static_cast< void* >( nullptr ) } )
  {
    vital_image_container_t* x = static_cast< vital_image_container_t* >( f );
    VM_CHECK( vital_image_container_size( x ) == 0 && vital_image_container_width( x ) == 0 && vital_image_container_height( x ) == 0 && vital_image_container_depth( x ) == 0 && !vital_image_container_get_image( x ), "differs", "no container" );
    VM_CHECK( !vital_image_container_to_sptr( x ), "differs", "no container as a pointer" );
  }
  VM_CHECK( !vital_image_container_from_sptr( kv::image_container_sptr() ), "not-null", "handle of no container" );
  vm::event( "images" );
}

// ---- cameras, maps, tracks -------------------------------------------------
std::string camera_text( vm::Rng& r )
{
  std::string t = vm::str( r.range( 100, 900 ) ) + " 0 320\n0 " + vm::str( r.range( 100, 900 ) ) + " 240\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n" + vm::str( r.range( -9, 9 ) ) + " 2 3\n\n0.25\n";
  if( r.chance( 1, 4 ) ) { t.resize( r.below( t.size() ) ); }
  if( r.chance( 1, 6 ) ) { t[ r.below( t.size() + 1 ) % ( t.size() ? t.size() : 1 ) ] = 'x'; }
  return t;
}

void cameras( vm::Rng& r )
{
  std::string d = vm::dir() + "/b02";
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  std::string good = d + "/c.krtd";
  std::vector< vital_camera_t* > cams;
  std::vector< kv::camera_sptr > twins;
  for( long i = r.range( 1, 3 ); i; --i )
  {
    std::string text = camera_text( r );
    vm::spit( good, text );
    std::string p = r.chance( 2, 3 ) ? good : some_path( r, d, good );
    bool null = r.chance( 1, 12 );
    Eh eh( r );
    kv::camera_sptr want;
    Cpp c = null ? bad() : cpp( [ & ] { want = kv::read_krtd_file( p ); } );
    vital_camera_t* got = vital_camera_read_krtd_file( null ? nullptr : p.c_str(), eh );
    std::string op = "read_krtd_file of " + p.substr( 0, 100 ) + ": " + vm::show( text );
    VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
    eh.expect( c, op );
    vm::sig( op + c.what );
    if( got ) { cams.push_back( got ); twins.push_back( want ); }
    vm::event( "camera_read" );
  }
  long fake[ 4 ] = { 0 };
  for( size_t i = 0; i <= cams.size(); ++i )
  {
    bool isbad = i == cams.size();
    vital_camera_t* h = isbad ? r.chance( 1, 2 ) ? nullptr : reinterpret_cast< vital_camera_t* >( fake ) : cams[ i ];
    std::string f = r.chance( 1, 2 ) ? d + "/out" : some_path( r, d, good );
    Eh eh( r );
    Cpp c = isbad ? bad() : cpp( [ & ] { kv::write_krtd_file( *twins[ i ], f ); } );
    std::string want = vm::slurp( f );
    if( c.ok ) { ::unlink( f.c_str() ); }
    vital_camera_write_krtd_file( h, f.c_str(), eh );
    eh.expect( c, "write_krtd_file to " + f.substr( 0, 100 ) );
    if( c.ok ) { VM_CHECK( vm::slurp( f ) == want, "differs", "written camera:\n" << vm::slurp( f ) << "\nnot\n" << want ); vm::event( "camera_written" ); }
  }
  // maps, now and then with what is no camera
  std::vector< unsigned > frames;
  std::vector< vital_camera_t* > in;
  std::map< unsigned, vital_camera_t* > model;
  bool isbad = false;
  for( long i = r.range( 0, 5 ); i; --i )
  {
    vital_camera_t* h = nullptr;
    if( !cams.empty() && !r.chance( 1, 12 ) ) { h = r.pick( cams ); }
    else if( r.chance( 1, 2 ) ) { continue; }
    isbad = isbad || !h;
    unsigned fr = r.chance( 1, 8 ) ? 4294967295u : static_cast< unsigned >( r.below( 5 ) );
    frames.push_back( fr );
    in.push_back( h );
    model[ fr ] = h;
  }
  vital_camera_map_t* m = vital_camera_map_new( in.size(), frames.data(), in.data() );
  if( !in.empty() && isbad ) { VM_CHECK( !m, "not-null", "map with what is no camera" ); vm::event( "map_refused" ); }
  else
  {
    VM_CHECK( m, "null", "map of " << in.size() );
    Eh eh( r );
    VM_CHECK( vital_camera_map_size( m, eh ) == model.size(), "differs", "size of a map of " << in.size() );
    eh.expect( Cpp(), "camera_map_size" );
    size_t n = 99;
    unsigned* fr = nullptr;
    vital_camera_t** out = nullptr;
    Eh eh2( r );
    vital_camera_map_get_map( m, &n, &fr, &out, eh2 );
    eh2.expect( Cpp(), "camera_map_get_map" );
    VM_CHECK( n == model.size(), "differs", "map of " << n << " cameras" );
    std::map< unsigned, vital_camera_t* > got;
    for( size_t i = 0; i < n; ++i ) { got[ fr[ i ] ] = out[ i ]; vital_camera_destroy( out[ i ], nullptr ); }
    VM_CHECK( got == model, "differs", "cameras of a map" );
    std::free( fr );
    std::free( out );
    Eh eh3( r );
    vital_camera_map_destroy( m, eh3 );
    eh3.expect( Cpp(), "camera_map_destroy" );
    vm::event( "maps" );
  }
  Eh e1( r ), e2( r ), e3( r ), e4( r );
  VM_CHECK( vital_camera_map_size( nullptr, e1 ) == 0, "differs", "size of no map" );
  e1.expect( bad(), "camera_map_size of none" );
  size_t n = 5;
  unsigned* fr = nullptr;
  vital_camera_t** out = nullptr;
  vital_camera_map_get_map( reinterpret_cast< vital_camera_map_t* >( fake ), &n, &fr, &out, e2 );
  e2.expect( bad(), "camera_map_get_map of none" );
  VM_CHECK( !fr && !out, "output-touched", "get_map of none" );
  vital_camera_map_destroy( nullptr, e3 );
  e3.expect( bad(), "camera_map_destroy of none" );
  vital_camera_destroy( nullptr, e4 );
  e4.expect( bad(), "camera_destroy of none" );
  for( auto h : cams ) { Eh e( r ); vital_camera_destroy( h, e ); e.expect( Cpp(), "camera_destroy" ); }
}

std::string track_text( vm::Rng& r )
{
  std::string t;
  for( long i = r.range( 0, 5 ); i; --i )
  {
    t += vm::str( r.range( 1, 3 ) ) + " " + vm::str( i == 5 ? 0 : 9 - i ) + " 1.5 " + vm::str( r.range( 0, 99 ) ) + " 1 0.5 0.25";
    if( r.chance( 3, 4 ) ) { t += " 10 20 30"; }
    if( r.chance( 1, 10 ) ) { t += " junk"; }
    if( r.chance( 1, 20 ) ) { t.resize( t.size() / 2 ); }
    t += "\n";
  }
  return t;
}

void tracks( vm::Rng& r )
{
  std::string d = vm::dir() + "/b02";
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  std::string good = d + "/t.tracks", text = track_text( r );
  vm::spit( good, text );
  std::string p = r.chance( 2, 3 ) ? good : some_path( r, d, good );
  bool null = r.chance( 1, 12 );
  kv::track_set_sptr want;
  Eh eh( r );
  Cpp c = null ? bad() : cpp( [ & ] { want = kv::read_track_file( p ); } );
  vital_trackset_t* got = vital_trackset_new_from_file( null ? nullptr : p.c_str(), eh );
  std::string op = "trackset from " + p.substr( 0, 100 ) + ": " + vm::show( text );
  VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
  eh.expect( c, op );
  vm::sig( op + c.what );
  long fake[ 4 ] = { 0 };
  vital_trackset_t* h = got;
  if( !got || r.chance( 1, 8 ) ) { h = r.chance( 1, 2 ) ? nullptr : reinterpret_cast< vital_trackset_t* >( fake ); }
  Eh eh2( r );
  size_t n = vital_trackset_size( h, eh2 );
  VM_CHECK( n == ( got && h == got ? want->size() : 0 ), "differs", op << ": size " << n );
  eh2.expect( got && h == got ? Cpp() : bad(), "trackset_size" );
  std::string f = r.chance( 1, 2 ) ? d + "/out" : some_path( r, d, good );
  Eh eh3( r );
  c = got && h == got ? cpp( [ & ] { kv::write_track_file( want, f ); } ) : bad();
  std::string bytes = vm::slurp( f );
  if( c.ok ) { ::unlink( f.c_str() ); }
  vital_trackset_write_track_file( h, f.c_str(), eh3 );
  eh3.expect( c, "write_track_file to " + f.substr( 0, 100 ) );
  if( c.ok ) { VM_CHECK( vm::slurp( f ) == bytes, "differs", "written tracks:\n" << vm::slurp( f ) << "\nnot\n" << bytes ); vm::event( "tracks_written" ); }
  if( got ) { Eh e( r ); vital_trackset_destroy( got, e ); e.expect( Cpp(), "trackset_destroy" ); }
  // sets of tracks
  std::vector< vital_track_t* > ts, own;
  bool isbad = false;
  for( long i = r.range( 0, 4 ); i; --i )
  {
    if( r.chance( 1, 12 ) ) { ts.push_back( r.chance( 1, 2 ) ? nullptr : reinterpret_cast< vital_track_t* >( fake ) ); isbad = true; continue; }
    if( !own.empty() && r.chance( 1, 4 ) ) { ts.push_back( r.pick( own ) ); vm::event( "same_track_again" ); continue; }
    own.push_back( vital_track_new() );
    ts.push_back( own.back() );
  }
  vital_trackset_t* set = vital_trackset_new( ts.size(), ts.empty() ? nullptr : ts.data() );
  VM_CHECK( ( set == nullptr ) == isbad, "null", "set of " << ts.size() << " tracks" << ( isbad ? ", one of them none" : "" ) );
  if( set )
  {
    Eh e( r ), e5( r );
    VM_CHECK( vital_trackset_size( set, e ) == ts.size(), "differs", "size of a set" );
    e.expect( Cpp(), "trackset_size" );
    vital_trackset_destroy( set, e5 );
    e5.expect( Cpp(), "trackset_destroy" );
    vm::event( "tracksets" );
  }
  else { vm::event( "trackset_refused" ); }
  for( auto t : own )
  {
    Eh e( r ), e6( r ), e7( r );
    VM_CHECK( vital_track_size( t, e ) == 0, "differs", "size of a new track" );
    e.expect( Cpp(), "track_size" );
    VM_CHECK( vital_track_empty( t, e6 ), "differs", "new track is not empty" );
    e6.expect( Cpp(), "track_empty" );
    vital_track_destroy( t, e7 );
    e7.expect( Cpp(), "track_destroy" );
  }
  Eh e8( r ), e9( r ), e10( r ), e11( r );
  VM_CHECK( vital_track_size( reinterpret_cast< vital_track_t* >( fake ), e8 ) == 0, "differs", "size of no track" );
  e8.expect( bad(), "track_size of none" );
  VM_CHECK( vital_track_empty( nullptr, e9 ), "differs", "no track holds states" );
  e9.expect( bad(), "track_empty of none" );
  vital_track_destroy( nullptr, e10 );
  e10.expect( bad(), "track_destroy of none" );
  vital_trackset_destroy( nullptr, e11 );
  e11.expect( bad(), "trackset_destroy of none" );
  kv::track_set_sptr none;
  VM_CHECK( !vital_trackset_from_sptr( &none ), "not-null", "handle of no set" );
  vm::event( "tracks" );
}

// ---- algorithms ------------------------------------------------------------
struct Type
{
  char const* name;
  std::vector< std::string > impls;
  vital_algorithm_t* ( *create )( char const* );
  void ( *destroy )( vital_algorithm_t*, vital_error_handle_t* );
  void ( *names )( unsigned*, char*** );
  void ( *get )( char const*, vital_algorithm_t*, vital_config_block_t*, vital_error_handle_t* );
  void ( *set )( char const*, vital_config_block_t*, vital_algorithm_t**, vital_error_handle_t* );
  bool ( *check )( char const*, vital_config_block_t*, vital_error_handle_t* );
  vital_algorithm_t* ( *clone )( vital_algorithm_t*, vital_error_handle_t* );
  std::function< kv::algorithm_sptr( std::string const& ) > p_create;
  std::function< std::vector< std::string >() > p_names;
  std::function< void( std::string const&, kv::config_block_sptr, kv::algorithm_sptr ) > p_get;
  std::function< void( std::string const&, kv::config_block_sptr, kv::algorithm_sptr& ) > p_set;
  std::function< bool( std::string const&, kv::config_block_sptr ) > p_check;
};

template < class Def > void cplusplus( Type& t )
{
  t.p_create = []( std::string const& n ) { return std::static_pointer_cast< kv::algorithm >( Def::create( n ) ); };
  t.p_names = []() { return Def::registered_names(); };
  t.p_get = []( std::string const& n, kv::config_block_sptr c, kv::algorithm_sptr a ) { Def::get_nested_algo_configuration( n, c, std::dynamic_pointer_cast< Def >( a ) ); };
  t.p_set = []( std::string const& n, kv::config_block_sptr c, kv::algorithm_sptr& a )
  {
    std::shared_ptr< Def > p = std::dynamic_pointer_cast< Def >( a );
    Def::set_nested_algo_configuration( n, c, p );
    a = p;
  };
  t.p_check = []( std::string const& n, kv::config_block_sptr c ) { return Def::check_nested_algo_configuration( n, c ); };
}

#define TYPE( T, ... ) Type{ #T, { __VA_ARGS__ }, vital_algorithm_##T##_create, vital_algorithm_##T##_destroy, vital_algorithm_##T##_registered_names, vital_algorithm_##T##_get_type_config, \
  vital_algorithm_##T##_set_type_config, vital_algorithm_##T##_check_type_config, vital_algorithm_##T##_clone, nullptr, nullptr, nullptr, nullptr, nullptr }

std::vector< Type >& types()
{
  static std::vector< Type > t;
  if( t.empty() )
  {
    t.push_back( TYPE( image_io, "io" ) );
    cplusplus< kv::algo::image_io >( t.back() );
    t.push_back( TYPE( convert_image, "same", "copy" ) );
    cplusplus< kv::algo::convert_image >( t.back() );
    t.push_back( TYPE( track_features, "tracker" ) );
    cplusplus< kv::algo::track_features >( t.back() );
  }
  return t;
}

void algorithms( vm::Rng& r )
{
  std::string d = vm::dir() + "/b02", log;
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  vm::spit( d + "/file", "x" );
  size_t which = r.below( 3 );
  Type& t = types()[ which ];
  Type& other = types()[ ( which + 1 ) % 3 ];
  long fake[ 8 ] = { 0 };
  // names
  {
    unsigned n = 3;
    char** l = nullptr;
    t.names( &n, &l );
    std::vector< std::string > got = take( n, l ), want = t.p_names();
    std::sort( got.begin(), got.end() );
    std::sort( want.begin(), want.end() );
    VM_CHECK( got == want, "differs", "registered names of " << t.name );
  }
  VM_CHECK( !t.create( nullptr ) && !t.create( "unheard-of" ) && !t.create( "" ), "not-null", "created what is not there" );
  vm::event( "unknown_implementations" );
  struct Pair { vital_algorithm_t* c; kv::algorithm_sptr p; };
  std::string impl = r.pick( t.impls );
  Pair a{ t.create( impl.c_str() ), t.p_create( impl ) };
  VM_CHECK( a.c && a.p, "null", "created " << impl );
  vital_algorithm_t* foreign = other.create( other.impls[ 0 ].c_str() );
  // what is shared by both sides
  kv::image src( 3, 2, 1 );
  for( unsigned i = 0; i < 6; ++i ) { src.first_pixel()[ i ] = static_cast< unsigned char >( r.below( 256 ) ); }
  vital_image_container_t* ic = vital_image_container_from_sptr( std::make_shared< kv::simple_image_container >( src ) );
  vital_image_container_t* mask = vital_image_container_from_sptr( std::make_shared< kv::simple_image_container >( kv::image( 7, 2, 1 ) ) );
  kv::track_set_sptr ts_p = std::make_shared< kv::simple_track_set >();
  vital_trackset_t* ts = vital_trackset_from_sptr( &ts_p );
  std::string setting = "initial";

  for( unsigned s = static_cast< unsigned >( r.range( 4, 14 ) ); s; --s )
  {
    bool isbad = r.chance( 1, 8 );
    vital_algorithm_t* h = a.c;
    bool typed = true;          // the function looks at the type
    if( isbad ) { h = r.chance( 1, 3 ) ? nullptr : r.chance( 1, 2 ) ? reinterpret_cast< vital_algorithm_t* >( fake ) : foreign; vm::event( h == foreign ? "foreign_handles" : "bad_handles" ); }
    std::string op = std::string( isbad ? h == foreign ? "foreign." : h ? "fake." : "null." : "" );
    Eh eh( r );
    static char const* const values[] = { "good", "good", "fine", "bad", "explode", "literal", "number", "throws", "throws", "nothing", "extend", "same" };
    std::string v = values[ r.below( 12 ) ];
    std::string type = r.chance( 1, 8 ) ? "unheard-of" : r.pick( t.impls ), nested = r.chance( 1, 8 ) ? "a:b" : "n";
    bool null_name = r.chance( 1, 12 );
    vital_config_block_t* cb = vital_config_block_new();
    kv::config_block_sptr pb = kv::config_block::empty_config();
    auto put = [ & ]( std::string const& k, std::string const& val ) { vital_config_block_set_value( cb, k.c_str(), val.c_str() ); pb->set_value( k, val ); };
    bool bad_config = r.chance( 1, 12 );
    unsigned kind = static_cast< unsigned >( r.below( 9 ) );
    vm::note( log + op + vm::str( kind ) );
    switch( kind )
    {
    case 0:
    {
      op += "names";
      typed = false;
      vital_string_t* s1 = vital_algorithm_impl_name( h, eh );
      Eh eh2( r );
      vital_string_t* s2 = vital_algorithm_type_name( h, eh2 );
      if( isbad && h != foreign ) { VM_CHECK( !s1 && !s2, "not-null", op ); eh.expect( bad(), op ); eh2.expect( bad(), op ); break; }
      eh.expect( Cpp(), op );
      eh2.expect( Cpp(), op );
      std::string n1 = take( s1 ), n2 = take( s2 );
      VM_CHECK( h == foreign ? n1 == other.impls[ 0 ] && n2 == other.name : n1 == a.p->impl_name() && n2 == a.p->type_name(), "differs", op << ": " << n1 << " " << n2 );
      break;
    }
    case 1:
    {
      op += "get_impl_configuration";
      typed = false;
      vital_config_block_t* c = vital_algorithm_get_impl_configuration( h, eh );
      if( isbad && h != foreign ) { VM_CHECK( !c, "not-null", op ); eh.expect( bad(), op ); break; }
      eh.expect( Cpp(), op );
      VM_CHECK( c, "null", op );
      if( !isbad ) { compare( c, a.p->get_configuration(), op ); }
      vital_config_block_destroy( c, nullptr );
      break;
    }
    case 2:
    {
      op += "set_impl_configuration=" + v;
      put( "setting", v );
      if( h == foreign ) { h = a.c; isbad = false; }
      Cpp c = isbad || bad_config ? bad() : cpp( [ & ] { a.p->set_configuration( pb ); } );
      vital_algorithm_set_impl_configuration( h, bad_config ? nullptr : cb, eh );
      eh.expect( c, op );
      if( c.ok ) { setting = v; } else if( v != "number" && !isbad ) { vm::event( "implementation_refused" ); }
      break;
    }
    case 3:
    {
      op += "check_impl_configuration=" + v;
      if( r.chance( 3, 4 ) ) { put( "setting", v ); }
      if( h == foreign ) { h = a.c; isbad = false; }
      bool want = false;
      Cpp c = isbad || bad_config ? bad() : cpp( [ & ] { want = a.p->check_configuration( pb ); } );
      bool got = vital_algorithm_check_impl_configuration( h, bad_config ? nullptr : cb, eh );
      VM_CHECK( got == ( c.ok && want ), "differs", op << " is " << got );
      eh.expect( c, op );
      if( c.ok ) { vm::event( want ? "check_true" : "check_false" ); }
      break;
    }
    case 4:
    {
      op += "get_type_config " + nested;
      put( "kept", "1" );
      bool generic = !isbad && r.chance( 1, 3 );
      if( isbad && !h ) { generic = true; isbad = false; }
      Cpp c = isbad || bad_config || null_name ? bad() : cpp( [ & ] { t.p_get( nested, pb, generic ? kv::algorithm_sptr() : a.p ); } );
      t.get( null_name ? nullptr : nested.c_str(), generic ? nullptr : h, bad_config ? nullptr : cb, eh );
      eh.expect( c, op );
      compare( cb, pb, op );
      vm::event( generic ? "generic_config" : "instance_config" );
      break;
    }
    case 5:
    {
      op += "check_type_config " + type + "=" + v;
      if( r.chance( 5, 6 ) ) { put( nested + ":type", type ); }
      if( r.chance( 5, 6 ) ) { put( nested + ":" + type + ":setting", v ); }
      bool want = false;
      Cpp c = bad_config || null_name ? bad() : cpp( [ & ] { want = t.p_check( nested, pb ); } );
      bool got = t.check( null_name ? nullptr : nested.c_str(), bad_config ? nullptr : cb, eh );
      VM_CHECK( got == ( c.ok && want ), "differs", op << " is " << got );
      eh.expect( c, op );
      if( c.ok ) { vm::event( want ? "check_true" : "check_false" ); }
      break;
    }
    case 6:
    {
      op += "set_type_config " + type + "=" + v;
      if( r.chance( 5, 6 ) ) { put( nested + ":type", type ); }
      if( r.chance( 5, 6 ) ) { put( nested + ":" + type + ":setting", v ); }
      if( isbad && h )
      {
        vital_algorithm_t* x = h;
        t.set( nested.c_str(), cb, &x, eh );
        eh.expect( bad(), op );
        VM_CHECK( x == h, "handle-changed", op );
        break;
      }
      bool fresh = isbad || r.chance( 1, 4 );
      kv::algorithm_sptr p = fresh ? kv::algorithm_sptr() : a.p;
      vital_algorithm_t* x = fresh ? nullptr : a.c;
      kv::algorithm_sptr before = p;
      Cpp c = bad_config || null_name ? bad() : cpp( [ & ] { t.p_set( nested, pb, p ); } );
      if( !c.ok ) { p = before; }
      t.set( null_name ? nullptr : nested.c_str(), bad_config ? nullptr : cb, &x, eh );
      eh.expect( c, op );
      if( !c.ok || p == before ) { VM_CHECK( x == ( fresh ? nullptr : a.c ), "handle-changed", op << " which changes nothing" ); vm::event( "set_type_nothing" ); break; }
      VM_CHECK( x, "null", op );
      if( fresh ) { t.destroy( a.c, nullptr ); }
      a.c = x;
      a.p = p;
      vital_config_block_t* now = vital_algorithm_get_impl_configuration( a.c, nullptr );
      compare( now, a.p->get_configuration(), op );
      vital_config_block_destroy( now, nullptr );
      vm::event( "set_type_made" );
      break;
    }
    case 7:
    {
      op += "clone";
      if( !h ) { VM_CHECK( !t.clone( h, eh ), "not-null", op ); eh.expect( Cpp(), op ); break; }
      vital_algorithm_t* n = t.clone( h, eh );
      if( isbad ) { VM_CHECK( !n, "not-null", op ); eh.expect( bad(), op ); break; }
      eh.expect( Cpp(), op );
      VM_CHECK( n && n != a.c, "null", op );
      vital_config_block_t* c = vital_algorithm_get_impl_configuration( n, nullptr );
      compare( c, a.p->get_configuration(), op );
      vital_config_block_destroy( c, nullptr );
      if( r.chance( 1, 2 ) ) { std::swap( n, a.c ); }
      Eh e( r );
      t.destroy( n, e );
      e.expect( Cpp(), "destroy" );
      vm::event( "cloned" );
      break;
    }
    default:
    {
      bool no_image = r.chance( 1, 10 );
      vital_image_container_t* in = no_image ? nullptr : ic;
      kv::image_container_sptr in_p = no_image ? kv::image_container_sptr() : vital_image_container_to_sptr( ic );
      if( which == 0 )
      {
        std::string f = r.chance( 1, 2 ) ? d + "/file" : some_path( r, d, d + "/file" );
        auto p = std::dynamic_pointer_cast< kv::algo::image_io >( a.p );
        if( r.chance( 1, 2 ) )
        {
          op += "save " + f.substr( 0, 80 );
          Cpp c = isbad || no_image ? bad() : cpp( [ & ] { p->save( f, in_p ); } );
          vital_algorithm_image_io_save( h, f.c_str(), in, eh );
          eh.expect( c, op );
          vm::event( c.ok ? "saved" : "save_failed" );
        }
        else
        {
          op += "load " + f.substr( 0, 80 );
          kv::image_container_sptr want;
          Cpp c = isbad ? bad() : cpp( [ & ] { want = p->load( f ); } );
          if( c.ok && !want ) { c = bad(); }
          vital_image_container_t* got = vital_algorithm_image_io_load( h, f.c_str(), eh );
          VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
          eh.expect( c, op );
          if( got ) { VM_CHECK( vital_image_container_to_sptr( got ) == want, "differs", op ); vital_image_container_destroy( got, nullptr ); }
          vm::event( c.ok ? "loaded" : "load_failed" );
        }
      }
      else if( which == 1 )
      {
        op += "convert";
        auto p = std::dynamic_pointer_cast< kv::algo::convert_image >( a.p );
        kv::image_container_sptr want;
        Cpp c = isbad || no_image ? bad() : cpp( [ & ] { want = p->convert( in_p ); } );
        if( c.ok && !want ) { c = bad(); vm::event( "null_from_algorithm" ); }
        vital_image_container_t* got = vital_algorithm_convert_image_convert( h, in, eh );
        VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
        eh.expect( c, op );
        if( got )
        {
          VM_CHECK( ( vital_image_container_to_sptr( got ) == in_p ) == ( want == in_p ), "differs", op );
          vital_image_t* im = vital_image_container_get_image( got );
          same_image( im, want->get_image(), op );
          vital_image_destroy( im );
          vital_image_container_destroy( got, nullptr );
        }
        vm::event( c.ok ? "converted" : "convert_failed" );
      }
      else
      {
        bool masked = r.chance( 1, 2 ), no_mask = r.chance( 1, 10 ), no_set = r.chance( 1, 10 );
        op += masked ? "track_with_mask" : "track";
        unsigned fr = static_cast< unsigned >( r.below( 1000 ) );
        auto p = std::dynamic_pointer_cast< kv::algo::track_features >( a.p );
        kv::track_set_sptr want;
        Cpp c = isbad || no_image || no_set || ( masked && no_mask ) ? bad()
              : cpp( [ & ] { want = masked ? p->track( ts_p, fr, in_p, vital_image_container_to_sptr( mask ) ) : p->track( ts_p, fr, in_p ); } );
        vital_trackset_t* got = masked ? vital_algorithm_track_features_track_with_mask( h, no_set ? nullptr : ts, fr, in, no_mask ? nullptr : mask, eh )
                                       : vital_algorithm_track_features_track( h, no_set ? nullptr : ts, fr, in, eh );
        VM_CHECK( ( got != nullptr ) == c.ok, "null", op << ( c.ok ? " gives none" : " gives one though C++ says " ) << c.what );
        eh.expect( c, op );
        if( got )
        {
          if( want == ts_p ) { VM_CHECK( got == ts, "differs", op ); }
          else
          {
            std::string f = d + "/t1", g = d + "/t2";
            vital_trackset_write_track_file( got, f.c_str(), nullptr );
            kv::write_track_file( want, g );
            VM_CHECK( vm::slurp( f ) == vm::slurp( g ) && !vm::slurp( g ).empty(), "differs", op << ":\n" << vm::slurp( f ) << "\nnot\n" << vm::slurp( g ) );
          }
          vital_trackset_destroy( got, nullptr );
        }
        vm::event( c.ok ? "tracked" : "track_failed" );
      }
    }
    }
    (void)typed;
    log += op + " ";
    vital_config_block_destroy( cb, nullptr );
  }
  Eh e1( r ), e2( r );
  t.destroy( nullptr, e1 );
  e1.expect( bad(), "destroying no algorithm" );
  t.destroy( a.c, e2 );
  e2.expect( Cpp(), "destroying an algorithm" );
  other.destroy( foreign, nullptr );
  vital_image_container_destroy( ic, nullptr );
  vital_image_container_destroy( mask, nullptr );
  vital_trackset_destroy( ts, nullptr );
  vm::sig( std::string( t.name ) + log );
  vm::sample( std::string( t.name ) + ": " + log.substr( 0, 400 ) );
}

// ---- plugins -----------------------------------------------------------
void plugins( vm::Rng& r )
{
  static std::string const module = [] { std::string e = vm::st().extra; size_t p = e.find( "a03_plugin=" ); e = e.substr( p + 11 ); return e.substr( 0, e.find( ',' ) ); }();
  std::string d = vm::dir() + "/plug";
  vm::rmtree( d );
  ::mkdir( d.c_str(), 0755 );
  std::vector< std::string > names;
  for( long i = r.range( 1, 3 ); i; --i )
  {
    std::string n = "mod" + vm::str( i ) + r.str( "ab", 0, 3 );
    vm::spit( d + "/" + n + ".so", vm::slurp( module ) );
    vm::spit( d + "/" + n + ".so.cfg", "impl 0 via_" + n + " p\n" );
    names.push_back( n );
  }
  bool all = r.chance( 1, 2 );
  std::string one = r.pick( names );
  vm::in_child( [ & ] {
    unsigned n = 5;
    char** l = nullptr;
    vital_apm_registered_module_names( nullptr, &l );
    vital_apm_registered_module_names( &n, nullptr );
    VM_CHECK( n == 5 && !l, "output-touched", "registered_module_names" );
    vital_apm_register_single_plugin( nullptr );
    vital_apm_add_search_path( nullptr );
    vital_apm_add_search_path( d.c_str() );
    if( all ) { vital_apm_register_plugins(); } else { vital_apm_register_single_plugin( one.c_str() ); }
    vital_apm_registered_module_names( &n, &l );
    std::vector< std::string > got = take( n, l ), want = kv::algorithm_plugin_manager::instance().registered_module_names();
    std::sort( got.begin(), got.end() );
    std::sort( want.begin(), want.end() );
    VM_CHECK( got == want, "differs", got.size() << " modules, C++ " << want.size() );
    std::vector< std::string > asked = all ? names : std::vector< std::string >( 1, one );
    std::sort( asked.begin(), asked.end() );
    VM_CHECK( got == asked, "differs", got.size() << " modules of " << asked.size() << " asked for" );
    vm::event( all ? "plugins_all" : "plugins_single" );
  } );
}

void one( vm::Rng& r, uint64_t i )
{
  static bool first = true;
  if( first )
  {
    first = false;
    vm::quiet_stderr();
    mocks::register_all();
    types();
  }
  switch( i % 64 == 63 ? 99 : r.below( 10 ) )
  {
  case 99: plugins( r ); break;
  case 0: case 1: case 2: { ConfigCase c( r ); c.run(); break; }
  case 3: config_files( r ); break;
  case 4: strings( r ); images( r ); break;
  case 5: cameras( r ); break;
  case 6: tracks( r ); break;
  default: algorithms( r );
  }
}

} // namespace

VM_MAIN( one )
