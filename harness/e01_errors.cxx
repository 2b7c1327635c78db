// E01: failures arrive as the documented exceptions and say what failed.
#include "vm.h"
#include <vital/exceptions/base.h>
#include <vital/exceptions.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/types/camera.h>
#include <vital/types/image.h>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/algo/image_io.h>
#include <fstream>
#include <sys/stat.h>
#include <memory>
#include <thread>

namespace kv = kwiver::vital;
typedef std::string Str;

namespace {

Str word( vm::Rng& r )
{
  size_t n = r.chance( 1, 12 ) ? r.below( 5000 ) : r.chance( 1, 10 ) ? 0 : r.range( 1, 20 );
  Str s;
  while( s.size() < n ) { s += r.pick( "abcXYZ019 /\\%'\"{}<>.:,-_\t\xC3\xA9\n" ); }
  return s;
}

// ---- the classes ------------------------------------------------------------------
struct Kind
{
  Str name;
  std::function< void() > raise;                                   // throws the exception
  std::vector< std::function< bool( std::exception const& ) > > is; // what it may be caught as
  std::function< Str( std::exception const& ) > fields;             // its public data; empty if it has none
  std::vector< Str > says;                                          // what its message holds
  Str data;                                                         // what fields() is to give
};

template < class B > bool caught_as( std::exception const& e ) { return dynamic_cast< B const* >( &e ) != nullptr; }
Str no_fields( std::exception const& ) { return Str(); }

// throws a T made of heap strings that are gone when it is caught
#define MAKE( T, ... ) [=]{ struct Gone { std::vector< Str > v; ~Gone() { for( auto& s : v ) { s.assign( s.size(), '#' ); } } } g{ { a, b, c, d } }; \
  Str const& A = g.v[ 0 ]; Str const& B = g.v[ 1 ]; Str const& C = g.v[ 2 ]; Str const& D = g.v[ 3 ]; \
  (void)A; (void)B; (void)C; (void)D; throw T{ __VA_ARGS__ }; }

std::vector< Kind > kinds( Str const& a, Str const& b, Str const& c, Str const& d, size_t const* n )
{
  size_t n0 = n[ 0 ], n1 = n[ 1 ], n2 = n[ 2 ], n3 = n[ 3 ];
  auto core = &caught_as< kv::vital_core_base_exception >;
  auto io = &caught_as< kv::io_exception >;
  auto math = &caught_as< kv::math_exception >;
  auto algo = &caught_as< kv::algorithm_exception >;
  auto cfg = &caught_as< kv::config_block_exception >;
  auto cfgio = &caught_as< kv::config_block_io_exception >;
  auto cfgfields = []( std::exception const& e ) { auto const& x = dynamic_cast< kv::config_block_io_exception const& >( e ); return x.m_file_path + "|" + x.m_reason; };
#define IS( T ) &caught_as< T >
  std::vector< Kind > k = {
    { "invalid_value", MAKE( kv::invalid_value, A ), { core, IS( kv::invalid_value ) }, no_fields, { a }, "" },
    { "thrown_by_macro", [=]{ VITAL_THROW_MSG( kv::invalid_value, a << n0 << b ); }, { core, IS( kv::invalid_value ) }, no_fields, { a + std::to_string( n0 ) + b }, "" },
    { "io_exception", []{ throw kv::io_exception(); }, { core, io }, no_fields, {}, "" },
    { "path_not_exists", MAKE( kv::path_not_exists, A ), { core, io, IS( kv::path_not_exists ) }, no_fields, { a }, "" },
    { "path_not_a_file", MAKE( kv::path_not_a_file, A ), { core, io, IS( kv::path_not_a_file ) }, no_fields, { a }, "" },
    { "path_not_a_directory", MAKE( kv::path_not_a_directory, A ), { core, io, IS( kv::path_not_a_directory ) }, no_fields, { a }, "" },
    { "invalid_file", MAKE( kv::invalid_file, A, B ), { core, io, IS( kv::invalid_file ) }, no_fields, { a, b }, "" },
    { "invalid_data", MAKE( kv::invalid_data, A ), { core, io, IS( kv::invalid_data ) }, no_fields, { a }, "" },
    { "file_not_found_exception", MAKE( kv::file_not_found_exception, A, B ), { core, io, IS( kv::file_not_found_exception ) }, no_fields, { a, b }, "" },
    { "file_not_read_exception", MAKE( kv::file_not_read_exception, A, B ), { core, io, IS( kv::file_not_read_exception ) }, no_fields, { a, b }, "" },
    { "file_write_exception", MAKE( kv::file_write_exception, A, B ), { core, io, IS( kv::file_write_exception ) }, no_fields, { a, b }, "" },
    { "math_exception", []{ throw kv::math_exception(); }, { core, math }, no_fields, {}, "" },
    { "non_invertible_matrix", []{ throw kv::non_invertible_matrix(); }, { core, math, IS( kv::non_invertible_matrix ) }, no_fields, {}, "" },
    { "point_maps_to_infinity", []{ throw kv::point_maps_to_infinity(); }, { core, math, IS( kv::point_maps_to_infinity ) }, no_fields, {}, "" },
    { "invalid_matrix_operation", MAKE( kv::invalid_matrix_operation, A ), { core, math, IS( kv::invalid_matrix_operation ) },
      []( std::exception const& e ) { return dynamic_cast< kv::invalid_matrix_operation const& >( e ).m_reason; }, { a }, a },
    { "image_exception", []{ throw kv::image_exception(); }, { core, IS( kv::image_exception ) }, no_fields, {}, "" },
    { "image_size_mismatch_exception", MAKE( kv::image_size_mismatch_exception, A, n0, n1, n2, n3 ), { core, IS( kv::image_exception ), IS( kv::image_size_mismatch_exception ) },
      []( std::exception const& e ) { auto const& x = dynamic_cast< kv::image_size_mismatch_exception const& >( e ); std::ostringstream s;
        s << x.m_message << "|" << x.m_correct_w << "|" << x.m_correct_h << "|" << x.m_given_w << "|" << x.m_given_h; return s.str(); },
      { a, std::to_string( n0 ), std::to_string( n1 ), std::to_string( n2 ), std::to_string( n3 ) },
      a + "|" + std::to_string( n0 ) + "|" + std::to_string( n1 ) + "|" + std::to_string( n2 ) + "|" + std::to_string( n3 ) },
    { "algorithm_exception", MAKE( kv::algorithm_exception, A, B, C ), { core, algo }, no_fields, { a, b, c }, "" },
    { "algorithm_configuration_exception", MAKE( kv::algorithm_configuration_exception, A, B, C ), { core, algo, IS( kv::algorithm_configuration_exception ) }, no_fields, { a, b, c }, "" },
    { "invalid_name_exception", MAKE( kv::invalid_name_exception, A, B ), { core, algo, IS( kv::invalid_name_exception ) }, no_fields, { a, b }, "" },
    { "bad_config_block_cast", MAKE( kv::bad_config_block_cast, A ), { cfg, IS( kv::bad_config_block_cast ) }, no_fields, { a }, "" },
    { "bad_config_block_cast_exception", MAKE( kv::bad_config_block_cast_exception, A, B, C, D ), { cfg, IS( kv::bad_config_block_cast_exception ) },
      []( std::exception const& e ) { auto const& x = dynamic_cast< kv::bad_config_block_cast_exception const& >( e ); return x.m_key + "|" + x.m_value + "|" + x.m_type + "|" + x.m_reason; },
      { a, b, c, d }, a + "|" + b + "|" + c + "|" + d },
    { "no_such_configuration_value_exception", MAKE( kv::no_such_configuration_value_exception, A ), { cfg, IS( kv::no_such_configuration_value_exception ) },
      []( std::exception const& e ) { return dynamic_cast< kv::no_such_configuration_value_exception const& >( e ).m_key; }, { a }, a },
    { "set_on_read_only_value_exception", MAKE( kv::set_on_read_only_value_exception, A, B, C ), { cfg, IS( kv::set_on_read_only_value_exception ) },
      []( std::exception const& e ) { auto const& x = dynamic_cast< kv::set_on_read_only_value_exception const& >( e ); return x.m_key + "|" + x.m_value + "|" + x.m_new_value; },
      { a, b, c }, a + "|" + b + "|" + c },
    { "unset_on_read_only_value_exception", MAKE( kv::unset_on_read_only_value_exception, A, B ), { cfg, IS( kv::unset_on_read_only_value_exception ) },
      []( std::exception const& e ) { auto const& x = dynamic_cast< kv::unset_on_read_only_value_exception const& >( e ); return x.m_key + "|" + x.m_value; }, { a, b }, a + "|" + b },
    { "bad_configuration_cast", MAKE( kv::bad_configuration_cast, A ), { cfg, IS( kv::bad_configuration_cast ) }, no_fields, { a }, "" },
    { "bad_configuration_cast_exception", MAKE( kv::bad_configuration_cast_exception, A, B, C.c_str(), D.c_str() ), { cfg, IS( kv::bad_configuration_cast_exception ) },
      []( std::exception const& e ) { auto const& x = dynamic_cast< kv::bad_configuration_cast_exception const& >( e ); return x.m_key + "|" + x.m_value + "|" + x.m_type + "|" + x.m_reason; },
      { a, b, c, d }, a + "|" + b + "|" + c + "|" + d },
    { "config_block_io_exception", MAKE( kv::config_block_io_exception, A, B ), { cfg, cfgio }, cfgfields, {}, a + "|" + b },
    { "config_file_not_found_exception", MAKE( kv::config_file_not_found_exception, A, B ), { cfg, cfgio, IS( kv::config_file_not_found_exception ) }, cfgfields, { a, b }, a + "|" + b },
    { "config_file_not_read_exception", MAKE( kv::config_file_not_read_exception, A, B ), { cfg, cfgio, IS( kv::config_file_not_read_exception ) }, cfgfields, { a, b }, a + "|" + b },
    { "config_file_not_parsed_exception", MAKE( kv::config_file_not_parsed_exception, A, B ), { cfg, cfgio, IS( kv::config_file_not_parsed_exception ) }, cfgfields, { a, b }, a + "|" + b },
    { "config_file_write_exception", MAKE( kv::config_file_write_exception, A, B ), { cfg, cfgio, IS( kv::config_file_write_exception ) }, cfgfields, { a, b }, a + "|" + b },
  };
  return k;
}

Str describe( Kind const& k, std::exception const& e )
{
  for( size_t i = 0; i < k.is.size(); ++i ) { VM_CHECK( k.is[ i ]( e ), "class:" + k.name, "not caught as its class " << i ); }
  char const* w = e.what();
  VM_CHECK( w && w == e.what(), "message-moves:" + k.name, "what() gives another address on each call" );
  Str text( w );
  for( auto const& s : k.says ) { VM_CHECK( text.find( s ) != Str::npos, "message:" + k.name, vm::show( text.substr( 0, 1500 ) ) << " lacks " << vm::show( s.substr( 0, 500 ) ) ); }
  if( k.says.empty() && k.name != "config_block_io_exception" ) { VM_CHECK( !text.empty(), "message-empty:" + k.name, "" ); }
  Str f = k.fields( e );
  VM_CHECK( f == k.data, "data:" + k.name, vm::show( f.substr( 0, 500 ) ) << " instead of " << vm::show( k.data.substr( 0, 500 ) ) );
  return text;
}

void classes( vm::Rng& r )
{
  Str a = word( r ), b = word( r ), c = word( r ), d = word( r );
  size_t n[ 4 ];
  for( auto& x : n ) { x = r.chance( 1, 4 ) ? r.u64() : r.below( 5000 ); }
  std::vector< Kind > all = kinds( a, b, c, d, n );
  std::vector< std::pair< size_t, std::exception_ptr > > kept;
  std::vector< Str > texts;
  for( size_t i = 0; i < all.size(); ++i )
  {
    Kind const& k = all[ i ];
    vm::note( k.name );
    bool thrown = false;
    try { k.raise(); }
    catch( std::exception const& e )
    {
      thrown = true;
      texts.push_back( describe( k, e ) );
      kept.push_back( { i, std::current_exception() } );
    }
    VM_CHECK( thrown, "class:" + k.name, "not a std::exception" );
  }
  // kept, they say the same later, in other threads too
  vm::note( "kept exceptions" );
  for( size_t i = kept.size(); i-- > 1; ) { std::swap( kept[ i ], kept[ r.below( i + 1 ) ] ); }
  auto again = [&]( size_t step )
  {
    for( size_t i = step; i < kept.size(); i += 2 )
    {
      try { std::rethrow_exception( kept[ i ].second ); }
      catch( std::exception const& e ) { VM_CHECK( describe( all[ kept[ i ].first ], e ) == texts[ kept[ i ].first ], "message-changes:" + all[ kept[ i ].first ].name, "" ); }
    }
  };
  again( 0 );
  again( 1 );
  if( r.chance( 1, 8 ) )
  {
    std::exception_ptr bad;
    std::mutex m;
    std::vector< std::thread > ts;
    for( int t = 0; t < 4; ++t ) { ts.emplace_back( [&, t]{ try { again( t % 2 ); } catch( vm::CaseFail const& ) { std::lock_guard< std::mutex > g( m ); bad = std::current_exception(); } } ); }
    for( auto& t : ts ) { t.join(); }
    if( bad ) { std::rethrow_exception( bad ); }
    vm::event( "exceptions seen by several threads" );
  }
  // copies are independent of what they were copied from
  vm::note( "copies" );
  {
    std::unique_ptr< kv::file_write_exception > x( new kv::file_write_exception( a, b ) );
    kv::file_write_exception y( *x );
    Str was = x->what();
    kv::file_write_exception z( c, d );
    Str other = z.what();
    z = y;
    x.reset();
    VM_CHECK( was == y.what() && was == z.what(), "copy", "a copied exception changed" );
    y = kv::file_write_exception( d, c );
    VM_CHECK( was == z.what(), "copy-shares", "an assigned exception changed with its source" );
    std::unique_ptr< kv::no_such_configuration_value_exception > p( new kv::no_such_configuration_value_exception( a ) );
    kv::no_such_configuration_value_exception q( *p );
    Str t = p->what();
    p.reset();
    VM_CHECK( t == q.what() && q.m_key == a, "copy", "a copied exception changed" );
  }
  vm::event( "exception classes", all.size() );
  if( a.empty() ) { vm::event( "nothing to say" ); }
  if( a.size() > 1000 ) { vm::event( "long messages" ); }
}

// ---- the operations ----------------------------------------------------------------
struct Log : std::streambuf
{
  Str text;
  int overflow( int c ) override { text += static_cast< char >( c ); return c; }
  std::streamsize xsputn( char const* s, std::streamsize n ) override { text.append( s, n ); return n; }
};

// runs fn, which is to end with an E that names all of `says`
template < class E, class F > Str expect( Str const& what, std::vector< Str > const& says, F fn, std::function< void( E const& ) > more = nullptr )
{
  vm::note( what );
  try { fn(); }
  catch( E const& e )
  {
    Str text = e.what();
    for( auto const& s : says ) { VM_CHECK( text.find( s ) != Str::npos, "says:" + what, vm::show( text ) << " lacks " << vm::show( s ) ); }
    if( more ) { more( e ); }
    vm::event( what );
    return text;
  }
  catch( vm::CaseFail const& ) { throw; }
  catch( std::exception const& e ) { VM_FAIL( "kind:" + what, vm::demangle( typeid( e ).name() ) << ": " << e.what() ); }
  VM_FAIL( "accepted:" + what, "nothing was thrown" );
}

Str name( vm::Rng& r ) { return r.str( "abcxyz", 1, 9 ) + ( r.chance( 1, 4 ) ? " with blank" : "" ); }

void put( Str const& f, Str const& text ) { std::ofstream o( f.c_str(), std::ios::binary ); o << text; }

void config( vm::Rng& r )
{
  kv::config_block_sptr root = kv::config_block::empty_config(), c = root;
  Str prefix;
  for( size_t n = r.below( 3 ); n; --n ) { Str s = r.str( "abc", 1, 4 ); c = c->subblock_view( s ); prefix += s + ":"; }
  Str key = r.str( "klm", 1, 9 ), value = "v" + r.str( "abc xyz", 0, 20 ) + "v", other = r.str( "012", 1, 9 );
  expect< kv::no_such_configuration_value_exception >( "missing value", { key }, [&]{ c->get_value< Str >( key ); },
    [&]( kv::no_such_configuration_value_exception const& e ) { VM_CHECK( e.m_key == key || e.m_key == prefix + key, "data:missing value", e.m_key ); } );
  expect< kv::no_such_configuration_value_exception >( "missing number", { key }, [&]{ c->get_value< int >( key ); } );
  expect< kv::no_such_configuration_value_exception >( "missing description", { key }, [&]{ c->get_description( key ); } );
  expect< kv::no_such_configuration_value_exception >( "unset of a missing value", { key }, [&]{ c->unset_value( key ); } );
  c->set_value( key, value );
  auto cast = [&]( kv::bad_config_block_cast_exception const& e )
  {
    VM_CHECK( ( e.m_key == key || e.m_key == prefix + key ) && e.m_value == value && !e.m_type.empty() && !e.m_reason.empty(), "data:bad cast", e.m_key << "|" << e.m_value << "|" << e.m_type << "|" << e.m_reason );
  };
  expect< kv::bad_config_block_cast_exception >( "bad number", { key, value }, [&]{ c->get_value< int >( key ); }, cast );
  expect< kv::bad_config_block_cast_exception >( "bad real", { key, value }, [&]{ c->get_value< double >( key ); }, cast );
  expect< kv::bad_config_block_cast_exception >( "bad truth", { key, value }, [&]{ c->get_value< bool >( key ); }, cast );
  c->mark_read_only( key );
  expect< kv::set_on_read_only_value_exception >( "set of a read only value", { key, value, other }, [&]{ c->set_value( key, other ); },
    [&]( kv::set_on_read_only_value_exception const& e ) { VM_CHECK( ( e.m_key == key || e.m_key == prefix + key ) && e.m_value == value && e.m_new_value == other, "data:set of a read only value", e.m_key << "|" << e.m_value << "|" << e.m_new_value ); } );
  expect< kv::unset_on_read_only_value_exception >( "unset of a read only value", { key, value }, [&]{ c->unset_value( key ); },
    [&]( kv::unset_on_read_only_value_exception const& e ) { VM_CHECK( ( e.m_key == key || e.m_key == prefix + key ) && e.m_value == value, "data:unset of a read only value", e.m_key << "|" << e.m_value ); } );
  if( !prefix.empty() ) { vm::event( "errors inside views" ); }
  VM_CHECK( c->get_value< Str >( key ) == value, "changed", "a refused operation changed the value" );
}

void config_files( vm::Rng& r )
{
  Str f = vm::st().dir + "/" + name( r ) + ".conf", inc = vm::st().dir + "/" + name( r ) + ".inc";
  std::remove( f.c_str() );
  auto path = [&]( kv::config_block_io_exception const& e ) { VM_CHECK( e.m_file_path == f && !e.m_reason.empty(), "data:file", e.m_file_path << "|" << e.m_reason ); };
  expect< kv::config_file_not_found_exception >( "missing config file", { f }, [&]{ kv::read_config_file( f ); }, path );
  expect< kv::config_file_not_found_exception >( "config file that is a folder", { vm::st().dir }, [&]{ kv::read_config_file( vm::st().dir ); } );
  // an error somewhere in the file
  Str good = vm::st().dir + "/good.inc";
  put( good, Str( r.below( 9 ), '\n' ) + "included = 1\n# end\n" );
  size_t lines = r.below( 12 ), at = 1;
  Str text;
  for( size_t i = 0; i < lines; ++i, ++at )
  {
    if( r.chance( 1, 4 ) ) { text += "include " + good + "\n"; vm::event( "includes before an error" ); }
    else if( r.chance( 1, 4 ) ) { text += "block b\nx = 2\nendblock\n"; at += 2; }
    else { text += r.chance( 1, 3 ) ? "# words\n" : r.chance( 1, 3 ) ? "\n" : "k" + std::to_string( i ) + " = 1\n"; }
  }
  Log log;
  std::streambuf* old = std::cerr.rdbuf( &log );
  std::streambuf* old2 = std::cout.rdbuf( &log );
  try
  {
    switch( r.below( 4 ) )
    {
    case 0:
      put( f, text + r.pick( std::vector< Str >{ "what is this\n", "= 5\n", "key : block\n", "k[WRONG] = 7\n" } ) + "last = 1\n" );
      expect< kv::config_file_not_parsed_exception >( "malformed line", { f }, [&]{ kv::read_config_file( f ); }, path );
      VM_CHECK( log.text.find( f + ":" + std::to_string( at ) ) != Str::npos, "logged-place:malformed line", "line " << at << " of " << f << " is not named in\n" << log.text );
      break;
    case 1:
      put( f, text + "include " + inc + "\n" );
      std::remove( inc.c_str() );
      expect< kv::config_file_not_found_exception >( "missing include", { inc, f, std::to_string( at ) }, [&]{ kv::read_config_file( f ); } );
      break;
    case 2:
    {
      // every block left open is named with the place where it starts
      std::vector< Str > places;
      Str const names[] = { "one", "two", "three", "four" };
      size_t n = 1 + r.below( 4 ), in = r.below( 2 * n );
      for( size_t i = 0; i < n; ++i )
      {
        if( i == in )
        {
          put( inc, Str( r.below( 5 ), '\n' ) + "block " + names[ i ] + "\n  b = 1\n" );
          Str b = vm::slurp( inc );
          text += "include " + inc + "\n"; ++at;
          places.push_back( "\"" + names[ i ] + "\" - Started at " + inc + ":" + std::to_string( std::count( b.begin(), b.begin() + static_cast< long >( b.find( "block" ) ), '\n' ) + 1 ) + "\n" );
          vm::event( "blocks left open in an included file" );
          continue;
        }
        text += "block " + names[ i ] + "\n";
        places.push_back( "\"" + names[ i ] + "\" - Started at " + f + ":" + std::to_string( at ) + "\n" );
        ++at;
        if( r.chance( 1, 2 ) ) { text += "a = 1\n"; ++at; }
        if( r.chance( 1, 4 ) ) { text += "block shut\na = 1\nendblock\n"; at += 3; }
      }
      put( f, text );
      expect< kv::config_file_not_parsed_exception >( "open block", { f }, [&]{ kv::read_config_file( f ); }, path );
      for( auto const& p : places ) { VM_CHECK( log.text.find( p ) != Str::npos, "logged-place:open block", vm::show( p ) << " is not in\n" << log.text ); }
      if( n > 1 ) { vm::event( "several blocks left open" ); }
      std::remove( inc.c_str() );
    }
      break;
    default:
      put( f, text + "endblock\n" );
      expect< kv::config_file_not_parsed_exception >( "end without block", { f }, [&]{ kv::read_config_file( f ); }, path );
    }
  }
  catch( ... ) { std::cerr.rdbuf( old ); std::cout.rdbuf( old2 ); throw; }
  std::cerr.rdbuf( old );
  std::cout.rdbuf( old2 );
  kv::config_block_sptr c = kv::config_block::empty_config();
  c->set_value( "a", "b" );
  expect< kv::config_file_write_exception >( "config file in a file", { f }, [&]{ kv::write_config_file( c, f + "/x" ); } );
  expect< kv::config_file_write_exception >( "config file over a folder", { vm::st().dir }, [&]{ kv::write_config_file( c, vm::st().dir ); } );
  std::remove( f.c_str() );
}

struct Reader : kv::algorithm_impl< Reader, kv::algo::image_io >
{
  std::string impl_name() const { return "reader"; }
  void set_configuration( kv::config_block_sptr ) { }
  bool check_configuration( kv::config_block_sptr ) const { return true; }
  kv::image_container_sptr load_( std::string const& ) const { return kv::image_container_sptr(); }
  void save_( std::string const&, kv::image_container_sptr ) const { }
};

void files( vm::Rng& r )
{
  Str const& dir = vm::st().dir;
  Str none = dir + "/" + name( r ) + ".none", f = dir + "/" + name( r ) + ".file";
  put( f, r.pick( std::vector< Str >{ "words that are no data\n", "x y z", "# comment only\nbad\n" } ) );
  kv::simple_camera cam;
  auto landmarks = kv::landmark_map_sptr( new kv::simple_landmark_map( kv::landmark_map::map_landmark_t{ { 1, kv::landmark_sptr( new kv::landmark_d() ) } } ) );
  auto tracks = kv::track_set_sptr( new kv::simple_track_set( std::vector< kv::track_sptr >{ kv::track_sptr( new kv::track() ) } ) );
  expect< kv::file_not_found_exception >( "missing camera", { none }, [&]{ kv::read_krtd_file( none ); } );
  expect< kv::file_not_found_exception >( "camera that is a folder", { dir }, [&]{ kv::read_krtd_file( dir ); } );
  expect< kv::io_exception >( "malformed camera", {}, [&]{ kv::read_krtd_file( f ); } );
  expect< kv::file_write_exception >( "camera over a folder", { dir }, [&]{ kv::write_krtd_file( cam, dir ); } );
  expect< kv::file_write_exception >( "camera in a file", { f }, [&]{ kv::write_krtd_file( cam, f + "/x" ); } );
  expect< kv::path_not_exists >( "missing camera folder", { none }, [&]{ kv::read_krtd_files( { "a.png" }, none ); } );
  expect< kv::invalid_data >( "no cameras", {}, [&]{ kv::read_krtd_files( { "none_of_these.png" }, dir ); } );
  expect< kv::file_not_found_exception >( "missing landmarks", { none }, [&]{ kv::read_ply_file( none ); } );
  expect< kv::file_not_found_exception >( "landmarks that are a folder", { dir }, [&]{ kv::read_ply_file( dir ); } );
  expect< kv::file_not_read_exception >( "malformed landmarks", { f }, [&]{ kv::read_ply_file( f ); } );
  expect< kv::file_write_exception >( "landmarks over a folder", { dir }, [&]{ kv::write_ply_file( landmarks, dir ); } );
  expect< kv::file_write_exception >( "landmarks in a file", { f }, [&]{ kv::write_ply_file( landmarks, f + "/x" ); } );
  expect< kv::file_write_exception >( "no landmarks", { none }, [&]{ kv::write_ply_file( kv::landmark_map_sptr( new kv::simple_landmark_map() ), none ); } );
  expect< kv::file_not_found_exception >( "missing tracks", { none }, [&]{ kv::read_track_file( none ); } );
  expect< kv::file_not_found_exception >( "tracks that are a folder", { dir }, [&]{ kv::read_track_file( dir ); } );
  expect< kv::file_not_read_exception >( "malformed tracks", { f }, [&]{ kv::read_track_file( f ); } );
  expect< kv::file_write_exception >( "tracks over a folder", { dir }, [&]{ kv::write_track_file( tracks, dir ); } );
  expect< kv::file_write_exception >( "tracks in a file", { f }, [&]{ kv::write_track_file( tracks, f + "/x" ); } );
  Reader io;
  expect< kv::path_not_exists >( "missing image", { none }, [&]{ io.load( none ); } );
  expect< kv::path_not_a_file >( "image that is a folder", { dir }, [&]{ io.load( dir ); } );
  expect< kv::path_not_exists >( "image into a missing folder", { none }, [&]{ io.save( none + "/x", kv::image_container_sptr() ); } );
  expect< kv::path_not_a_directory >( "image into a file", { f }, [&]{ io.save( f + "/x", kv::image_container_sptr() ); } );
  // there, but not to be opened
  Str shut = dir + "/" + name( r ) + ".sock";
  std::remove( shut.c_str() );
  if( ::mknod( shut.c_str(), S_IFSOCK | 0600, 0 ) == 0 )
  {
    expect< kv::file_not_read_exception >( "camera that cannot be opened", { shut }, [&]{ kv::read_krtd_file( shut ); } );
    expect< kv::file_not_read_exception >( "landmarks that cannot be opened", { shut }, [&]{ kv::read_ply_file( shut ); } );
    expect< kv::file_not_read_exception >( "tracks that cannot be opened", { shut }, [&]{ kv::read_track_file( shut ); } );
    expect< kv::config_block_io_exception >( "config file that cannot be opened", { shut }, [&]{ kv::read_config_file( shut ); },
      [&]( kv::config_block_io_exception const& e ) { VM_CHECK( e.m_file_path == shut && !e.m_reason.empty(), "data:file", e.m_file_path << "|" << e.m_reason ); } );
    put( f, "a = 1\ninclude " + shut + "\n" );
    expect< kv::config_block_io_exception >( "include that cannot be opened", { shut }, [&]{ kv::read_config_file( f ); } );
    std::remove( shut.c_str() );
    vm::event( "files_that_cannot_be_opened" );
  }
  VM_CHECK( ::access( none.c_str(), F_OK ), "created", "a refused operation made " << none );
  std::remove( f.c_str() );
}

void values( vm::Rng& r )
{
  // an image outside its extent
  size_t w = r.range( 1, 9 ), h = r.range( 1, 9 ), d = r.range( 1, 4 );
  kv::image img( w, h, d );
  kv::image const& ci = img;
  size_t far = r.chance( 1, 2 ) ? r.below( 4 ) : r.chance( 1, 2 ) ? 0xFFFFFFFFu : 1u << r.range( 4, 31 );
  auto beyond = [&]( size_t n ) { return static_cast< unsigned >( std::min< size_t >( n + far, 0xFFFFFFFFu ) ); };
  unsigned x = r.below( w ), y = r.below( h ), z = r.below( d );
  expect< std::out_of_range >( "column out of range", {}, [&]{ (void)img( beyond( w ), y, z ); } );
  expect< std::out_of_range >( "row out of range", {}, [&]{ (void)ci( x, beyond( h ), z ); } );
  expect< std::out_of_range >( "plane out of range", {}, [&]{ (void)ci( x, y, beyond( d ) ); } );
  expect< std::out_of_range >( "pixel out of range", {}, [&]{ (void)ci( beyond( w ), y ); } );
  expect< std::out_of_range >( "row out of range of the first plane", {}, [&]{ (void)img( x, beyond( h ) ); } );
  // a matrix that has no inverse
  Eigen::Matrix< double, 3, 3 > m;
  for( int i = 0; i < 9; ++i ) { m( i ) = static_cast< double >( r.range( -9, 9 ) ); }
  m.row( 2 ) = m.row( 1 ) = m.row( 0 ) * 0;
  kv::homography_< double > sing( m );
  expect< kv::non_invertible_matrix >( "no inverse", {}, [&]{ sing.inverse(); } );
  // a point that goes to infinity
  double px = static_cast< double >( r.range( -50, 50 ) ), py = static_cast< double >( r.range( -50, 50 ) );
  Eigen::Matrix< double, 3, 3 > p = Eigen::Matrix< double, 3, 3 >::Identity();
  p( 2, 0 ) = py;
  p( 2, 1 ) = -px;
  p( 2, 2 ) = 0;
  kv::homography_< double > inf( p );
  expect< kv::point_maps_to_infinity >( "point at infinity", {}, [&]{ inf.map( Eigen::Matrix< double, 2, 1 >( px, py ) ); } );
  // frames that do not meet
  kv::frame_id_t a = r.range( 0, 5 ), b = a + r.range( 1, 5 );
  kv::f2f_homography one( kv::homography_sptr( new kv::homography_< double >() ), a, a ), two( kv::homography_sptr( new kv::homography_< double >() ), b, b );
  expect< kv::invalid_matrix_operation >( "frames that do not meet", {}, [&]{ one * two; }, []( kv::invalid_matrix_operation const& e ) { VM_CHECK( !e.m_reason.empty() && Str( e.what() ).find( e.m_reason ) != Str::npos, "data:frames", e.what() ); } );
}

void body( vm::Rng& r, uint64_t i )
{
  classes( r );
  config( r );
  config_files( r );
  if( i % 4 == 0 ) { files( r ); }
  values( r );
  vm::sig( vm::mix( r.u64() ) );
}

}

int main( int argc, char** argv ) { return vm::run( argc, argv, body ); }
