// A03: plugins are discovered, registered once and stay usable.
#include "vm.h"
#include "a03_types.h"
#include <vital/algo/algorithm.txx>
#include <vital/algorithm_plugin_manager.h>
#include <vital/registrar.h>
#include <vital/algorithm_plugin_manager_paths.h>
#include <algorithm>
#include <link.h>

using namespace kwiver::vital;

extern int explorer_main( int, char** );

namespace {

std::vector< std::string > calls;          // modules whose registration ran, in order

std::string module_file( std::string const& which )
{
  std::string const& e = vm::st().extra;
  size_t p = e.find( which + "=" );
  if( p == std::string::npos ) { std::fprintf( stderr, "no module %s\n", which.c_str() ); std::_Exit( 3 ); }
  p += which.size() + 1;
  return e.substr( p, e.find( ',', p ) - p );
}

struct Impl { int type; std::string name, payload; };

struct Entry
{
  enum Kind { GOOD, FAILING, FOREIGN, UNRESOLVED, GARBAGE, EMPTY, DIRECTORY, DANGLING, WRONG_SUFFIX, LINKED } kind;
  std::string file;           // name within its directory
  std::vector< Impl > impls;
  int result;
};

char const* const kind_names[] = { "good", "failing", "foreign", "unresolved", "garbage", "empty", "directory", "dangling", "wrong_suffix", "linked" };

struct Dir { std::string path; bool exists; std::vector< Entry > entries; };

struct Used { algorithm_sptr obj; Impl impl; };

struct World
{
  vm::Rng& r;
  std::string root;
  std::map< std::string, Dir > dirs;       // by path
  std::vector< std::string > order;        // the search path
  unsigned serial = 0;

  // model
  std::map< std::pair< int, std::string >, std::string > registry;     // (type, name) -> payload
  std::set< std::string > modules;                                     // registered module names
  std::vector< Used > kept;

  explicit World( vm::Rng& r_ ) : r( r_ ), root( vm::dir() + "/w" ) { }

  static std::string stem( std::string const& f ) { return f.substr( 0, f.size() - 3 ); }

  std::string fresh_impl() { return r.chance( 1, 3 ) ? std::string( "common" ) + char( 'a' + r.below( 3 ) ) : "impl" + vm::str( serial++ ); }

  void copy_module( std::string const& which, std::string const& to )
  {
    std::string from = module_file( which );
    ::unlink( to.c_str() );
    // modules are told apart by inode: a hard link would be one module
    std::string data = vm::slurp( from );
    vm::spit( to, data );
  }

  void describe( Entry const& e, std::string const& path )
  {
    std::string t = "result " + vm::str( e.result ) + "\n";
    for( auto const& i : e.impls ) { t += "impl " + vm::str( i.type ) + " " + i.name + " " + i.payload + "\n"; }
    vm::spit( path + ".cfg", t );
  }

  void fill( Entry& e )
  {
    e.impls.clear();
    unsigned n = static_cast< unsigned >( r.below( 4 ) );
    std::set< std::pair< int, std::string > > seen;
    for( unsigned i = 0; i < n; ++i )
    {
      Impl im;
      im.type = static_cast< int >( r.below( 2 ) );
      im.name = fresh_impl();
      im.payload = "payload" + vm::str( serial++ );
      if( seen.insert( { im.type, im.name } ).second ) { e.impls.push_back( im ); }
    }
    e.result = e.kind == Entry::FAILING ? ( r.chance( 1, 3 ) ? -1 : static_cast< int >( r.range( 1, 300 ) ) ) : 0;
  }

  void add_entry( Dir& d, Entry::Kind k )
  {
    Entry e;
    e.kind = k;
    std::string base;
    switch( r.below( 6 ) )
    {
    case 0: base = "vital_" + r.str( "abc", 1, 3 ); break;
    case 1: base = "mod.v" + vm::str( r.below( 3 ) ); break;
    case 2: base = "mod"; break;
    case 3: base = "with space" + vm::str( r.below( 2 ) ); break;
    default: base = "m" + vm::str( r.below( 8 ) );
    }
    e.file = base + ".so";
    if( k == Entry::WRONG_SUFFIX ) { e.file = base + ( r.chance( 1, 2 ) ? ".so.1" : r.chance( 1, 2 ) ? ".txt" : "so" ); }
    for( auto const& o : d.entries ) { if( o.file == e.file ) { return; } }
    fill( e );
    std::string path = d.path + "/" + e.file;
    switch( k )
    {
    case Entry::GOOD: case Entry::FAILING: case Entry::WRONG_SUFFIX: copy_module( "a03_plugin", path ); describe( e, path ); break;
    case Entry::LINKED:
    {
      std::string real = root + "/store/real" + vm::str( serial++ ) + ".so";
      ::mkdir( ( root + "/store" ).c_str(), 0700 );
      copy_module( "a03_plugin", real );
      if( ::symlink( real.c_str(), path.c_str() ) ) { std::_Exit( 3 ); }
      describe( e, path );
      break;
    }
    case Entry::FOREIGN: copy_module( "a03_foreign", path ); break;
    case Entry::UNRESOLVED: copy_module( "a03_unresolved", path ); break;
    case Entry::GARBAGE: vm::spit( path, r.chance( 1, 2 ) ? "#!/bin/sh\necho no library\n" : std::string( "\x7f" "ELF\x02\x01\x01", 7 ) + r.str( "abc\n", 0, 2000 ) ); break;
    case Entry::EMPTY: vm::spit( path, "" ); break;
    case Entry::DIRECTORY: ::mkdir( path.c_str(), 0700 ); break;
    case Entry::DANGLING: if( ::symlink( ( root + "/nowhere" ).c_str(), path.c_str() ) ) { std::_Exit( 3 ); } break;
    }
    vm::event( std::string( "entry_" ) + kind_names[ k ] );
    d.entries.push_back( e );
  }

  std::string make_dir( bool exists )
  {
    Dir d;
    d.path = root + "/d" + vm::str( dirs.size() ) + ( r.chance( 1, 6 ) ? " x" : "" );
    d.exists = exists;
    if( exists )
    {
      ::mkdir( d.path.c_str(), 0700 );
      unsigned n = static_cast< unsigned >( r.below( 6 ) );
      for( unsigned i = 0; i < n; ++i ) { add_entry( d, r.chance( 1, 2 ) ? Entry::GOOD : static_cast< Entry::Kind >( r.below( 10 ) ) ); }
    }
    else if( r.chance( 1, 2 ) ) { vm::spit( d.path, "a file, not a folder" ); }
    dirs[ d.path ] = d;
    return d.path;
  }

  // what one load must do, given the calls it made
  void loaded( std::string const& name, std::vector< std::string > const& made )
  {
    // expected calls, grouped by directory in search order
    std::vector< std::set< std::string > > expect;
    std::map< std::string, Entry const* > by_path;
    std::set< std::string > done;
    for( auto const& p : order )
    {
      auto it = dirs.find( p );
      if( it == dirs.end() || !it->second.exists || !done.insert( p ).second ) { continue; }
      std::set< std::string > group;
      for( auto const& e : it->second.entries )
      {
        if( e.kind != Entry::GOOD && e.kind != Entry::FAILING && e.kind != Entry::LINKED ) { continue; }
        if( !name.empty() && stem( e.file ) != name ) { continue; }
        group.insert( p + "/" + e.file );
        by_path[ p + "/" + e.file ] = &e;
      }
      if( !group.empty() ) { expect.push_back( group ); }
    }
    std::ostringstream got;
    for( auto const& m : made ) { got << m.substr( root.size() ) << " "; }
    size_t at = 0;
    for( auto const& g : expect )
    {
      std::set< std::string > seen;
      for( size_t i = 0; i < g.size() && at < made.size(); ++i, ++at )
      {
        VM_CHECK( g.count( made[ at ] ), "wrong-module-or-order", "name [" << name << "] calls: " << got.str() << " unexpected here: " << made[ at ] );
        VM_CHECK( seen.insert( made[ at ] ).second, "registered-twice", "name [" << name << "] calls: " << got.str() );
      }
      VM_CHECK( seen == g, "module-not-loaded", "name [" << name << "] calls: " << got.str() << " missing one of " << *g.begin() );
    }
    VM_CHECK( at == made.size(), "registered-twice", "name [" << name << "] calls: " << got.str() << " more than the modules found" );
    for( auto const& m : made )
    {
      Entry const& e = *by_path[ m ];
      for( auto const& i : e.impls ) { registry[ { i.type, i.name } ] = i.payload; }
      if( e.result == 0 ) { modules.insert( stem( e.file ) ); vm::event( "modules_registered" ); }
      else { vm::event( "modules_failed" ); if( e.result < 0 ) { vm::event( "modules_threw" ); } if( !e.impls.empty() ) { vm::event( "partial_registrations" ); } }
    }
  }

  template < int N > void use_all()
  {
    std::vector< std::string > names = a03_def< N >::registered_names(), want;
    for( auto const& e : registry ) { if( e.first.first == N ) { want.push_back( e.first.second ); } }
    std::sort( names.begin(), names.end() );
    std::ostringstream o;
    for( auto const& n : names ) { o << n << " "; }
    VM_CHECK( names == want, "wrong-registry", "type " << N << " lists: " << o.str() << " instead of " << want.size() << " names" );
    for( auto const& e : registry )
    {
      if( e.first.first != N ) { continue; }
      vm::note( "using " + e.first.second );
      auto a = a03_def< N >::create( e.first.second );
      VM_CHECK( a, "not-creatable", e.first.second );
      VM_CHECK( a->work( "x" ) == e.second + "/x/initial", "wrong-implementation", e.first.second << " gives " << a->work( "x" ) << " instead of " << e.second );
      VM_CHECK( a->impl_name() == e.first.second && a->description() == "from a module: " + e.second, "wrong-implementation", e.first.second );
      config_block_sptr c = a->get_configuration();
      VM_CHECK( c->get_value< std::string >( "setting" ) == "initial", "wrong-configuration", e.first.second );
      c->set_value( "setting", "changed" );
      VM_CHECK( a->check_configuration( c ), "wrong-configuration", e.first.second );
      a->set_configuration( c );
      VM_CHECK( a->work( "y" ) == e.second + "/y/changed", "wrong-implementation", e.first.second );
      algorithm_sptr g = algorithm::create( N ? "painter" : "paint", e.first.second );
      VM_CHECK( g && g->description() == a->description(), "not-creatable", e.first.second << " by its type name" );
      vm::event( "used" );
      if( r.chance( 1, 3 ) ) { kept.push_back( { a, { N, e.first.second, e.second } } ); }
    }
  }

  void use_kept()
  {
    for( auto const& k : kept )
    {
      vm::note( "using kept object of " + k.impl.name );
      std::string got = k.impl.type ? std::dynamic_pointer_cast< a03_def< 1 > >( k.obj )->work( "z" ) : std::dynamic_pointer_cast< a03_def< 0 > >( k.obj )->work( "z" );
      VM_CHECK( got == k.impl.payload + "/z/changed", "object-changed", k.impl.name << " gives " << got );
      vm::event( "kept_objects_used" );
    }
    while( kept.size() > 12 ) { kept.erase( kept.begin() + static_cast< long >( r.below( kept.size() ) ) ); }
  }
};

std::vector< std::string > nonempty( std::vector< std::string > v )
{
  v.erase( std::remove( v.begin(), v.end(), std::string() ), v.end() );
  return v;
}

std::vector< std::string > mapped( std::string const& below )
{
  struct Ctx { std::string below; std::vector< std::string > res; } c{ below, {} };
  ::dl_iterate_phdr( []( dl_phdr_info* i, size_t, void* p )
  {
    Ctx& cc = *static_cast< Ctx* >( p );
    if( i->dlpi_name && std::string( i->dlpi_name ).compare( 0, cc.below.size(), cc.below ) == 0 ) { cc.res.push_back( i->dlpi_name ); }
    return 0;
  }, &c );
  return c.res;
}

void scenario( vm::Rng& r, bool tool )
{
  World w( r );
  ::mkdir( w.root.c_str(), 0700 );
  // folders named by the environment, folders added by the program
  std::string env;
  std::vector< std::string > added;
  bool has_env = r.chance( 3, 4 );
  unsigned n = static_cast< unsigned >( r.range( 1, 4 ) );
  for( unsigned i = 0; i < n; ++i )
  {
    std::string p = w.make_dir( !r.chance( 1, 6 ) );
    if( has_env && r.chance( 1, 2 ) )
    {
      if( !env.empty() || r.chance( 1, 6 ) ) { env += ":"; }
      env += p;
      w.order.push_back( p );
    }
    else { added.push_back( p ); }
  }
  if( has_env && r.chance( 1, 4 ) ) { env += ":"; }
  if( has_env ) { ::setenv( "KWIVER_PLUGIN_PATH", env.c_str(), 1 ); vm::event( "environment" ); }
  else { ::unsetenv( "KWIVER_PLUGIN_PATH" ); }
  w.order.insert( w.order.end(), added.begin(), added.end() );
  std::string log = "env [" + env + "] ";

  if( tool )
  {
    // the listing tool shows what the manager registered
    vm::note( "listing tool" );
    std::vector< std::string > args = { "plugin_explorer" };
    std::string name;
    for( auto const& a : added ) { if( r.chance( 1, 2 ) ) { args.push_back( "-I" + a ); } else { args.push_back( "--path" ); args.push_back( a ); } }
    bool detail = r.chance( 1, 2 );
    if( detail ) { args.push_back( r.chance( 1, 2 ) ? "--detail" : "-d" ); }
    if( r.chance( 1, 3 ) )
    {
      name = r.chance( 1, 2 ) ? "mod" : "m" + vm::str( r.below( 8 ) );
      args.push_back( "--plugin-name" );
      args.push_back( name );
    }
    std::vector< char* > argv;
    for( auto& a : args ) { argv.push_back( &a[ 0 ] ); }
    argv.push_back( nullptr );
    std::ostringstream out;
    std::streambuf* old = std::cout.rdbuf( out.rdbuf() );
    int rc = explorer_main( static_cast< int >( args.size() ), argv.data() );
    std::cout.rdbuf( old );
    w.loaded( name, calls );
    std::set< std::string > lines;
    std::string line;
    std::istringstream in( out.str() );
    while( std::getline( in, line ) )
    {
      size_t b = line.find_first_not_of( " \t" );
      if( b != std::string::npos ) { lines.insert( line.substr( b, line.find_last_not_of( " \t" ) - b + 1 ) ); }
    }
    VM_CHECK( rc == 0, "listing-failed", "exit " << rc );
    for( auto const& m : w.modules ) { VM_CHECK( lines.count( m ), "listing-incomplete", "module " << m << " in\n" << out.str() ); }
    for( auto const& e : w.registry )
    {
      std::string full = std::string( e.first.first ? "painter:" : "paint:" ) + e.first.second;
      VM_CHECK( lines.count( full ), "listing-incomplete", "implementation " << full << " in\n" << out.str() );
    }
    // the details of each: its configuration entries with descriptions
    std::string text = out.str();
    for( auto const& e : w.registry )
    {
      std::string head = "Detailed info on type \"" + std::string( e.first.first ? "painter" : "paint" ) + "\" implementation \"" + e.first.second + "\"\n";
      size_t at = text.find( head );
      VM_CHECK( ( at != std::string::npos ) == detail, "listing-details", e.first.second << " in\n" << text );
      if( !detail ) { continue; }
      std::string part = text.substr( at + head.size(), text.find( "---------------------", at ) - at - head.size() );
      VM_CHECK( part.find( "\"setting\" = \"initial\"" ) != std::string::npos && part.find( "what to add" ) != std::string::npos, "listing-details", e.first.second << " in\n" << text );
      vm::event( "detailed_listings" );
    }
    vm::event( "listings" );
    vm::sig( "tool " + vm::str( w.modules.size() ) + " " + vm::str( w.registry.size() ) + " " + name );
    return;
  }

  vm::note( "first use" );
  algorithm_plugin_manager& m = algorithm_plugin_manager::instance();
  VM_CHECK( &m == &algorithm_plugin_manager::instance(), "two-managers", "" );
  VM_CHECK( calls.empty() && m.registered_module_names().empty(), "loaded-unasked", calls.size() << " calls" );
  std::vector< std::string > base = nonempty( m.get_search_path() );
  // the environment's folders come first, then the built-in ones
  std::vector< std::string > env_dirs;
  for( auto const& p : w.order ) { if( std::find( added.begin(), added.end(), p ) == added.end() ) { env_dirs.push_back( p ); } }
  // the folders the library was built with follow
  std::vector< std::string > builtin = env_dirs;
  {
    std::istringstream in( DEFAULT_MODULE_PATHS );
    std::string d;
    while( std::getline( in, d, PATH_SEPARATOR_CHAR ) ) { if( !d.empty() ) { builtin.push_back( d ); vm::event( "built-in folders" ); } }
  }
  VM_CHECK( base == builtin, base.size() >= env_dirs.size() && std::equal( env_dirs.begin(), env_dirs.end(), base.begin() ) ? "built-in-path" : "environment-path-ignored", log << " search path of " << base.size() << " folders, " << env_dirs.size() << " from the environment" );
  for( auto const& a : added )
  {
    m.add_search_path( a );
    std::vector< std::string > now = nonempty( m.get_search_path() );
    base.push_back( a );
    VM_CHECK( now == base, "wrong-search-path", "after adding " << a );
  }
  VM_CHECK( calls.empty(), "loaded-unasked", "by adding a folder" );

  bool once_done = false;
  unsigned steps = static_cast< unsigned >( r.range( 1, 6 ) );
  for( unsigned s = 0; s < steps; ++s )
  {
    calls.clear();
    switch( r.below( 8 ) )
    {
    case 0: case 1:
    {
      vm::note( "load once" );
      bool did = algorithm_plugin_manager::load_plugins_once();
      log += did ? "once " : "once-more ";
      VM_CHECK( did == !once_done, "load-once-answer", log );
      if( did ) { w.loaded( "", calls ); vm::event( "loaded_once" ); }
      else { VM_CHECK( calls.empty(), "loaded-twice", log ); vm::event( "loaded_once_before" ); }
      once_done = true;
      break;
    }
    case 2: case 3:
    {
      std::string name;
      if( r.chance( 3, 4 ) && !w.dirs.empty() )
      {
        auto it = w.dirs.begin();
        std::advance( it, static_cast< long >( r.below( w.dirs.size() ) ) );
        if( !it->second.entries.empty() ) { std::string f = r.pick( it->second.entries ).file; if( f.size() > 3 ) { name = World::stem( f ); } }
      }
      if( name.empty() ) { name = r.chance( 1, 2 ) ? "absent" : "mod"; }
      vm::note( "load " + name );
      log += "load[" + name + "] ";
      m.register_plugins( name );
      w.loaded( name, calls );
      vm::event( calls.empty() ? "loaded_by_name_none" : "loaded_by_name" );
      break;
    }
    case 4:
    {
      // the disk changes under the manager
      for( auto& d : w.dirs )
      {
        if( !d.second.exists ) { continue; }
        for( auto& e : d.second.entries )
        {
          if( ( e.kind == Entry::GOOD || e.kind == Entry::FAILING ) && r.chance( 1, 3 ) )
          {
            e.kind = r.chance( 1, 4 ) ? Entry::FAILING : Entry::GOOD;
            w.fill( e );
            w.describe( e, d.second.path + "/" + e.file );
            vm::event( "modules_changed" );
          }
          else if( e.kind == Entry::GOOD && r.chance( 1, 4 ) )
          {
            ::unlink( ( d.second.path + "/" + e.file ).c_str() );
            e.kind = Entry::WRONG_SUFFIX;     // gone: no longer expected
            e.file += ".gone";
            vm::event( "modules_deleted" );
          }
        }
        if( r.chance( 1, 3 ) ) { w.add_entry( d.second, Entry::GOOD ); }
      }
      log += "change ";
      if( r.chance( 1, 2 ) )
      {
        std::string p = w.make_dir( true );
        m.add_search_path( p );
        w.order.push_back( p );
        log += "add ";
      }
      break;
    }
    default:
      vm::note( "load all" );
      log += "load ";
      m.register_plugins();
      w.loaded( "", calls );
      vm::event( "loaded_all" );
    }
    std::vector< std::string > names = m.registered_module_names();
    std::set< std::string > got( names.begin(), names.end() );
    std::ostringstream o;
    for( auto const& x : names ) { o << "[" << x << "] "; }
    VM_CHECK( got.size() == names.size(), "module-listed-twice", log << o.str() );
    for( auto const& x : w.modules ) { VM_CHECK( got.count( x ), "module-not-listed", log << "[" << x << "] not in " << o.str() ); }
    for( auto const& x : got ) { VM_CHECK( w.modules.count( x ), "failed-module-listed", log << "[" << x << "] was never registered; listed: " << o.str() ); }
    vm::note( log );
    w.use_all< 0 >();
    w.use_all< 1 >();
    w.use_kept();
  }
  vm::event( "modules_mapped", mapped( w.root ).size() );
  vm::sig( vm::str( w.order.size() ) + " " + vm::str( w.modules.size() ) + " " + vm::str( w.registry.size() ) + " " + vm::str( steps ) + " " + vm::str( vm::hash( log.substr( log.find( ']' ) ) ) ) );
  vm::sample( log );
}

void one( vm::Rng& r, uint64_t )
{
  static bool quiet = false;
  if( !quiet ) { vm::quiet_stderr(); quiet = true; }
  vm::rmtree( vm::dir() + "/w" );
  vm::in_child( [ &r ] { scenario( r, r.chance( 1, 6 ) ); } );
}

} // namespace

extern "C" __attribute__( ( visibility( "default" ) ) ) void a03_called( char const* module ) { calls.push_back( module ); }

VM_MAIN( one )
