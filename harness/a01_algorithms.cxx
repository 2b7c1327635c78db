// A01: algorithms are created, configured and checked as their configuration says.
#include "vm.h"
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/registrar.h>
#include <vital/config/config_block.h>
#include <algorithm>
#include <memory>

using namespace kwiver::vital;

namespace {

typedef std::map< std::string, std::string > Flat;

// names of which one begins the other, on purpose
std::string const type_names[] = { "alpha", "alphabet", "beta", "lonely" };
enum { TYPES = 3 };   // "lonely" never has an implementation

struct Spec
{
  int type;
  std::string name, description;
  unsigned serial;
  struct Nested { int type; std::string name; bool typed; };
  std::vector< Nested > nested;
};
typedef std::shared_ptr< Spec const > Spec_p;

template < int N > struct def : public algorithm_def< def< N > >
{
  static std::string static_type_name() { return type_names[ N ]; }
};

struct probe
{
  Spec_p spec;
  Flat received;
  unsigned configured = 0;
  std::vector< algorithm_sptr > nested;
  virtual ~probe() { }
};

void set_nested( Spec::Nested const& n, config_block_sptr c, algorithm_sptr& a );
void get_nested( Spec::Nested const& n, config_block_sptr c, algorithm_sptr const& a );
bool check_nested( Spec::Nested const& n, config_block_sptr c );

Flat flat( config_block_sptr c )
{
  Flat f;
  for( auto const& k : c->available_values() ) { f[ k ] = c->get_value< std::string >( k ); }
  return f;
}

template < int N > struct mock : public algorithm_impl< mock< N >, def< N > >, public probe
{
  mock() { }
  virtual std::string impl_name() const { return spec->name; }
  virtual std::string description() const { return spec->description; }
  virtual config_block_sptr get_configuration() const
  {
    config_block_sptr c = algorithm::get_configuration();
    for( auto const& e : received ) { if( e.first.find( ':' ) == std::string::npos ) { c->set_value( e.first, e.second, "about " + e.first ); } }
    for( size_t i = 0; i < spec->nested.size(); ++i ) { get_nested( spec->nested[ i ], c, nested[ i ] ); }
    return c;
  }
  virtual void set_configuration( config_block_sptr c )
  {
    received = flat( c );
    ++configured;
    if( received.count( "quality" ) && received[ "quality" ] == "explode" ) { throw std::runtime_error( "refused by the implementation" ); }
    for( size_t i = 0; i < spec->nested.size(); ++i ) { set_nested( spec->nested[ i ], c, nested[ i ] ); }
  }
  virtual bool check_configuration( config_block_sptr c ) const
  {
    bool ok = c->get_value< std::string >( "quality", "good" ) != "bad";
    for( auto const& n : spec->nested ) { ok = check_nested( n, c ) && ok; }
    return ok;
  }
};

template < int N > std::shared_ptr< def< N > > build( Spec_p s )
{
  auto m = std::make_shared< mock< N > >();
  m->spec = s;
  m->nested.resize( s->nested.size() );
  return m;
}

template < int N > void typed_set( std::string const& name, config_block_sptr c, algorithm_sptr& a )
{
  std::shared_ptr< def< N > > p = std::dynamic_pointer_cast< def< N > >( a );
  try { def< N >::set_nested_algo_configuration( name, c, p ); } catch( ... ) { a = p; throw; }
  a = p;
}

void set_nested( Spec::Nested const& n, config_block_sptr c, algorithm_sptr& a )
{
  if( !n.typed || n.type >= TYPES ) { algorithm::set_nested_algo_configuration( type_names[ n.type ], n.name, c, a ); return; }
  switch( n.type )
  {
  case 0: typed_set< 0 >( n.name, c, a ); break;
  case 1: typed_set< 1 >( n.name, c, a ); break;
  default: typed_set< 2 >( n.name, c, a );
  }
}

void get_nested( Spec::Nested const& n, config_block_sptr c, algorithm_sptr const& a )
{
  if( !n.typed || n.type >= TYPES ) { algorithm::get_nested_algo_configuration( type_names[ n.type ], n.name, c, a ); return; }
  switch( n.type )
  {
  case 0: def< 0 >::get_nested_algo_configuration( n.name, c, std::dynamic_pointer_cast< def< 0 > >( a ) ); break;
  case 1: def< 1 >::get_nested_algo_configuration( n.name, c, std::dynamic_pointer_cast< def< 1 > >( a ) ); break;
  default: def< 2 >::get_nested_algo_configuration( n.name, c, std::dynamic_pointer_cast< def< 2 > >( a ) );
  }
}

bool check_nested( Spec::Nested const& n, config_block_sptr c )
{
  if( !n.typed || n.type >= TYPES ) { return algorithm::check_nested_algo_configuration( type_names[ n.type ], n.name, c ); }
  switch( n.type )
  {
  case 0: return def< 0 >::check_nested_algo_configuration( n.name, c );
  case 1: return def< 1 >::check_nested_algo_configuration( n.name, c );
  default: return def< 2 >::check_nested_algo_configuration( n.name, c );
  }
}

bool register_spec( Spec_p s )
{
  registrar& reg = registrar::instance();
  switch( s->type )
  {
  case 0: return def< 0 >::register_instance( reg, build< 0 >( s ) );
  case 1: return def< 1 >::register_instance( reg, build< 1 >( s ) );
  default: return def< 2 >::register_instance( reg, build< 2 >( s ) );
  }
}

algorithm_sptr typed_create( int type, std::string const& name )
{
  switch( type )
  {
  case 0: return def< 0 >::create( name );
  case 1: return def< 1 >::create( name );
  default: return def< 2 >::create( name );
  }
}

std::vector< std::string > typed_names( int type )
{
  switch( type )
  {
  case 0: return def< 0 >::registered_names();
  case 1: return def< 1 >::registered_names();
  default: return def< 2 >::registered_names();
  }
}

bool typed_has( int type, std::string const& n )
{
  switch( type )
  {
  case 0: return def< 0 >::has_impl_name( n );
  case 1: return def< 1 >::has_impl_name( n );
  default: return def< 2 >::has_impl_name( n );
  }
}

config_block_sptr typed_impl_configurations( int type )
{
  switch( type )
  {
  case 0: return def< 0 >::get_impl_configurations();
  case 1: return def< 1 >::get_impl_configurations();
  default: return def< 2 >::get_impl_configurations();
  }
}

// -- the model: registered specs, and what a flat configuration means -------
std::map< std::string, Spec_p > registered[ TYPES ];

struct Node
{
  Spec_p spec;
  Flat received;
  std::vector< std::unique_ptr< Node > > nested;
};

Flat view( Flat const& f, std::string const& prefix )
{
  Flat v;
  for( auto const& e : f )
  {
    if( e.first.compare( 0, prefix.size() + 1, prefix + ":" ) == 0 ) { v[ e.first.substr( prefix.size() + 1 ) ] = e.second; }
    else if( e.first.compare( 0, 8, "_global:" ) == 0 ) { v[ e.first ] = e.second; }
  }
  return v;
}

// null: the configuration names no registered implementation
std::unique_ptr< Node > meaning( int type, std::string const& name, Flat const& f )
{
  auto t = f.find( name + ":type" );
  if( t == f.end() || type >= TYPES ) { return nullptr; }
  auto s = registered[ type ].find( t->second );
  if( s == registered[ type ].end() ) { return nullptr; }
  std::unique_ptr< Node > n( new Node );
  n->spec = s->second;
  n->received = view( f, name + ":" + t->second );
  for( auto const& x : n->spec->nested ) { n->nested.push_back( meaning( x.type, x.name, n->received ) ); }
  return n;
}

bool acceptable( int type, std::string const& name, Flat const& f )
{
  std::unique_ptr< Node > n = meaning( type, name, f );
  if( !n ) { return false; }
  if( n->received.count( "quality" ) && n->received[ "quality" ] == "bad" ) { return false; }
  for( auto const& x : n->spec->nested ) { if( !acceptable( x.type, x.name, n->received ) ) { return false; } }
  return true;
}

bool explodes( Node const* n )
{
  if( !n ) { return false; }
  auto q = n->received.find( "quality" );
  if( q != n->received.end() && q->second == "explode" ) { return true; }
  for( auto const& x : n->nested ) { if( explodes( x.get() ) ) { return true; } }
  return false;
}

// the entries that describe a configured algorithm
void description_of( Node const* n, std::string const& prefix, Flat& out )
{
  out[ prefix + "type" ] = n ? n->spec->name : "";
  if( !n ) { return; }
  std::string p = prefix + n->spec->name + ":";
  for( auto const& e : n->received ) { if( e.first.find( ':' ) == std::string::npos ) { out[ p + e.first ] = e.second; } }
  for( size_t i = 0; i < n->nested.size(); ++i ) { description_of( n->nested[ i ].get(), p + n->spec->nested[ i ].name + ":", out ); }
}

std::string text( Flat const& f )
{
  std::string s;
  for( auto const& e : f ) { s += e.first + " = " + e.second + "\n"; }
  return s;
}

size_t depth_of( Node const* n )
{
  size_t d = 0;
  if( n ) { for( auto const& x : n->nested ) { d = std::max( d, depth_of( x.get() ) ); } ++d; }
  return d;
}

// compares what was created with what the configuration means; own_only leaves out entries of nested blocks
void compare( Node const* n, algorithm_sptr a, std::string const& where, std::string const& cfg, bool own_only )
{
  if( !n )
  {
    VM_CHECK( !a, "nested:created-without-cause", "at " << where << " the configuration names no registered implementation, but one of " << ( a ? a->type_name() + ":" + a->impl_name() : "" ) << " was made from\n" << cfg );
    return;
  }
  VM_CHECK( a, "nested:not-created", "at " << where << " no " << n->spec->name << " was made from\n" << cfg );
  probe* p = dynamic_cast< probe* >( a.get() );
  VM_CHECK( p && p->spec == n->spec, "nested:other-implementation", "at " << where << " " << a->type_name() << ":" << a->impl_name() << " serial " << ( p ? p->spec->serial : 0 ) << " was made instead of "
            << type_names[ n->spec->type ] << ":" << n->spec->name << " serial " << n->spec->serial << " from\n" << cfg );
  VM_CHECK( a->type_name() == type_names[ n->spec->type ], "nested:type", a->type_name() );
  VM_CHECK( p->configured == 1, "nested:configured-times", "at " << where << " set_configuration was called " << p->configured << " times" );
  Flat got = p->received, want = n->received;
  if( own_only )
  {
    for( auto it = got.begin(); it != got.end(); ) { it = it->first.find( ':' ) != std::string::npos ? got.erase( it ) : std::next( it ); }
    for( auto it = want.begin(); it != want.end(); ) { it = it->first.find( ':' ) != std::string::npos ? want.erase( it ) : std::next( it ); }
  }
  VM_CHECK( got == want, "nested:entries", "at " << where << " the implementation received\n" << text( got ) << "instead of\n" << text( want ) << "from\n" << cfg );
  for( size_t i = 0; i < n->nested.size(); ++i ) { compare( n->nested[ i ].get(), p->nested[ i ], where + "/" + n->spec->nested[ i ].name, cfg, own_only ); }
}

// -- generation ---------------------------------------------------------------
std::vector< std::string > const impl_pool = { "one", "on", "one_more", "two", "core", "type", "vxl", "alpha" };
unsigned serial = 0;

Spec_p random_spec( vm::Rng& r, int type, std::string const& name, bool leaf )
{
  auto s = std::make_shared< Spec >();
  s->type = type;
  s->name = name;
  s->description = r.chance( 1, 3 ) ? "does " + r.str( "abc ", 1, 9 ) : std::string();
  s->serial = ++serial;
  size_t n = leaf ? 0 : r.below( 4 );
  std::vector< std::string > names = { "feature", "feature_2", "one", "matcher", "f" };
  for( size_t i = 0; i < n; ++i )
  {
    std::string nm = r.pick( names );
    bool taken = false;
    for( auto const& x : s->nested ) { taken = taken || x.name == nm; }
    if( !taken ) { s->nested.push_back( { r.chance( 1, 12 ) ? 3 : static_cast< int >( r.below( TYPES ) ), nm, r.chance( 1, 2 ) } ); }
  }
  return s;
}


void gen_nested( vm::Rng& r, Flat& f, std::string const& prefix, int type, std::string const& name, int depth )
{
  unsigned k = static_cast< unsigned >( r.below( 30 ) );
  std::string impl;
  if( k == 0 ) { return; }                                       // nothing at all
  if( k == 1 ) { impl = ""; }
  else if( k == 2 ) { impl = "unknown"; }
  else if( k == 3 ) { impl = r.pick( impl_pool ) + "?"; }
  else if( k == 4 ) { impl = type_names[ type ]; }
  else if( type < TYPES && !registered[ type ].empty() ) { impl = std::next( registered[ type ].begin(), static_cast< long >( r.below( registered[ type ].size() ) ) )->first; }
  else { impl = "one"; }
  if( k != 5 ) { f[ prefix + name + ":type" ] = impl; }
  // blocks of implementations that were not selected
  if( r.chance( 1, 3 ) ) { f[ prefix + name + ":" + r.pick( impl_pool ) + ":p" ] = "decoy"; }
  if( r.chance( 1, 6 ) ) { f[ prefix + name + ":" + ( impl.empty() ? "x" : impl ) + "x:p" ] = "decoy"; }
  if( r.chance( 1, 6 ) ) { f[ prefix + name + ":p" ] = "decoy"; }
  if( depth <= 0 || impl.empty() || impl.back() == '?' ) { return; }
  std::string p = prefix + name + ":" + impl + ":";
  for( char const* key : { "p", "q", "threshold" } ) { if( r.chance( 1, 2 ) ) { f[ p + key ] = r.str( "abc01", 1, 4 ); } }
  if( r.chance( 1, 4 ) ) { f[ p + "quality" ] = r.chance( 1, 5 ) ? "bad" : "good"; }
  if( r.chance( 1, 40 ) ) { f[ p + "quality" ] = "explode"; }
  if( type < TYPES )
  {
    auto s = registered[ type ].find( impl );
    if( s != registered[ type ].end() ) { for( auto const& n : s->second->nested ) { gen_nested( r, f, p, n.type, n.name, depth - 1 ); } }
  }
}

config_block_sptr to_config( Flat const& f )
{
  config_block_sptr c = config_block::empty_config();
  for( auto const& e : f ) { c->set_value( e.first, e.second ); }
  return c;
}

// registered names and creation, against the model
void registry( vm::Rng& r )
{
  std::vector< std::string > all = algorithm::registered_names();
  std::set< std::string > s( all.begin(), all.end() ), want;
  VM_CHECK( s.size() == all.size(), "registry:doubled", "a name is listed twice among all " << all.size() );
  for( int t = 0; t < TYPES; ++t )
  {
    std::vector< std::string > n = algorithm::registered_names( type_names[ t ] ), m = typed_names( t );
    std::sort( n.begin(), n.end() );
    std::sort( m.begin(), m.end() );
    std::vector< std::string > w;
    for( auto const& e : registered[ t ] ) { w.push_back( e.first ); want.insert( type_names[ t ] + ":" + e.first ); }
    auto join = []( std::vector< std::string > const& v ) { std::string o; for( auto const& x : v ) { o += x + " "; } return o; };
    VM_CHECK( n == w, "registry:names", type_names[ t ] << " lists " << join( n ) << "instead of " << join( w ) );
    VM_CHECK( m == w, "registry:typed-names", type_names[ t ] << " lists " << join( m ) << "instead of " << join( w ) );
    VM_CHECK( algorithm::has_type_name( type_names[ t ] ) == !w.empty(), "registry:has-type", type_names[ t ] );
    std::vector< std::string > ask = impl_pool;
    ask.push_back( "unknown" ); ask.push_back( "" ); ask.push_back( "on e" ); ask.push_back( type_names[ t ] ); ask.push_back( type_names[ t ] + ":one" );
    if( !w.empty() ) { ask.push_back( r.pick( w ) ); }
    for( auto const& a : ask )
    {
      auto it = registered[ t ].find( a );
      bool known = it != registered[ t ].end();
      VM_CHECK( algorithm::has_impl_name( type_names[ t ], a ) == known && typed_has( t, a ) == known, "registry:has-impl", type_names[ t ] << ":" << a << " known " << known );
      for( int typed = 0; typed < 2; ++typed )
      {
        algorithm_sptr o = typed ? typed_create( t, a ) : algorithm::create( type_names[ t ], a );
        VM_CHECK( static_cast< bool >( o ) == known, "registry:create", type_names[ t ] << ":" << a << ( o ? " was created though not registered" : " was not created though registered" ) );
        if( !o ) { vm::event( "refused_creations" ); continue; }
        probe* p = dynamic_cast< probe* >( o.get() );
        VM_CHECK( p && p->spec == it->second, "registry:create-other", type_names[ t ] << ":" << a << " gave " << o->type_name() << ":" << o->impl_name() << " serial " << ( p ? p->spec->serial : 0 ) << " instead of serial " << it->second->serial );
        VM_CHECK( p->configured == 0 && p->received.empty(), "registry:not-fresh", type_names[ t ] << ":" << a << " comes configured" );
        // using one object changes neither the registered one nor others created
        p->configured = 77;
        p->received[ "used" ] = "yes";
        vm::event( "created" );
      }
    }
  }
  VM_CHECK( s == want, "registry:all-names", s.size() << " names in all instead of " << want.size() );
  for( std::string const& nt : { std::string( "alph" ), std::string( "lonely" ), std::string( "alphabet:one" ), std::string( "beta " ) } )
  {
    VM_CHECK( algorithm::registered_names( nt ).empty() && !algorithm::has_type_name( nt ) && !algorithm::create( nt, "one" ) && !algorithm::has_impl_name( nt, "one" ), "registry:unknown-type", nt );
  }
}

struct item { unsigned n; std::string type_name() const { return "item"; } };
struct other_item { unsigned n; std::string type_name() const { return "item"; } };

void registrar_history( vm::Rng& r )
{
  static std::map< std::string, std::shared_ptr< item > > model;
  static std::map< std::string, std::shared_ptr< other_item > > other;
  registrar& reg = registrar::instance();
  for( int n = 0; n < 20; ++n )
  {
    std::string k = r.chance( 1, 10 ) ? std::string() : r.str( "ab:", 1, 3 );
    switch( r.below( 4 ) )
    {
    case 0:
    {
      auto p = std::make_shared< item >( item{ static_cast< unsigned >( r.below( 1000 ) ) } );
      VM_CHECK( reg.register_item< item >( k, p ), "registrar:refused", vm::show( k ) );
      model[ k ] = p;
      break;
    }
    case 1:
    {
      auto p = std::make_shared< other_item >( other_item{ 5 } );
      VM_CHECK( reg.register_item< other_item >( k, p ), "registrar:refused", vm::show( k ) );
      other[ k ] = p;
      break;
    }
    case 2: VM_CHECK( !reg.register_item< item >( k, std::shared_ptr< item >() ), "registrar:null-accepted", vm::show( k ) ); break;
    default:
    {
      auto it = model.find( k );
      VM_CHECK( reg.find< item >( k ) == ( it == model.end() ? std::shared_ptr< item >() : it->second ), "registrar:find", vm::show( k ) );
      VM_CHECK( reg.is_registered< item >( k ) == ( it != model.end() ), "registrar:is-registered", vm::show( k ) );
      VM_CHECK( reg.is_registered< other_item >( k ) == ( other.count( k ) > 0 ), "registrar:is-registered", vm::show( k ) );
    }
    }
    std::vector< std::string > names = reg.registered_names< item >(), want;
    for( auto const& e : model ) { want.push_back( e.first ); }
    std::sort( names.begin(), names.end() );
    VM_CHECK( names == want, "registrar:names", names.size() << " names instead of " << want.size() );
  }
  vm::event( "registrar_histories" );
}

struct Once { Once() { vm::quiet_stderr(); } } once;

void body( vm::Rng& r, uint64_t )
{
  // 1. registration: the pool is registered anew, in part; more names from time to time
  vm::note( "registration" );
  for( int t = 0; t < TYPES; ++t )
  {
    for( auto const& n : impl_pool )
    {
      bool have = registered[ t ].count( n ) > 0;
      // some names are known to one type only
      bool use = ( vm::hash( n ) >> t ) & 1;
      if( !use ) { continue; }
      Spec_p s = random_spec( r, t, n, r.chance( 1, 3 ) );
      VM_CHECK( register_spec( s ), "registry:refused", n );
      registered[ t ][ n ] = s;
      vm::event( have ? "replaced" : "registered" );
    }
  }
  if( r.chance( 1, 10 ) )
  {
    int t = static_cast< int >( r.below( TYPES ) );
    Spec_p s = random_spec( r, t, "n" + std::to_string( ++serial ), false );
    VM_CHECK( register_spec( s ), "registry:refused", s->name );
    registered[ t ][ s->name ] = s;
    vm::event( "registered" );
  }
  VM_CHECK( !def< 0 >::register_instance( registrar::instance(), std::shared_ptr< def< 0 > >() ), "registry:null-accepted", "a null implementation was registered" );
  if( r.chance( 1, 4 ) ) { registry( r ); }
  if( r.chance( 1, 8 ) ) { registrar_history( r ); }

  // 2. a configuration, and what it means
  for( int rep = 0; rep < 3; ++rep )
  {
    Spec::Nested top{ static_cast< int >( r.below( TYPES ) ), r.pick( std::vector< std::string >{ "main", "main:deep", "m" } ), r.chance( 1, 2 ) };
    Flat f;
    gen_nested( r, f, "", top.type, top.name, static_cast< int >( r.range( 0, 4 ) ) );
    if( r.chance( 1, 4 ) ) { f[ "unrelated:x" ] = "1"; f[ "main_2:type" ] = "one"; }
    if( r.chance( 1, 6 ) ) { f[ "_global:g" ] = "9"; }
    if( f.empty() ) { f[ "unrelated:x" ] = "1"; }
    config_block_sptr c = to_config( f );
    std::string cfg = text( f );
    std::unique_ptr< Node > n = meaning( top.type, top.name, f );
    vm::note( "check\n" + cfg );
    bool want = acceptable( top.type, top.name, f );
    bool got = check_nested( top, c );
    VM_CHECK( got == want, got ? "check:accepted" : "check:refused", top.name << " of type " << type_names[ top.type ] << " was " << ( got ? "accepted" : "refused" ) << " for\n" << cfg );
    vm::event( want ? "check_accepted" : "check_refused" );
    VM_CHECK( flat( c ) == f, "check:changes-config", "checking changed the configuration\n" << cfg );

    vm::note( "set\n" + cfg );
    // the variable may hold an algorithm before
    algorithm_sptr before;
    if( r.chance( 1, 3 ) && !registered[ top.type ].empty() ) { before = typed_create( top.type, registered[ top.type ].begin()->first ); }
    algorithm_sptr a = before;
    bool thrown = false;
    try { set_nested( top, c, a ); } catch( std::runtime_error const& ) { thrown = true; }
    VM_CHECK( thrown == explodes( n.get() ), "set:exception", "the refusal of an implementation was " << ( thrown ? "made up" : "swallowed" ) << " for\n" << cfg );
    VM_CHECK( flat( c ) == f, "set:changes-config", "configuring changed the configuration\n" << cfg );
    if( thrown ) { vm::event( "refused_by_implementation" ); continue; }
    if( !n )
    {
      VM_CHECK( a == before, "set:touched", "the variable was changed though the configuration names no registered implementation:\n" << cfg );
      vm::event( "left_alone" );
    }
    else
    {
      VM_CHECK( a != before, "set:kept", "the old algorithm was kept for\n" << cfg );
      compare( n.get(), a, top.name, cfg, false );
      vm::event( "configured" );
      if( depth_of( n.get() ) > 2 ) { vm::event( "configured_deep" ); }
    }

    // 3. reading it back
    vm::note( "get\n" + cfg );
    Flat pre;
    if( r.chance( 1, 2 ) ) { pre[ "other:type" ] = "one"; pre[ "zz" ] = "2"; }
    if( r.chance( 1, 4 ) ) { pre[ top.name + ":type" ] = "earlier"; pre[ top.name + ":earlier:p" ] = "1"; }
    // entries for the implementation itself are there already: what it tells now counts, the others stay
    bool stale = n && r.chance( 1, 3 );
    if( stale )
    {
      std::string p = top.name + ":" + n->spec->name + ":";
      for( char const* key : { "p", "q", "threshold", "own" } ) { if( r.chance( 1, 2 ) ) { pre[ p + key ] = "stale"; } }
      for( auto const& x : n->spec->nested ) { if( r.chance( 1, 2 ) ) { pre[ p + x.name + ":type" ] = r.chance( 1, 2 ) ? "stale" : ""; } }
      vm::event( "stale_entries" );
    }
    config_block_sptr back = to_config( pre );
    Flat expect = pre;
    if( n ) { description_of( n.get(), top.name + ":", expect ); }
    else if( !expect.count( top.name + ":type" ) ) { expect[ top.name + ":type" ] = ""; }
    get_nested( top, back, n ? a : algorithm_sptr() );
    Flat is = flat( back );
    VM_CHECK( is == expect, "get:entries", "the configuration read back is\n" << text( is ) << "instead of\n" << text( expect ) << "configured from\n" << cfg );
    if( n || !pre.count( top.name + ":type" ) )
    {
      std::string d = back->get_description( top.name + ":type" );
      for( auto const& e : registered[ top.type ] )
      {
        VM_CHECK( ( d + "\n" ).find( "- " + e.first + ( e.second->description.empty() ? "\n" : " :: " + e.second->description + "\n" ) ) != std::string::npos, "get:options",
                  "option " << e.first << " :: " << e.second->description << " is missing in the description " << vm::show( d ) );
      }
    }
    if( n )
    {
      for( auto const& e : n->received )
      {
        if( e.first.find( ':' ) != std::string::npos ) { continue; }
        std::string d = back->get_description( top.name + ":" + n->spec->name + ":" + e.first );
        VM_CHECK( d == "about " + e.first, "get:description", "the description of " << e.first << " reads " << vm::show( d ) );
        vm::event( "descriptions" );
      }
    }
    if( n && !stale )
    {
      // what was read back configures the same again
      algorithm_sptr b;
      set_nested( top, back, b );
      compare( n.get(), b, top.name + "(again)", text( is ), true );
      config_block_sptr third = config_block::empty_config();
      get_nested( top, third, b );
      Flat own;
      description_of( n.get(), top.name + ":", own );
      VM_CHECK( flat( third ) == own, "get:second-time", "the second reading gives\n" << text( flat( third ) ) << "instead of\n" << text( own ) );
      VM_CHECK( dynamic_cast< probe& >( *b ).spec == n->spec, "get:other", "" );
      // a clone is an equal object of its own
      algorithm_sptr k = a->base_clone();
      VM_CHECK( k && k != a && k->impl_name() == a->impl_name() && k->type_name() == a->type_name(), "clone", a->impl_name() );
      VM_CHECK( dynamic_cast< probe& >( *k ).received == n->received, "clone:entries", a->impl_name() );
      vm::event( "read_back" );
    }
    std::ostringstream sg;
    sg << top.type << top.typed << want << ( n ? n->nested.size() : 9 ) << depth_of( n.get() ) << f.size();
    vm::sig( sg.str() );
    if( n && depth_of( n.get() ) > 1 ) { vm::sample( cfg ); }
  }
  // 4. configurations of all implementations of a type
  if( r.chance( 1, 12 ) )
  {
    vm::note( "all implementations" );
    int t = static_cast< int >( r.below( TYPES ) );
    Flat want;
    for( auto const& e : registered[ t ] ) { for( auto const& x : e.second->nested ) { want[ e.first + ":" + x.name + ":type" ] = ""; } }
    VM_CHECK( flat( typed_impl_configurations( t ) ) == want, "impl-configurations", "got\n" << text( flat( typed_impl_configurations( t ) ) ) << "instead of\n" << text( want ) );
    vm::event( "impl_configurations" );
  }
}

} // namespace

VM_MAIN( body )
