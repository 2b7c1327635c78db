// C06: configuration files are found and merged in the documented precedence order.
#include "vm.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_exception.h>
#include <vital/config/config_block_io.h>
#include <memory>
#include <algorithm>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

typedef std::map< std::string, std::string > entries_t;

void mkdirs( std::string const& p )
{
  for( size_t i = vm::dir().size() + 1; i <= p.size(); ++i )
  {
    if( i == p.size() || p[ i ] == '/' ) { ::mkdir( p.substr( 0, i ).c_str(), 0755 ); }
  }
}

// the documented list for this environment
std::vector< std::string > documented( std::vector< std::string > const& user, bool has_user, std::vector< std::string > const& xdg, bool has_xdg,
                                       std::string const& home, std::string const& app, std::string const& ver, std::string const& prefix )
{
  std::vector< std::string > r;
  if( has_user ) { r = user; }
  std::vector< std::string > conf;
  if( has_xdg ) { conf = xdg; }
  if( !home.empty() ) { conf.push_back( home + "/.config" ); }
  conf.push_back( "/etc/xdg" );
  conf.push_back( "/etc" );
  for( auto const& c : conf )
  {
    if( !ver.empty() ) { r.push_back( c + "/" + app + "/" + ver ); }
    r.push_back( c + "/" + app );
  }
  std::vector< std::string > data{ "/usr/local/share", "/usr/share" };
  bool own = !prefix.empty() && prefix != "/usr" && prefix != "/usr/local";
  if( own ) { data.push_back( prefix + "/share" ); }
  for( auto const& d : data )
  {
    if( !ver.empty() ) { r.push_back( d + "/" + app + "/" + ver + "/config" ); }
    r.push_back( d + "/" + app + "/config" );
  }
  if( own )
  {
    r.push_back( prefix + "/share/config" );
    r.push_back( prefix + "/config" );
  }
  return r;
}

std::string join( std::vector< std::string > const& v, char const* sep )
{
  std::string r;
  for( size_t i = 0; i < v.size(); ++i ) { r += ( i ? sep : "" ) + v[ i ]; }
  return r;
}

void body( vm::Rng& r, uint64_t )
{
  std::string root = vm::dir() + "/t";
  vm::rmtree( root );
  ::mkdir( root.c_str(), 0755 );
  mkdirs( root + "/cwd" );
  if( ::chdir( ( root + "/cwd" ).c_str() ) ) { throw vm::CaseSkip(); }

  std::string log;
  // ---- environment
  std::vector< std::string > user, xdg;
  bool has_user = r.chance( 3, 4 ), has_xdg = r.chance( 3, 4 );
  for( long n = r.range( 1, 4 ); n > 0; --n ) { user.push_back( root + "/u" + std::to_string( r.below( 4 ) ) + ( r.chance( 1, 4 ) ? "/deep dir" : "" ) ); }
  for( long n = r.range( 1, 2 ); n > 0; --n ) { xdg.push_back( root + "/x" + std::to_string( r.below( 3 ) ) ); }
  if( has_user && r.chance( 1, 6 ) ) { user.push_back( "rel/conf" ); }
  std::string home = r.chance( 4, 5 ) ? root + "/home" : ( r.chance( 1, 2 ) ? "" : "unset" );
  if( r.chance( 1, 10 ) ) { xdg.push_back( root + "/home/.config" ); }
  if( has_user )
  {
    std::string v = join( user, ":" );
    if( r.chance( 1, 5 ) ) { v += ":"; vm::event( "trailing_separator" ); }
    ::setenv( "KWIVER_CONFIG_PATH", v.c_str(), 1 );
  }
  else if( r.chance( 1, 3 ) ) { ::setenv( "KWIVER_CONFIG_PATH", "", 1 ); vm::event( "empty_environment_variable" ); }
  else { ::unsetenv( "KWIVER_CONFIG_PATH" ); }
  if( has_xdg ) { ::setenv( "XDG_CONFIG_HOME", join( xdg, ":" ).c_str(), 1 ); }
  else if( r.chance( 1, 3 ) ) { ::setenv( "XDG_CONFIG_HOME", "", 1 ); }
  else { ::unsetenv( "XDG_CONFIG_HOME" ); }
  if( home == "unset" ) { ::unsetenv( "HOME" ); home = ""; }
  else { ::setenv( "HOME", home.c_str(), 1 ); }

  std::string app = r.pick( std::vector< std::string >{ "vmtest-app", "vmtest other app", "v", "vmtest.app_2" } );
  std::string ver = r.chance( 1, 3 ) ? "" : r.pick( std::vector< std::string >{ "1.0", "2", "1.0.3-rc1" } );
  std::string prefix = r.pick( std::vector< std::string >{ "", "/usr", "/usr/local", root + "/prefix", root + "/prefix", root + "/pre fix/inst" } );
  std::string home2 = home;

  std::vector< std::string > want = documented( user, has_user, xdg, has_xdg, home, app, ver, prefix );
  config_path_list_t got = config_file_paths( app, ver, prefix );
  log = "paths:\n  " + join( want, "\n  " ) + "\ngot:\n  " + join( got, "\n  " );
  VM_CHECK( got == want, "search-path", log );
  vm::event( "search_paths_compared" );

  // ---- files
  std::string name = r.pick( std::vector< std::string >{ "app.conf", "sub/app.conf", "x", "name with space.cfg" } );
  std::vector< std::string > places = want;
  places.push_back( "." );
  struct Found { std::string dir; entries_t e; bool bad; };
  std::map< std::string, Found > made;   // by absolute directory
  std::string shape;
  unsigned density = static_cast< unsigned >( r.below( 4 ) );
  for( auto const& p : places )
  {
    std::string abs = p;
    if( p == "." ) { abs = root + "/cwd"; }
    else if( p[ 0 ] != '/' ) { abs = root + "/cwd/" + p; }
    if( abs.compare( 0, root.size(), root ) != 0 ) { shape += "-"; continue; }
    if( made.count( abs ) ) { shape += "="; continue; }
    if( !r.chance( density + 1, 5 ) )
    {
      shape += "0";
      switch( r.below( 4 ) )
      {
      case 0: mkdirs( abs ); break;
      case 1: mkdirs( abs + "/" + name ); vm::event( "directory_of_that_name" ); break; // a directory in its place
      default: ;
      }
      continue;
    }
    std::string full = abs + "/" + name;
    struct stat sb;
    if( !::lstat( full.c_str(), &sb ) ) { shape += "d"; continue; }
    mkdirs( full.substr( 0, full.rfind( '/' ) ) );
    Found f;
    f.dir = p;
    f.bad = false;
    std::string text;
    for( long n = r.range( 0, 6 ); n > 0; --n )
    {
      std::string k = r.pick( std::vector< std::string >{ "aa", "bb", "cc", "blk:aa", "blk:bb", "blk:sub:cc", "dd", "ee" } );
      std::string v = r.chance( 1, 6 ) ? "" : std::to_string( r.below( 1000000 ) );
      f.e[ k ] = v;
      text += k + " = " + v + "\n";
    }
    if( r.chance( 1, 4 ) )
    {
      // a nested block
      f.e[ "blk:aa" ] = "nested" + std::to_string( made.size() );
      text += "block blk\n aa = " + f.e[ "blk:aa" ] + "\nendblock\n";
    }
    if( r.chance( 1, 30 ) ) { f.bad = true; text += "this is no statement\n"; }
    vm::spit( full, text );
    made[ abs ] = f;
    shape += "1";
  }
  // an included file, somewhere on the search path: found there from any place
  bool merge = r.chance( 2, 3 );

  // ---- expected
  std::vector< Found const* > order;
  bool bad = false;
  for( auto const& p : places )
  {
    std::string abs = p == "." ? root + "/cwd" : p[ 0 ] == '/' ? p : root + "/cwd/" + p;
    auto it = made.find( abs );
    if( it == made.end() ) { continue; }
    order.push_back( &it->second );
    if( it->second.bad ) { bad = true; }
    if( !merge ) { break; }
  }
  entries_t expect;
  for( auto i = order.rbegin(); i != order.rend(); ++i ) { for( auto const& e : ( *i )->e ) { expect[ e.first ] = e.second; } }

  log += "\nshape " + shape + ( merge ? " merge" : " first only" ) + " name " + name;
  for( auto const* f : order ) { log += "\n found in " + f->dir + ":"; for( auto const& e : f->e ) { log += " " + e.first + "=" + e.second; } if( f->bad ) { log += " (ill-formed)"; } }

  // now and then by absolute name: that file and nothing else
  std::string ask = name;
  if( !made.empty() && r.chance( 1, 8 ) )
  {
    auto it = made.begin();
    std::advance( it, static_cast< long >( r.below( made.size() ) ) );
    ask = it->first + "/" + name;
    expect = it->second.e;
    bad = it->second.bad;
    order.assign( 1, &it->second );
    vm::event( "absolute_name" );
  }
  log += "\nasked for " + ask;

  config_block_sptr c;
  std::string outcome = "ok";
  try { c = read_config_file( ask, app, ver, prefix, merge ); }
  catch( config_file_not_found_exception const& ) { outcome = "not-found"; }
  catch( config_file_not_parsed_exception const& ) { outcome = "parse"; }
  catch( std::exception const& e ) { outcome = std::string( "other: " ) + e.what(); }
  std::string should = order.empty() ? "not-found" : bad ? "parse" : "ok";
  VM_CHECK( outcome == should, "outcome", "got " << outcome << " want " << should << "\n" << log );
  vm::event( "outcome_" + should );
  if( outcome == "ok" )
  {
    entries_t have;
    for( auto const& k : c->available_values() ) { have[ k ] = c->get_value< std::string >( k ); }
    std::string diff;
    for( auto const& e : expect ) { if( !have.count( e.first ) ) { diff += " missing " + e.first; } else if( have[ e.first ] != e.second ) { diff += " " + e.first + " is " + have[ e.first ] + " not " + e.second; } }
    for( auto const& e : have ) { if( !expect.count( e.first ) ) { diff += " extra " + e.first; } }
    VM_CHECK( diff.empty(), "entries", diff << "\n" << log );
    vm::event( "entries", expect.size() );
    vm::event( order.size() > 1 ? "several_files_merged" : "single_file" );
    if( !merge && made.size() > 1 ) { vm::event( "others_ignored_without_merge" ); }
  }
  vm::sig( shape + should + ( merge ? "m" : "s" ) + ( ver.empty() ? "v" : "" ) );
  vm::sample( log );

  // ---- search path handed to a read of a plain file: includes are found along it, first hit wins
  if( r.chance( 1, 3 ) )
  {
    std::vector< std::string > dirs;
    for( long n = r.range( 1, 4 ); n > 0; --n ) { dirs.push_back( root + "/i" + std::to_string( r.below( 3 ) ) ); }
    std::string winner;
    for( auto const& d : dirs )
    {
      struct stat sb;
      if( ::stat( ( d + "/inc.conf" ).c_str(), &sb ) && r.chance( 1, 2 ) ) { mkdirs( d ); vm::spit( d + "/inc.conf", "who = " + d + "\n" ); }
    }
    for( auto const& d : dirs )
    {
      struct stat sb;
      if( !::stat( ( d + "/inc.conf" ).c_str(), &sb ) ) { winner = d; break; }
    }
    vm::spit( root + "/main.conf", "include inc.conf\nwhat = main\n" );
    std::string who = "";
    try
    {
      c = read_config_file( root + "/main.conf", dirs );
      who = c->get_value< std::string >( "who" );
      VM_CHECK( c->get_value< std::string >( "what" ) == "main", "include-rest", join( dirs, ":" ) );
    }
    catch( config_file_not_found_exception const& ) { }
    VM_CHECK( who == winner, "include-search", "found in '" << who << "' want '" << winner << "' along " << join( dirs, ":" ) );
    vm::event( winner.empty() ? "include_not_found" : "include_found" );
  }
  // a file or directory that is not there, by full name
  if( r.chance( 1, 4 ) )
  {
    std::string gone = r.chance( 1, 2 ) ? root + "/none.conf" : root + "/cwd";
    std::string got2 = "read";
    try { r.chance( 1, 2 ) ? read_config_file( gone ) : read_config_file( gone, app, ver, prefix, merge ); }
    catch( config_file_not_found_exception const& ) { got2 = "not-found"; }
    catch( std::exception const& e ) { got2 = e.what(); }
    VM_CHECK( got2 == "not-found", "missing-by-full-name", gone << ": " << got2 );
    vm::event( "missing_by_full_name" );
  }
  if( ::chdir( "/" ) ) { }
}

}

VM_MAIN( body )
