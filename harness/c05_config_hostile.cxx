// C05: hostile configuration text, mutated from valid text and grown from tokens;
// only documented errors may come out, memory must stay sound, and a valid file
// must read correctly afterwards.
#include "vm.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_parser.h>

using namespace kwiver::vital;

namespace {

std::vector< std::string > const tokens = {
  "block ", "block", "endblock", "endblock\n", "include ", "include inc1.conf\n", "include inc0.conf\n", "include main.conf\n", "relativepath ", "key", "a", "ab", "_global:x", "a:b:c",
  " = ", ":=", "=", "==", "[RO]", "[ro]", "[", "]", "[RO", "[]", "[A,B]", "#", "# comment\n", "$LOCAL{a}", "$ENV{HOME}", "$CONFIG{a}", "$SYSENV{cwd}", "$SYSENV{hostname}",
  "$SYSENV{totalphysicalmemory}", "$SYSENV{numproc}", "$SYSENV{osversion}", "$SYSENV{domainname}", "$SYSENV{osdescription}",
  "$LOCAL{", "$", "${", "}", "$A{", "$LOCAL{}", "$X{y}", "\n", "\n\n", "\r\n", "\t", " ", ":", "::", "a:", ":a", "\"", "'", "\\", "\\\n", "/", ".", "-", "include .\n", "include /\n", "include ..\n",
  "include \n", "include $ENV{HOME}\n", "include ~\n", "block $LOCAL{a}\n", "block a\nendblock\n", "a = 1\n", "ab := x\n", "a[RO] = 1\n", "a = 2\n" };

std::string soup( vm::Rng& r )
{
  std::string s;
  size_t n = r.chance( 1, 10 ) ? r.below( 2000 ) : r.below( 60 );
  for( size_t i = 0; i < n; ++i )
  {
    if( r.chance( 1, 12 ) ) { s += static_cast< char >( r.below( 256 ) ); }
    else { s += r.pick( tokens ); }
  }
  return s;
}

std::string big( vm::Rng& r )
{
  size_t n = static_cast< size_t >( r.range( 500, 3000 ) );
  std::string s;
  switch( r.below( 9 ) )
  {
  case 0: for( size_t i = 0; i < n; ++i ) { s += "block b\n"; } break;
  case 1: for( size_t i = 0; i < n; ++i ) { s += "block b" + vm::str( i ) + "\nx = 1\n"; } for( size_t i = 0; i < n; ++i ) { s += "endblock\n"; } break;
  case 2: s = std::string( n * 100, r.pick( "ab:=[#${" ) ); break;
  case 3: s = "key = " + std::string( n * 200, 'v' ) + "\n"; break;
  case 4: s = "key = "; for( size_t i = 0; i < n; ++i ) { s += "$LOCAL{a}"; } break;
  case 5: s = "key = " + std::string( n * 20, '$' ) + "{"; break;
  case 6: s = std::string( n * 50, 'k' ) + ":" + std::string( n * 50, ':' ) + " = 1\n"; break;
  case 7: s = "a"; for( size_t i = 0; i < n; ++i ) { s += "[RO]"; } s += " = 1\n"; break;
  default: // macros that would double if they were expanded again
    s = "m0 := ab\n";
    for( int i = 1; i < 17; ++i ) { std::string p = "$LOCAL{m" + vm::str( i - 1 ) + "}"; s += "m" + vm::str( i ) + " := " + p + p + "\n"; }
    s += "big = $LOCAL{m16}\n";
  }
  return s;
}

std::string valid( vm::Rng& r )
{
  std::string s = "# header\nalpha := /some/dir\nblock one\n  key = value $LOCAL{alpha}\n  block two\n    flag[RO] = yes\n  endblock\nendblock\n";
  s += "relativepath file = data/" + r.str( "abc", 1, 5 ) + ".txt\nnum = " + vm::str( r.range( -100, 100 ) ) + "\ncopy = $CONFIG{num} $ENV{HOME} $SYSENV{cwd}\n";
  if( r.chance( 1, 2 ) ) { s += "include inc0.conf\n"; }
  return s;
}

std::string mutate( vm::Rng& r, std::string s )
{
  for( long n = r.range( 1, 8 ); n > 0; --n )
  {
    size_t p = r.below( s.size() + 1 );
    switch( r.below( 8 ) )
    {
    case 0: if( p < s.size() ) { s[ p ] = static_cast< char >( r.below( 256 ) ); } break;
    case 1: s.insert( p, 1, static_cast< char >( r.below( 256 ) ) ); break;
    case 2: s.erase( p, r.below( 10 ) ); break;
    case 3: s.insert( p, r.pick( tokens ) ); break;
    case 4: s.resize( p ); break;
    case 5: s.insert( p, s.substr( r.below( s.size() + 1 ), r.below( 40 ) ) ); break;
    case 6: if( p < s.size() ) { s[ p ] = static_cast< char >( s[ p ] ^ ( 1 << r.below( 8 ) ) ); } break;
    default: { size_t q = s.find( '\n', p ); if( q != std::string::npos ) { s.erase( q, 1 ); } }
    }
  }
  return s;
}

std::string hostile( vm::Rng& r )
{
  switch( r.below( 8 ) )
  {
  case 0: case 1: return soup( r );
  case 2: { std::string s; size_t n = r.below( 400 ); for( size_t i = 0; i < n; ++i ) { s += static_cast< char >( r.below( 256 ) ); } return s; }
  case 3: return r.chance( 1, 3 ) ? big( r ) : soup( r );
  default: return mutate( r, valid( r ) );
  }
}

void one( vm::Rng& r, uint64_t )
{
  static bool init = false;
  if( !init ) { init = true; vm::quiet_stderr(); ::setenv( "HOME", "/home/x y", 1 ); }
  std::string d = vm::dir();
  std::string text = hostile( r );
  vm::note( vm::show( text.substr( 0, 1500 ) ) );
  vm::spit( d + "/main.conf", text );
  for( int i = 0; i < 2; ++i )
  {
    std::string f = d + "/inc" + vm::str( i ) + ".conf";
    ::unlink( f.c_str() );
    switch( r.below( 6 ) )
    {
    case 0: break;
    case 1: vm::spit( f, "include inc1.conf\ninc_key = 1\n" ); break;
    case 2: vm::spit( f, "include ./main.conf\n" ); break;
    case 3: if( ::symlink( "main.conf", f.c_str() ) == 0 ) { vm::event( "include_by_symlink" ); } break;
    case 4: vm::spit( f, soup( r ) ); break;
    default: vm::spit( f, "inc_key = 1\nblock left_open\n" );
    }
  }
  std::string chain;
  if( r.chance( 1, 40 ) )
  {
    // a long chain of includes
    long n = r.range( 50, 250 );
    for( long i = 0; i < n; ++i ) { vm::spit( d + "/ch" + vm::str( i ), "include ch" + vm::str( i + 1 ) + "\nkey" + vm::str( i ) + " = 1\n" ); }
    vm::spit( d + "/ch" + vm::str( n ), r.chance( 1, 2 ) ? "last = 1\n" : "include ch0\n" );
    text += "\ninclude ch0\n";
    vm::spit( d + "/main.conf", text );
    vm::event( "include_chains" );
  }
  auto read = [ & ]() -> int {
    try
    {
      config_block_sptr c = read_config_file( d + "/main.conf" );
      // whatever was accepted can be looked at
      size_t n = 0;
      for( auto const& k : c->available_values() )
      {
        n += c->get_value< std::string >( k ).size();
        std::string f; int l;
        c->get_location( k, f, l );
        c->is_read_only( k );
      }
      vm::event( "entries_seen", n ? 1 : 0 );
      return 0;
    }
    catch( config_file_not_parsed_exception const& ) { return 1; }
    catch( config_file_not_found_exception const& ) { return 2; }
    catch( config_block_exception const& ) { return 3; }
  };
  int a = read();
  vm::event( a == 0 ? "accepted" : a == 1 ? "refused_parse" : a == 2 ? "refused_not_found" : "refused_other" );
  size_t before = vm::live_bytes();
  int b = read();
  size_t after = vm::live_bytes();
  VM_CHECK( a == b, "not-deterministic", a << " then " << b << " for " << vm::show( text.substr( 0, 2000 ) ) );
  // the second reading gives back all it took; a few bytes may be kept by caches that grow
  VM_CHECK( after <= before + 256, "memory-kept", after - before << " bytes kept, outcome " << a << " for " << vm::show( text.substr( 0, 2000 ) ) );

  // a reader of its own, and one that refused, both read a valid file afterwards
  std::string good = d + "/good.conf";
  vm::spit( good, "aa = 1\nblock b\n  cc = two words\n  sym := here\n  dd[RO] = $LOCAL{sym}\nendblock\nlast = $CONFIG{b:cc}\n" );
  std::map< std::string, std::string > want = { { "aa", "1" }, { "b:cc", "two words" }, { "b:dd", "here" }, { "last", "two words" } }, got;
  config_block_sptr c = read_config_file( good );
  for( auto const& k : c->available_values() ) { got[ k ] = c->get_value< std::string >( k ); }
  VM_CHECK( got == want, "valid-file-misread-after", vm::show( text.substr( 0, 2000 ) ) );
  if( a == 1 || a == 2 )
  {
    config_parser p;
    try { p.parse_config( d + "/main.conf" ); } catch( config_block_exception const& ) { }
    bool clean = true;
    for( auto const& k : p.get_config()->available_values() ) { clean = clean && !want.count( k ) && !p.get_config()->is_read_only( k ); }
    if( clean )
    {
      p.parse_config( good );
      for( auto const& w : want )
      {
        VM_CHECK( p.get_config()->has_value( w.first ) && p.get_config()->get_value< std::string >( w.first ) == w.second, "parser-misreads-after-refusal", w.first << " after " << vm::show( text.substr( 0, 2000 ) ) );
      }
      // and still refuses
      vm::spit( good, "aa = 1\nblock b\n" );
      bool refused = false;
      try { p.parse_config( good ); } catch( config_file_not_parsed_exception const& ) { refused = true; }
      VM_CHECK( refused, "parser-accepts-anything-after-refusal", vm::show( text.substr( 0, 2000 ) ) );
      vm::event( "parser_reused" );
    }
  }
  vm::sig( text );
  if( r.chance( 1, 500 ) ) { vm::sample( vm::show( text ) ); }
}

} // namespace

VM_MAIN( one )
