// C04: random programs of the configuration language; the generator computes the
// meaning of each line as it writes it, the parser's result must be that meaning.
#include "vm.h"
#include <kwiversys/SystemInformation.hxx>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_parser.h>
#include <algorithm>
#include <fstream>
#include <sys/stat.h>
#include <cstring>
#include <sys/utsname.h>

using namespace kwiver::vital;

namespace {

struct Val { std::string value, file; int line; bool ro; };

std::string trimmed( std::string s )
{
  char const* ws = " \t\n\v\f\r";
  size_t a = s.find_first_not_of( ws );
  if( a == std::string::npos ) { return ""; }
  return s.substr( a, s.find_last_not_of( ws ) - a + 1 );
}

// what the system says of itself
std::map< std::string, std::string > const& machine()
{
  static std::map< std::string, std::string > m;
  if( m.empty() )
  {
    struct utsname u;
    ::uname( &u );
    char host[ 300 ] = "";
    ::gethostname( host, sizeof host - 1 );
    m[ "hostname" ] = host;
    m[ "osname" ] = u.sysname;
    m[ "osplatform" ] = u.machine;
    m[ "osversion" ] = trimmed( u.version );
    m[ "osdescription" ] = std::string( u.sysname ) + " " + u.release + " " + trimmed( u.version );
    std::ifstream mem( "/proc/meminfo" ), cpu( "/proc/cpuinfo" );
    std::string l;
    while( std::getline( mem, l ) )
    {
      if( l.compare( 0, 9, "MemTotal:" ) == 0 ) { m[ "totalphysicalmemory" ] = std::to_string( std::stol( l.substr( 9 ) ) / 1024 ); }
      if( l.compare( 0, 10, "SwapTotal:" ) == 0 ) { m[ "totalvirtualmemory" ] = std::to_string( std::stol( l.substr( 10 ) ) / 1024 ); }
    }
    unsigned n = 0;
    while( std::getline( cpu, l ) ) { if( l.compare( 0, 9, "processor" ) == 0 ) { ++n; } }
    m[ "numproc" ] = std::to_string( n );
  }
  return m;
}

enum Fate { FINE, PARSE, NOT_FOUND, READ_ONLY };

struct World
{
  vm::Rng& r;
  std::string dir;                     // absolute
  std::vector< std::string > search;   // search path
  std::map< std::string, Val > cfg;
  std::map< std::string, std::string > local;
  std::map< std::string, std::string > env;
  std::string ctx;
  std::vector< std::string > stack;    // directories of files being read
  std::vector< std::string > files;
  unsigned count = 0;
  uint64_t shape = 7;
  Fate fate = FINE;
  int break_at = -1;                   // statement that is to be ill-formed
  int stmt = 0;
  bool stop = false;                   // reading ends here
  std::string why;
  std::string all;
  explicit World( vm::Rng& rr ) : r( rr ) { }

  void mark( unsigned k ) { shape = vm::mix( shape ^ k ); }

  std::string expand( std::string const& s )
  {
    std::string out;
    size_t i = 0;
    while( i < s.size() )
    {
      if( s[ i ] == '$' )
      {
        size_t j = i + 1;
        std::string type, name;
        if( j < s.size() && std::isalpha( static_cast< unsigned char >( s[ j ] ) ) )
        {
          while( j < s.size() && ( std::isalnum( static_cast< unsigned char >( s[ j ] ) ) || s[ j ] == '_' ) ) { type += s[ j++ ]; }
          if( j < s.size() && s[ j ] == '{' )
          {
            ++j;
            while( j < s.size() && ( std::isalnum( static_cast< unsigned char >( s[ j ] ) ) || s[ j ] == '.' || s[ j ] == '_' || s[ j ] == ':' ) ) { name += s[ j++ ]; }
            if( j < s.size() && s[ j ] == '}' )
            {
              bool known = true;
              std::string v;
              if( type == "LOCAL" ) { auto f = local.find( name ); if( f != local.end() ) { v = f->second; } }
              else if( type == "ENV" ) { auto f = env.find( name ); if( f != env.end() ) { v = f->second; } }
              else if( type == "CONFIG" ) { auto f = cfg.find( name ); if( f != cfg.end() ) { v = f->second.value; } }
              else if( type == "SYSENV" )
              {
                if( name == "islinux" ) { v = "TRUE"; }
                else if( name == "iswindows" || name == "isapple" ) { v = "FALSE"; }
                else if( name == "is64bits" ) { v = sizeof( void* ) == 8 ? "TRUE" : "FALSE"; }
                else { auto f = machine().find( name ); if( f != machine().end() ) { v = f->second; vm::event( "facts_of_the_machine" ); } }
                if( name == "cwd" ) { char b[ 4096 ]; v = ::getcwd( b, sizeof b ); }
              }
              else { known = false; }
              if( known ) { out += v; vm::event( "macro_" + type ); } else { out += s.substr( i, j + 1 - i ); vm::event( "macro_unknown_type" ); }
              i = j + 1;
              continue;
            }
          }
        }
      }
      out += s[ i++ ];
    }
    return out;
  }

  std::string word()
  {
    switch( r.below( 5 ) )
    {
    case 0: return r.str( "abcxyzABC", 1, 1 );
    case 1: return r.str( "abc", 1, 1 ) + r.str( "abc019_", 1, 1 );
    case 2: return r.str( "abc", 1, 1 ) + r.str( "ab019-_./:", 0, 5 ) + r.str( "ab0", 1, 1 );
    default: return r.pick( std::vector< std::string >{ "alpha", "beta", "alpha:beta", "gam", "k1", "block_x", "includes", "x.y", "endblock2", "relativepath_" } );
    }
  }

  std::string macro()
  {
    switch( r.below( 12 ) )
    {
    case 0: case 1: case 2:
      if( !local.empty() ) { auto i = local.begin(); std::advance( i, static_cast< long >( r.below( local.size() ) ) ); return "$LOCAL{" + i->first + "}"; }
      return "$LOCAL{nosuch}";
    case 3: case 4: case 5:
      if( !cfg.empty() ) { auto i = cfg.begin(); std::advance( i, static_cast< long >( r.below( cfg.size() ) ) ); return "$CONFIG{" + i->first + "}"; }
      return "$CONFIG{no:such}";
    case 6: case 7: { auto i = env.begin(); std::advance( i, static_cast< long >( r.below( env.size() ) ) ); return "$ENV{" + i->first + "}"; }
    case 8: return "$SYSENV{" + r.pick( std::vector< std::string >{ "islinux", "iswindows", "isapple", "nosuch", "cwd", "is64bits", "hostname", "osname", "osplatform", "osversion", "osdescription", "totalphysicalmemory", "totalvirtualmemory", "numproc" } ) + "}";
    case 9: return r.pick( std::vector< std::string >{ "$LOCAL{nosuch}", "$ENV{VERIF_NOSUCH}", "$CONFIG{no:such}" } );
    case 10: return r.pick( std::vector< std::string >{ "$FOO{a}", "$local{a}", "$", "$$", "${a}", "$LOCAL", "$LOCAL{a b}", "$LOCAL{a", "$LOCAL }", "$1{a}", "{}", "$LOCAL{a-b}", "$ENV {a}" } );
    default: return "$LOCAL{" + word() + "}";
    }
  }

  std::string rhs()
  {
    std::string v;
    switch( r.below( 8 ) )
    {
    case 0: break;
    case 1: v = r.pick( std::vector< std::string >{ "= x", ":= x", "[RO] x", "block", "a = b", "\"a  b\"", "\\", "include", ";", "a:b:c", "x:=y", "'q'" } ); break;
    case 2: case 3: v = r.str( "abc 123.,-+*/:;[]()=\"'\\", 1, 20 ); break;
    default:
      for( long n = r.range( 1, 5 ); n > 0; --n ) { v += r.chance( 1, 2 ) ? macro() : r.str( "ab 1.", 0, 4 ); }
    }
    return trimmed( v );
  }

  std::string sp( unsigned lo = 0 ) { return r.str( " \t", lo, lo + 2 ); }
  std::string tail() { return r.chance( 1, 4 ) ? sp() + "# " + r.str( "abc = $LOCAL{x} block #[RO]", 0, 15 ) : sp() + ( r.chance( 1, 10 ) ? "\r" : "" ); }

  void noise( std::string& t, int& line )
  {
    while( r.chance( 1, 3 ) )
    {
      t += r.pick( std::vector< std::string >{ "", "   ", "\t", "# comment", "  # key = value", "#", "## block a", "#endblock", "\r" } ) + "\n";
      ++line;
    }
  }

  bool searched( std::string const& d ) const { return std::find( search.begin(), search.end(), d ) != search.end(); }

  std::string resolve_new( std::string& spelled, std::string const& here )
  {
    // choose where the included file lives and how it is spelled
    std::string name = "inc" + vm::str( count++ ) + r.pick( std::vector< std::string >{ ".conf", ".txt", "" } );
    unsigned how = static_cast< unsigned >( r.below( 6 ) );
    std::string d;
    if( how == 0 ) { d = here; spelled = d + "/" + name; }
    else if( how == 1 && !search.empty() )
    {
      // shadowed by the first search directory that has it
      size_t k = r.below( search.size() );
      d = search[ k ]; spelled = name;
      if( r.chance( 1, 2 ) && !searched( here ) ) { vm::spit( here + "/" + name, "wrong_place = include\n" ); }
      for( size_t j = k + 1; j < search.size(); ++j ) { if( search[ j ] != d ) { vm::spit( search[ j ] + "/" + name, "wrong_place = search\n" ); } }
      vm::event( "include_from_search_path" );
    }
    else if( how == 2 )
    {
      d = here + "/sub" + vm::str( r.below( 3 ) );
      ::mkdir( d.c_str(), 0700 );
      spelled = d.substr( here.size() + 1 ) + "/" + name;
    }
    else if( how == 3 && stack.size() > 1 )
    {
      d = stack[ r.below( stack.size() ) ]; spelled = name;   // in the directory of an includer
      // nearest includer wins
      std::set< std::string > nearer;
      size_t j = stack.size();
      while( j-- > 0 && stack[ j ] != d ) { nearer.insert( stack[ j ] ); }
      while( j-- > 0 ) { if( stack[ j ] != d && !nearer.count( stack[ j ] ) && !searched( stack[ j ] ) ) { vm::spit( stack[ j ] + "/" + name, "wrong_place = outer\n" ); } }
      vm::event( "include_from_includer" );
    }
    else if( how == 4 )
    {
      d = here;
      std::string sym = "incname" + vm::str( count );
      local[ sym ] = name;
      spelled = "$LOCAL{" + sym + "}";
      pending = sym + " := " + name + "\n";
      vm::event( "include_by_macro" );
    }
    else { d = here; spelled = name; }
    return d + "/" + name;
  }
  std::string pending;

  bool broken( std::string& t, int& line, std::string const& file, int depth )
  {
    if( stop || break_at < 0 || stmt++ != break_at ) { return false; }
    break_at = -2;
    switch( r.below( 8 ) )
    {
    case 0: case 1: case 2: case 3:
    {
      static std::vector< std::string > const bad = {
        "= value", "= block", "= include", "= endblock", ":= x", "[RO] = x", "key value", "1key = x", "_key = x", "-a = 3", "@ = 1", "{ }",
        "key[XX] = 1", "key[RO = 1", "key[] = 1", "block = x", "block 1abc", "block [RO]", "key: = 5", "relativepath = x", "relativepath", "key[RO,XX] = 2",
        "key[RO] value", "key = ok\n\"quoted\"", ": = x", "key ] = 3", "block $LOCAL{x}", "key+ = 2", "relativepath key value", "k\xc3\xa9y = 1",
        "key[RO][XX] = 1", "key[XX][RO] = 1", "key[RO] [ro][A] = 1", "key[RO][RO = 1", "key[RO][RO] 1" };
      std::string b = r.pick( bad );
      if( b == "relativepath" ) { b += " 9"; }
      // only what is certainly on the line
      t += sp() + b + "\n";
      fate = PARSE;
      why = b;
      ++line;
      if( b.compare( 0, 8, "key = ok" ) == 0 ) { ++line; }
      break;
    }
    case 4:
      t += "include " + r.pick( std::vector< std::string >{ "no_such_file.conf", "/no/such/dir/f.conf", "", "$LOCAL{nosuch}", dir, "sub/../nowhere" } ) + "\n";
      fate = NOT_FOUND; stop = true; why = "include of nothing"; ++line;
      break;
    case 5:
      if( depth == 0 && ctx.empty() ) { t += "endblock\n"; fate = PARSE; stop = true; why = "endblock alone"; ++line; }
      else { t += "@@@\n"; fate = PARSE; why = "@@@"; ++line; }
      break;
    case 6:
    {
      for( auto const& e : cfg ) { if( e.second.ro ) { fate = READ_ONLY; why = e.first; break; } }
      if( fate == READ_ONLY && ctx.empty() ) { t += why + " = again\n"; stop = true; ++line; }
      else { fate = PARSE; why = "== at start"; t += "== x\n"; ++line; }
      break;
    }
    default:
      t += "include " + file + "\n";
      fate = PARSE; stop = true; why = "self include"; ++line;
    }
    mark( 90 );
    return true;
  }

  void set( std::string const& key, std::string const& raw, std::string const& file, int line, bool ro, std::string const& prefix )
  {
    Val v;
    v.value = trimmed( prefix + expand( raw ) );
    v.file = file; v.line = line; v.ro = ro;
    cfg[ ctx + key ] = v;
  }

  // writes the statements of a file (or block body) and evaluates them
  void body( std::string& t, int& line, std::string const& file, int depth, int incdepth )
  {
    long n = r.range( 0, depth ? 4 : 9 );
    std::string here = file.substr( 0, file.rfind( '/' ) );
    for( long i = 0; i < n && !stop; ++i )
    {
      noise( t, line );
      broken( t, line, file, depth );
      if( stop ) { return; }
      std::string k = word();
      if( r.chance( 1, 20 ) ) { k += std::string( static_cast< size_t >( r.chance( 1, 5 ) ? r.range( 200, 3000 ) : r.range( 20, 60 ) ), 'k' ); }
      unsigned what = static_cast< unsigned >( r.below( 20 ) );
      if( what < 9 )
      {
        if( cfg.count( ctx + k ) && cfg[ ctx + k ].ro ) { continue; }
        std::string v = rhs();
        bool ro = r.chance( 1, 6 ), rel = r.chance( 1, 8 );
        ++line;
        t += sp() + ( rel ? "relativepath" + sp( 1 ) : "" ) + k + sp() + ( ro ? r.pick( std::vector< std::string >{ "[RO]", "[ro]", "[Ro] ", "[RO][ro]", " [RO] ", "[RO] [RO][Ro]" } ) : "" )
             + sp() + "=" + sp() + v + tail() + "\n";
        set( k, v, file, line, ro, rel ? here + "/" : "" );
        mark( 1 + ( ro ? 1 : 0 ) + ( rel ? 2 : 0 ) + ( v.find( '$' ) != std::string::npos ? 4 : 0 ) );
        if( ro ) { vm::event( "read_only_entry" ); }
        if( rel ) { vm::event( "relative_path" ); }
        vm::event( "entries" );
      }
      else if( what < 12 )
      {
        std::string v = rhs();
        ++line;
        t += sp() + k + sp() + ":=" + sp() + v + tail() + "\n";
        local[ k ] = expand( v );
        mark( 20 );
        vm::event( "local_symbols" );
      }
      else if( what < 16 && depth < 6 )
      {
        ++line;
        t += sp() + "block" + sp( 1 ) + k + tail() + "\n";
        std::string keep = ctx;
        ctx += k + ":";
        mark( 21 );
        body( t, line, file, depth + 1, incdepth );
        ctx = keep;
        if( stop ) { return; }
        noise( t, line );
        ++line;
        t += sp() + "endblock" + ( r.chance( 1, 6 ) ? sp( 1 ) + k : "" ) + tail() + "\n";
        mark( 22 );
        vm::event( "blocks" );
        if( !keep.empty() ) { vm::event( "nested_blocks" ); }
      }
      else if( what < 18 && incdepth < 4 && files.size() < 12 )
      {
        std::string spelled;
        pending.clear();
        std::string path = resolve_new( spelled, here );
        if( !pending.empty() ) { t += pending; ++line; }
        ++line;
        t += sp() + "include" + sp( 1 ) + spelled + tail() + "\n";
        mark( 23 );
        file_at( path, depth, incdepth + 1 );
        vm::event( "includes" );
        if( !ctx.empty() ) { vm::event( "include_inside_block" ); }
      }
      else if( !cfg.empty() )
      {
        // override an earlier entry of this context
        for( auto const& e : cfg )
        {
          if( e.first.compare( 0, ctx.size(), ctx ) != 0 || e.second.ro || !r.chance( 1, 3 ) ) { continue; }
          std::string kk = e.first.substr( ctx.size() );
          if( !std::isalpha( static_cast< unsigned char >( kk[ 0 ] ) ) ) { continue; }
          if( kk == "include" || kk == "block" || kk == "endblock" || kk == "relativepath" ) { continue; }
          std::string v = rhs();
          ++line;
          t += kk + " = " + v + "\n";
          std::string old = cfg[ ctx + kk ].value;
          set( kk, v, file, line, false, "" );
          mark( 24 );
          vm::event( "overrides" );
          break;
        }
      }
    }
    if( depth == 0 && !stop ) { broken( t, line, file, depth ); }
  }

  void file_at( std::string const& path, int depth, int incdepth )
  {
    files.push_back( path );
    stack.push_back( path.substr( 0, path.rfind( '/' ) ) );
    std::string t;
    int line = 0;
    body( t, line, path, depth, incdepth );
    if( !t.empty() && r.chance( 1, 5 ) && fate == FINE ) { t.erase( t.size() - 1 ); }   // no newline at the end
    stack.pop_back();
    vm::spit( path, t );
    // the story for reports, without long runs
    std::string brief;
    for( size_t i = 0; i < t.size(); ++i ) { if( i < 8 || t.compare( i - 8, 9, "kkkkkkkkk" ) != 0 ) { brief += t[ i ]; } }
    all += "--- " + path.substr( path.find( "/w/" ) ) + "\n" + brief + "\n";
  }
};

void compare( World& w, config_block_sptr c )
{
  std::set< std::string > keys;
  for( auto const& k : c->available_values() ) { keys.insert( k ); }
  for( auto const& e : w.cfg )
  {
    VM_CHECK( keys.count( e.first ), "entry-missing", e.first.substr( 0, 200 ) << "\n" << w.all );
    std::string v = c->get_value< std::string >( e.first );
    VM_CHECK( v == e.second.value, "value", e.first.substr( 0, 200 ) << ": " << vm::show( v ) << " expected " << vm::show( e.second.value ) << "\n" << w.all );
    VM_CHECK( c->is_read_only( e.first ) == e.second.ro, "read-only-flag", e.first.substr( 0, 200 ) << "\n" << w.all );
    std::string f;
    int l = 0;
    VM_CHECK( c->get_location( e.first, f, l ), "no-location", e.first.substr( 0, 200 ) << "\n" << w.all );
    VM_CHECK( f == e.second.file && l == e.second.line, "location", e.first.substr( 0, 200 ) << " " << f << ":" << l << " expected " << e.second.file << ":" << e.second.line << "\n" << w.all );
    keys.erase( e.first );
  }
  for( auto const& k : keys ) { VM_FAIL( "extra-entry", k.substr( 0, 200 ) << " = " << vm::show( c->get_value< std::string >( k ) ) << "\n" << w.all ); }
  vm::event( "entries_compared", w.cfg.size() );
}

void one( vm::Rng& r, uint64_t )
{
  vm::OtherLocale other( r.chance( 1, 8 ) );
  vm::quiet_stderr();
  std::string base = vm::dir() + "/w";
  vm::rmtree( base );
  ::mkdir( base.c_str(), 0700 );
  World w( r );
  w.dir = base + "/main";
  ::mkdir( w.dir.c_str(), 0700 );
  for( long i = 0, n = r.range( 0, 3 ); i < n; ++i )
  {
    std::string s = base + "/search" + vm::str( i );
    ::mkdir( s.c_str(), 0700 );
    w.search.push_back( s );
  }
  static std::vector< std::string > const ev = { "plain", "with space inside", "$LOCAL{alpha}", "a#b", "", "x:y=z", "/a/b/c", "$ENV{VERIF_A}" };
  for( auto const& n : { "VERIF_A", "VERIF_B", "V" } )
  {
    std::string v = r.pick( ev );
    ::setenv( n, v.c_str(), 1 );
    w.env[ n ] = v;
  }
  bool two = r.chance( 1, 6 );
  bool ill = r.chance( 1, 3 );
  if( ill ) { w.break_at = static_cast< int >( r.below( 8 ) ); }
  std::string main1 = w.dir + "/main.conf";
  w.file_at( main1, 0, 0 );
  std::string note = w.all;
  vm::note( note );
  Fate got = FINE;
  std::string what;
  config_block_sptr c;
  auto classify = [ & ]( std::function< void() > f ) {
    try { f(); }
    catch( config_file_not_parsed_exception const& e ) { got = PARSE; what = e.what(); }
    catch( config_file_not_found_exception const& e ) { got = NOT_FOUND; what = e.what(); }
    catch( set_on_read_only_value_exception const& e ) { got = READ_ONLY; what = e.what(); }
  };
  config_parser p;
  if( two ) { p.add_search_path( w.search ); }
  if( two ) { classify( [ & ] { p.parse_config( main1 ); c = p.get_config(); } ); }
  else { classify( [ & ] { c = read_config_file( main1, w.search ); } ); }
  static char const* const names[] = { "accepted", "parse error", "not found", "read-only error" };
  VM_CHECK( got == w.fate, w.fate == FINE ? "well-formed-refused" : "ill-formed-outcome",
            names[ got ] << " (" << what << "), expected " << names[ w.fate ] << " because of " << vm::show( w.why ) << "\n" << w.all );
  if( got == FINE )
  {
    compare( w, c );
    vm::event( "files_accepted" );
    if( two )
    {
      // a second file goes into the same configuration, whatever happened in between
      if( r.chance( 1, 2 ) )
      {
        std::string bad = w.dir + "/bad.conf";
        vm::spit( bad, "block open_one\nblock open_two\n@@ not a line\n" );
        bool refused = false;
        try { p.parse_config( bad ); } catch( config_file_not_parsed_exception const& ) { refused = true; }
        VM_CHECK( refused, "ill-formed-outcome", "file with open blocks accepted" );
        vm::event( "parser_used_after_refusal" );
      }
      w.break_at = r.chance( 1, 3 ) ? 0 : -1;
      w.stmt = 0; w.fate = FINE; w.stop = false; got = FINE; w.why = ""; what = "";
      std::string main2 = w.dir + "/second.conf";
      w.file_at( main2, 0, 0 );
      classify( [ & ] { p.parse_config( main2 ); c = p.get_config(); } );
      VM_CHECK( got == w.fate, "second-file-outcome", names[ got ] << " (" << what << "), expected " << names[ w.fate ] << " because of " << vm::show( w.why ) << "\n" << w.all );
      if( got == FINE ) { compare( w, c ); vm::event( "second_files" ); }
    }
  }
  else { vm::event( std::string( "refused_" ) + ( got == PARSE ? "parse" : got == NOT_FOUND ? "not_found" : "read_only" ) ); w.mark( 100 + got ); vm::sig( w.why ); }
  vm::sig( w.shape );
  if( r.chance( 1, 300 ) ) { vm::sample( w.all ); }

  // a file named without its folder is in the working directory, and so are those it names
  if( r.chance( 1, 8 ) )
  {
    char back[ 4096 ];
    if( ::getcwd( back, sizeof back ) && ::chdir( w.dir.c_str() ) == 0 )
    {
      ::mkdir( "lower", 0700 );
      vm::spit( "here.conf", "one = 1\nrelativepath two = data/x\ninclude beside.inc\ninclude lower/deep.inc\nlast = $SYSENV{cwd}\n" );
      vm::spit( "beside.inc", "three = 3\nrelativepath four = y\n" );
      vm::spit( "lower/deep.inc", "relativepath five = z\ninclude other.inc\ninclude beside2.inc\n" );
      vm::spit( "lower/other.inc", "six = lower\n" );
      vm::spit( "other.inc", "six = upper\n" );
      vm::spit( "beside2.inc", "seven = 7\n" );
      config_block_sptr h = read_config_file( r.chance( 1, 2 ) ? "here.conf" : "./here.conf", w.search );
      auto file_of = [ & ]( std::string const& p ) { struct stat s; std::memset( &s, 0, sizeof s ); ::stat( p.substr( 0, p.rfind( '/' ) == std::string::npos ? 0 : p.rfind( '/' ) ).c_str(), &s ); return vm::str( s.st_ino ) + p.substr( p.rfind( '/' ) + 1 ); };
      auto is = [ & ]( char const* k, std::string const& v ) { VM_CHECK( h->has_value( k ) && h->get_value< std::string >( k ) == v, "from-working-directory", k << " is " << vm::show( h->get_value< std::string >( k, "missing" ) ) << ", not " << v ); };
      auto same_file = [ & ]( char const* k, std::string const& v ) { VM_CHECK( h->has_value( k ) && h->get_value< std::string >( k ).find( '/' ) != std::string::npos && file_of( h->get_value< std::string >( k ) ) == file_of( v ), "from-working-directory", k << " is " << vm::show( h->get_value< std::string >( k, "missing" ) ) << ", not " << v ); };
      is( "one", "1" ); is( "three", "3" ); is( "six", "lower" ); is( "seven", "7" );
      is( "last", w.dir );
      ::mkdir( "data", 0700 );
      same_file( "two", w.dir + "/data/x" ); same_file( "four", w.dir + "/y" ); same_file( "five", w.dir + "/lower/z" );
      if( ::chdir( back ) ) { throw vm::CaseSkip(); }
      vm::event( "from_working_directory" );
    }
  }
  // memory that is free: no more than there is
  if( r.chance( 1, 8 ) )
  {
    std::string f = w.dir + "/mem.conf";
    vm::spit( f, "tp = $SYSENV{totalphysicalmemory}\nap = $SYSENV{availablephysicalmemory}\ntv = $SYSENV{totalvirtualmemory}\nav = $SYSENV{availablevirtualmemory}\ndn = $SYSENV{domainname}\n" );
    config_block_sptr m = read_config_file( f );
    long tp = m->get_value< long >( "tp" ), ap = m->get_value< long >( "ap" ), tv = m->get_value< long >( "tv" ), av = m->get_value< long >( "av" );
    for( auto const& k : { "tp", "ap", "tv", "av" } ) { std::string v = m->get_value< std::string >( k ); VM_CHECK( v == std::to_string( m->get_value< long >( k ) ), "memory-facts", k << " is " << vm::show( v ) ); }
    VM_CHECK( ap > 0 && ap < tp && av >= 0 && av <= tv, "memory-facts", ap << " of " << tp << ", " << av << " of " << tv );
    static std::string domain;
    if( domain.empty() ) { kwiversys::SystemInformation si; domain = si.GetFullyQualifiedDomainName(); }
    VM_CHECK( m->get_value< std::string >( "dn" ) == domain && !domain.empty(), "domain-name", vm::show( m->get_value< std::string >( "dn" ) ) << " is not " << vm::show( domain ) );
    vm::event( "free_memory" );
  }

  // unclosed blocks are refused
  if( r.chance( 1, 10 ) )
  {
    std::string f = w.dir + "/open.conf";
    vm::spit( f, "aa = 1\nblock b\nblock c\nx = 1\nendblock\n" );
    bool refused = false;
    try { read_config_file( f ); } catch( config_file_not_parsed_exception const& ) { refused = true; }
    VM_CHECK( refused, "unclosed-block-accepted", "" );
    vm::event( "unclosed_refused" );
  }
}

} // namespace

VM_MAIN( one )
