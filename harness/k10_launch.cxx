// K10: launchers start the real program, and libraries are loaded, from wherever they are.
// Launchers built from SharedForward.h are put into generated build and install trees and started in every
// way a program is; the program they start says what it was given. Libraries come and go through histories
// of opening and closing, and say themselves when they go.
#include "vm.h"
#include <algorithm>
#include <cerrno>
#include <climits>
#include <kwsys/DynamicLoader.hxx>

typedef std::string Str;
typedef kwsys::DynamicLoader Loader;

namespace {

Str part( Str const& name )
{
  std::istringstream is( vm::st().extra );
  Str item;
  while( std::getline( is, item, ',' ) ) { if( item.compare( 0, name.size() + 1, name + "=" ) == 0 ) { return item.substr( name.size() + 1 ); } }
  std::cerr << "no " << name << " in " << vm::st().extra << "\n";
  std::_Exit( 3 );
}

void must( bool ok, char const* what ) { if( !ok ) { std::perror( what ); std::_Exit( 3 ); } }

void folder( Str const& p )
{
  for( size_t i = 1; i <= p.size(); ++i ) { if( i == p.size() || p[ i ] == '/' ) { ::mkdir( p.substr( 0, i ).c_str(), 0755 ); } }
}

Str real( Str const& p )
{
  char b[ PATH_MAX ];
  return ::realpath( p.c_str(), b ) ? Str( b ) : Str();
}

// a copy of a program, shared by all cases
void place( Str const& name, Str const& to )
{
  static std::map< Str, Str > copies;
  Str& c = copies[ name ];
  if( c.empty() )
  {
    c = real( vm::dir() ) + "/master " + name;
    vm::spit( c, vm::slurp( part( name ) ) );
    must( ::chmod( c.c_str(), 0755 ) == 0, "chmod" );
  }
  must( ::link( c.c_str(), to.c_str() ) == 0, "link" );
}

Str odd_name( vm::Rng& r )
{
  static char const* const names[] = { "plain", "with space", " lead", "trail ", "\xC3\xA4\xE2\x82\xAC", "a'b\"c", "%s%n", "$HOME", "-", "--print", "..x", ".hidden", "line\nfeed", "tab\t", "x=y", "*", "bin", "Debug", "lib" };
  return names[ r.below( sizeof names / sizeof *names ) ];
}

std::vector< Str > zero_split( Str const& s )
{
  std::vector< Str > v;
  size_t i = 0, z;
  while( ( z = s.find( '\0', i ) ) != Str::npos ) { v.push_back( s.substr( i, z - i ) ); i = z + 1; }
  return v;
}

// -- launchers --------------------------------------------------------------------
struct Tree
{
  Str top;         // what descriptor 61 is opened on
  bool config;     // a build with configurations
  bool build;      // in the build tree, else installed
  Str dir;         // holds the launcher
  Str exe_at;      // where the real program is
  std::vector< Str > libs;   // expected, in order; "" = missing
  bool no_real, not_executable, lib_missing, nested;
};

Tree plant( vm::Rng& r, uint64_t idx )
{
  Tree t;
  t.top = real( vm::dir() ) + "/L" + std::to_string( idx );
  ::mkdir( t.top.c_str(), 0755 );
  while( r.chance( 1, 3 ) ) { t.top += "/" + odd_name( r ); ::mkdir( t.top.c_str(), 0755 ); }
  if( r.chance( 1, 12 ) ) { for( int i = 0; i < 8; ++i ) { t.top += "/" + Str( 120, 'd' ); ::mkdir( t.top.c_str(), 0755 ); } vm::event( "deep trees" ); }
  t.config = r.chance( 1, 2 );
  t.build = r.chance( 1, 2 );
  t.no_real = r.chance( 1, 25 );
  t.not_executable = !t.no_real && r.chance( 1, 25 );
  t.lib_missing = r.chance( 1, 25 );
  t.nested = false;
  Str abs_lib = "/proc/self/fd/61/abs lib";
  ::mkdir( ( t.top + "/abs lib" ).c_str(), 0755 );
  Str proper;    // the real program's own name
  if( t.build )
  {
    t.dir = t.top + "/build/bin" + ( t.config ? "/Debug" : "" );
    folder( t.dir );
    t.exe_at = t.dir + "/foo-real";
    t.libs.push_back( t.dir );
    if( t.config )
    {
      if( !t.lib_missing ) { folder( t.top + "/build/more libs/Debug" ); }
      t.libs.push_back( t.lib_missing ? "" : t.top + "/build/more libs/Debug" );
      t.libs.push_back( abs_lib );
    }
    else { t.lib_missing = false; }
  }
  else
  {
    Str prefix = t.top + "/" + odd_name( r );
    t.dir = prefix + "/bin";
    folder( t.dir );
    // decoys: a build tree that is not this one
    if( r.chance( 1, 2 ) ) { folder( t.top + "/build/bin/Debug" ); vm::spit( t.top + "/build/bin/Debug/foo-real", "x" ); vm::spit( t.top + "/build/bin/foo-real", "x" ); }
    if( t.config )
    {
      folder( t.top + "/abs bin" );
      t.exe_at = "/proc/self/fd/61/abs bin/foo real";
      proper = t.top + "/abs bin/foo real";
      t.lib_missing = false;
    }
    else
    {
      folder( prefix + "/lib/foo-1.2" );
      t.exe_at = prefix + "/lib/foo-1.2/foo-real";
      t.libs = { prefix + "/lib/foo-1.2", abs_lib, prefix + "/lib/bar 4.5" };
      if( !t.lib_missing )
      {
        if( r.chance( 1, 3 ) )
        {
          folder( prefix + "/elsewhere" );
          must( ::symlink( "../elsewhere", ( prefix + "/lib/bar 4.5" ).c_str() ) == 0, "symlink" );
          t.libs[ 2 ] = prefix + "/elsewhere";
        }
        else { folder( prefix + "/lib/bar 4.5" ); }
      }
      else { t.libs[ 2 ] = ""; }
      t.nested = r.chance( 1, 6 );
    }
  }
  if( proper.empty() ) { proper = t.exe_at; }
  if( !t.no_real )
  {
    if( t.not_executable ) { vm::spit( proper, "#!/bin/true\n" ); }
    else if( t.nested )
    {
      // the program started is itself a launcher
      place( "k10_launcher_config", proper );
      folder( t.top + "/abs bin" );
      place( "k10_real", t.top + "/abs bin/foo real" );
      t.exe_at = "/proc/self/fd/61/abs bin/foo real";
    }
    else if( r.chance( 1, 4 ) )
    {
      place( "k10_real", proper + "-1.2.3" );
      must( ::symlink( ( proper + "-1.2.3" ).substr( proper.rfind( '/' ) + 1 ).c_str(), proper.c_str() ) == 0, "symlink" );
      if( t.exe_at == proper ) { t.exe_at += "-1.2.3"; }
    }
    else { place( "k10_real", proper ); }
  }
  place( t.config ? "k10_launcher_config" : "k10_launcher", t.dir + "/foo" );
  return t;
}

Str long_path_list( vm::Rng& r, size_t n )
{
  Str s;
  while( s.size() < n ) { if( !s.empty() ) { s += ':'; } s += "/" + r.str( "abcdefgh/. ", 1, n > 2000 ? 1500 : 20 ); }
  return s;
}

void launch( vm::Rng& r, uint64_t idx )
{
  Tree t = plant( r, idx );
  Str box = real( vm::dir() ) + "/L" + std::to_string( idx );
  // who is called, from where
  Str run = t.dir + "/foo", argv0, cwd = t.top, path = "/usr/bin:/bin", shown;
  bool hopeless = false, may_fail = false;
  int way = static_cast< int >( r.below( 9 ) );
  switch( way )
  {
    case 0: argv0 = run; break;
    case 1: cwd = t.dir; argv0 = "./foo"; break;
    case 2: cwd = t.dir.substr( 0, t.dir.rfind( '/' ) ); argv0 = t.dir.substr( t.dir.rfind( '/' ) + 1 ) + "/foo"; break;
    case 3: cwd = t.top + "/abs lib"; argv0 = "../" + t.dir.substr( t.top.size() + 1 ) + ( r.chance( 1, 2 ) ? "//foo" : "/./foo" ); break;
    case 4:   // through a link to the folder
      must( ::symlink( t.dir.c_str(), ( box + "/way" ).c_str() ) == 0, "symlink" );
      argv0 = run = box + "/way/foo";
      break;
    case 5: case 6:   // found in PATH
    {
      argv0 = "foo";
      std::vector< Str > entries;
      long n = r.range( 0, 4 );
      for( long i = 0; i < n; ++i )
      {
        Str d = box + "/decoy" + std::to_string( i );
        ::mkdir( d.c_str(), 0755 );
        switch( r.below( 6 ) )
        {
          case 0: ::mkdir( ( d + "/foo" ).c_str(), 0755 ); vm::event( "a folder of that name first" ); break;
          case 1: vm::spit( d + "/foo", "not a program" ); ::chmod( ( d + "/foo" ).c_str(), 0644 ); vm::event( "no program of that name first" ); break;
          case 2: must( ::symlink( "nowhere", ( d + "/foo" ).c_str() ) == 0, "symlink" ); break;
          case 3: d = r.chance( 1, 2 ) ? Str() : Str( "nonexistent" ); break;
          case 4: d = "/" + Str( static_cast< size_t >( r.range( 3000, 30000 ) ), 'p' ); vm::event( "endless entries" ); break;
          default: break;
        }
        entries.push_back( d );
      }
      Str own = r.chance( 1, 4 ) ? "" : t.dir;
      if( own.empty() ) { cwd = t.dir.substr( 0, t.dir.rfind( '/' ) ); own = t.dir.substr( t.dir.rfind( '/' ) + 1 ); }
      if( r.chance( 1, 3 ) ) { own += "/"; }
      if( t.dir.find( ':' ) != Str::npos ) { throw vm::CaseSkip(); }
      bool there = !r.chance( 1, 10 );
      if( there ) { entries.push_back( own ); } else { hopeless = true; }
      if( r.chance( 1, 2 ) )
      {
        // another launcher after the right one
        Str d = box + "/later";
        ::mkdir( d.c_str(), 0755 );
        if( there ) { place( "k10_launcher", d + "/foo" ); }
        entries.push_back( d );
      }
      path.clear();
      for( size_t i = 0; i < entries.size(); ++i ) { path += ( i ? ":" : "" ) + entries[ i ]; }
      if( r.chance( 1, 5 ) ) { path += ":"; }
      break;
    }
    case 7:   // long but right
    {
      argv0 = t.top + "/";
      size_t limit = static_cast< size_t >( r.range( 100, 4095 ) );
      Str tail = t.dir.substr( t.top.size() + 1 ) + "/foo";
      while( argv0.size() + 2 + tail.size() <= limit ) { argv0 += "./"; }
      argv0 += tail;
      if( argv0.size() > 3900 ) { may_fail = true; vm::event( "long names" ); }
      if( argv0.size() > 4095 ) { throw vm::CaseSkip(); }
      break;
    }
    default:   // no such name
      argv0 = r.chance( 1, 2 ) ? Str( static_cast< size_t >( r.range( 4000, 60000 ) ), 'n' ) : box + "/" + Str( static_cast< size_t >( r.range( 4000, 60000 ) ), 'n' ) + "/foo";
      if( r.chance( 1, 4 ) ) { argv0 = "nosuch"; }
      hopeless = true;
      break;
  }
  // the arguments
  std::vector< Str > args;
  int option = t.config ? 0 : static_cast< int >( r.below( 8 ) );   // 1 print, 2 ldd, 3 command, 4 command without more
  if( option > 4 ) { option = 0; }
  static char const* const words[] = { "", "a", "--print", "--ldd", "--command", "-", "--", "a b", "\"", "\\", "'", "$(x)", "\n", "\xC3\xA4", "exit0", "x=y", "%s" };
  long n = r.range( 0, 6 );
  Str used = t.exe_at, command;
  if( option == 1 ) { args.push_back( "--print" ); }
  if( option == 2 ) { args.push_back( "--ldd" ); }
  if( option == 3 )
  {
    args.push_back( "--command" );
    Str where = box + "/cmd";
    ::mkdir( where.c_str(), 0755 );
    Str name = r.chance( 1, 2 ) ? "do it" : "doit";
    place( "k10_real", where + "/" + name );
    if( r.chance( 1, 3 ) && way != 5 && way != 6 ) { path = where + ":" + path; command = name; }
    else { command = where + "/" + name; }
    if( r.chance( 1, 20 ) ) { command = where + "/" + Str( static_cast< size_t >( r.range( 4000, 30000 ) ), 'c' ); hopeless = true; vm::event( "endless commands" ); }
    args.push_back( command );
    used = where + "/" + name;
  }
  if( option == 4 ) { args.push_back( "--command" ); }
  size_t own_args = option == 3 ? 2 : 0;
  int code = 0;
  if( option == 0 || option == 3 )
  {
    for( long i = 0; i < n; ++i )
    {
      Str w = r.chance( 1, 30 ) ? Str( static_cast< size_t >( r.range( 5000, 100000 ) ), 'w' ) : Str( words[ r.below( sizeof words / sizeof *words ) ] );
      if( args.size() == own_args && !t.config && w.compare( 0, 2, "--" ) == 0 ) { w = "first"; }
      args.push_back( w );
    }
    if( r.chance( 1, 3 ) ) { code = static_cast< int >( r.below( 77 ) ); args.push_back( "exit" + std::to_string( code ) ); }
  }
  // the environment
  Str old;
  bool has_old = r.chance( 2, 3 );
  if( has_old )
  {
    switch( r.below( 5 ) )
    {
      case 0: old = ""; vm::event( "empty search path" ); break;
      case 1: old = "/x"; break;
      case 2: old = "/x y:/z"; break;
      case 3: old = long_path_list( r, static_cast< size_t >( r.range( 1, 3000 ) ) ); break;
      default: if( r.chance( 1, 4 ) ) { old = long_path_list( r, static_cast< size_t >( r.range( 50000, 110000 ) ) ); vm::event( "endless search paths" ); } else { old = "/q"; } break;
    }
  }
  std::vector< Str > env;
  env.push_back( "ASAN_OPTIONS=exitcode=77:detect_leaks=0:abort_on_error=0" );
  env.push_back( "UBSAN_OPTIONS=halt_on_error=1:exitcode=77" );
  bool no_path = r.chance( 1, 10 ) && way != 5 && way != 6 && option != 2 && !( option == 3 && command.find( '/' ) == Str::npos );
  Str ldd_dir = box + "/tools";
  if( option == 2 ) { ::mkdir( ldd_dir.c_str(), 0755 ); place( "k10_real", ldd_dir + "/ldd" ); path = path.empty() ? ldd_dir : ldd_dir + ":" + path; }
  if( !no_path ) { env.push_back( "PATH=" + path ); }
  if( has_old ) { env.push_back( "LD_LIBRARY_PATH=" + old ); }
  for( long i = r.range( 0, 5 ); i > 0; --i ) { env.push_back( "V" + std::to_string( i ) + "=" + words[ r.below( sizeof words / sizeof *words ) ] ); }
  if( r.chance( 1, 4 ) ) { env.push_back( "LD_LIBRARY_PATHS=/other" ); }
  for( size_t i = env.size(); i > 1; --i ) { std::swap( env[ i - 1 ], env[ r.below( i ) ] ); }

  std::vector< char* > av, ev;
  av.push_back( const_cast< char* >( argv0.c_str() ) );
  for( auto& a : args ) { av.push_back( const_cast< char* >( a.c_str() ) ); }
  av.push_back( nullptr );
  for( auto& e : env ) { ev.push_back( const_cast< char* >( e.c_str() ) ); }
  ev.push_back( nullptr );

  Str label = Str( t.build ? "in the build tree" : "installed" ) + ( t.config ? " with configurations" : "" ) + ", called " + vm::show( argv0.substr( 0, 200 ) ) + " from " + vm::show( cwd.substr( t.top.size() ) );
  vm::note( label );
  Str dump = box + ".dump", outp = box + ".out", errp = box + ".err";
  pid_t pid = ::fork();
  must( pid >= 0, "fork" );
  if( pid == 0 )
  {
    ::alarm( 60 );
    int d = ::open( t.top.c_str(), O_RDONLY | O_DIRECTORY ), w = ::open( dump.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    int o = ::open( outp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 ), e = ::open( errp.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600 );
    if( ::dup2( d, 61 ) != 61 || ::dup2( w, 62 ) != 62 || ::dup2( o, 1 ) != 1 || ::dup2( e, 2 ) != 2 ) { _exit( 98 ); }
    ::close( d ); ::close( w ); ::close( o ); ::close( e );
    if( ::chdir( cwd.c_str() ) ) { _exit( 97 ); }
    ::execve( run.c_str(), av.data(), ev.data() );
    _exit( 96 );
  }
  int status = 0;
  ::waitpid( pid, &status, 0 );
  Str out = vm::slurp( outp ), err = vm::slurp( errp );
  std::vector< Str > said = zero_split( vm::slurp( dump ) );
  std::vector< Str > want_libs;
  bool lib_bad = false;
  for( auto const& l : t.libs ) { if( l.empty() ) { lib_bad = true; } want_libs.push_back( l ); }
  ::unlink( dump.c_str() ); ::unlink( outp.c_str() ); ::unlink( errp.c_str() );
  vm::rmtree( vm::dir() + "/L" + std::to_string( idx ) );

  VM_CHECK( WIFEXITED( status ) && WEXITSTATUS( status ) < 90 && WEXITSTATUS( status ) != 77, "launcher-crash",
            "a launcher " << label << " ended with status " << status << ": " << err.substr( 0, 1500 ) );
  bool fails = hopeless || t.no_real || lib_bad || ( t.not_executable && ( option == 0 ) );
  if( option == 4 ) { fails = true; }
  if( may_fail && WEXITSTATUS( status ) == 1 && said.empty() && !err.empty() ) { vm::event( "too long" ); return; }
  if( fails )
  {
    VM_CHECK( said.empty() && WEXITSTATUS( status ) == 1 && !err.empty(), "launcher-failure",
              "a launcher " << label << " without " << ( hopeless ? "a place" : t.no_real ? "a program" : "what it needs" ) << " ended with " << WEXITSTATUS( status ) << ", " << said.size() << " answers and the message " << vm::show( err.substr( 0, 500 ) ) );
    vm::event( "launchers that cannot" );
    vm::sig( "fail" + std::to_string( way ) + std::to_string( option ) + std::to_string( t.no_real ) + std::to_string( lib_bad ) );
    return;
  }
  // the search path expected
  Str ld;
  for( auto const& l : want_libs ) { ld += ( ld.empty() ? "" : ":" ) + l; }
  if( !old.empty() ) { ld += ( ld.empty() ? "" : ":" ) + old; }
  Str exe_said = t.exe_at;
  if( t.nested && ( option == 1 || option == 2 || option == 3 ) )
  {
    exe_said = t.libs[ 0 ] + "/foo-real";   // the inner launcher
  }
  vm::sig( label.substr( 0, 40 ) + std::to_string( way ) + std::to_string( option ) + std::to_string( has_old ) + std::to_string( args.size() ) );
  auto lib_value = []( Str const& line ) { size_t e = line.find( '=' ); return e == Str::npos ? Str() : line.substr( e + 1 ); };
  if( option == 1 )
  {
    VM_CHECK( said.empty() && WEXITSTATUS( status ) == 0 && out == "LD_LIBRARY_PATH=" + ld + "\n" + exe_said + "\n", "launcher-print",
              "a launcher " << label << " asked to print says " << vm::show( out.substr( 0, 1500 ) ) << " for " << vm::show( ( ld + "|" + exe_said ).substr( 0, 1500 ) ) );
    vm::event( "settings printed" );
    return;
  }
  VM_CHECK( said.size() > 4, "launcher-start", "a launcher " << label << " started nothing: " << WEXITSTATUS( status ) << " " << err.substr( 0, 800 ) );
  size_t at = 0;
  long spid = std::atol( said[ at++ ].c_str() );
  Str scwd = said[ at++ ], sexe = said[ at++ ];
  size_t sargc = static_cast< size_t >( std::atol( said[ at++ ].c_str() ) );
  VM_CHECK( at + sargc < said.size(), "harness", "answers" );
  std::vector< Str > sargs( said.begin() + static_cast< long >( at ), said.begin() + static_cast< long >( at + sargc ) );
  at += sargc + 1;
  std::vector< Str > senv( said.begin() + static_cast< long >( at ), said.end() );
  std::vector< Str > want_args;
  if( option == 2 ) { want_args = { "ldd", exe_said }; used = ldd_dir + "/ldd"; code = 0; }
  else
  {
    want_args.push_back( option == 3 ? command : t.exe_at );
    want_args.insert( want_args.end(), args.begin() + static_cast< long >( own_args ), args.end() );
  }
  if( used.compare( 0, 16, "/proc/self/fd/61" ) == 0 ) { used = t.top + used.substr( 16 ); }
  // (the tree is gone by now; names say what it was)
  VM_CHECK( sexe == used || sexe.compare( 0, used.size() + 1, used + "-" ) == 0, "launcher-program", "a launcher " << label << " started " << vm::show( sexe ) << " for " << vm::show( used ) );
  Str got_args, exp_args;
  for( auto const& a : sargs ) { got_args += vm::show( a.substr( 0, 300 ) ) + " "; }
  for( auto const& a : want_args ) { exp_args += vm::show( a.substr( 0, 300 ) ) + " "; }
  VM_CHECK( sargs == want_args, "launcher-arguments", "a launcher " << label << " gave " << got_args << "for " << exp_args );
  VM_CHECK( spid == pid, "launcher-process", "a launcher " << label << " is not the process the program runs in" );
  VM_CHECK( scwd == cwd, "launcher-folder", "a launcher " << label << " started the program in " << vm::show( scwd ) );
  VM_CHECK( WEXITSTATUS( status ) == code, "launcher-status", "a launcher " << label << " ended with " << WEXITSTATUS( status ) << " for " << code );
  std::vector< Str > want_env;
  for( auto const& e : env ) { if( e.compare( 0, 16, "LD_LIBRARY_PATH=" ) != 0 ) { want_env.push_back( e ); } }
  std::vector< Str > rest;
  Str got_ld;
  size_t lds = 0;
  for( auto const& e : senv ) { if( e.compare( 0, 16, "LD_LIBRARY_PATH=" ) == 0 ) { got_ld = lib_value( e ); ++lds; } else { rest.push_back( e ); } }
  std::sort( rest.begin(), rest.end() );
  std::sort( want_env.begin(), want_env.end() );
  VM_CHECK( rest == want_env, "launcher-environment", "a launcher " << label << " changed the environment: " << rest.size() << " variables for " << want_env.size() );
  VM_CHECK( got_ld == ld && ( lds == 1 || ( lds == 0 && ld.empty() ) ), "launcher-libraries",
            "a launcher " << label << " makes the search path " << vm::show( got_ld.substr( 0, 1200 ) ) << " for " << vm::show( ld.substr( 0, 1200 ) ) << " (" << lds << " of them)" );
  vm::event( "programs started" );
  if( way == 5 || way == 6 ) { vm::event( "found in PATH" ); }
  if( way == 4 ) { vm::event( "through a link" ); }
  if( t.nested ) { vm::event( "launchers of launchers" ); }
  if( option == 2 ) { vm::event( "dependencies shown" ); }
  if( option == 3 ) { vm::event( "commands" ); }
  if( t.build ) { vm::event( t.config ? "build trees with configurations" : "build trees" ); } else { vm::event( "installed trees" ); }
  vm::sample( label + ": " + exp_args );
}

// -- libraries -----------------------------------------------------------------------
void libraries( vm::Rng& r, uint64_t idx )
{
  Str box = real( vm::dir() ) + "/D" + std::to_string( idx );
  ::mkdir( box.c_str(), 0755 );
  struct File { Str path; int object; };               // object < 0: nothing to be loaded
  struct Object { Loader::LibraryHandle h; int opened; int count; int* gone; bool unresolved; };
  std::vector< File > files;
  std::vector< Object > objects;
  std::vector< int > live;                              // one entry per open
  long n = r.range( 1, 4 );
  for( long i = 0; i < n; ++i )
  {
    Str d = box + "/" + std::to_string( i ) + odd_name( r );
    ::mkdir( d.c_str(), 0755 );
    Str p = d + "/" + Loader::LibPrefix() + odd_name( r ) + Loader::LibExtension();
    bool u = r.chance( 1, 3 );
    vm::spit( p, vm::slurp( part( u ? "k10_module_unresolved" : "k10_module" ) ) );
    files.push_back( { p, static_cast< int >( objects.size() ) } );
    if( r.chance( 1, 2 ) )
    {
      must( ::symlink( p.c_str(), ( d + "/link" ).c_str() ) == 0, "symlink" );
      files.push_back( { d + "/link", static_cast< int >( objects.size() ) } );
    }
    objects.push_back( { nullptr, 0, 0, new int( 0 ), u } );
  }
  Str whole = vm::slurp( part( "k10_module" ) );
  vm::spit( box + "/empty.so", "" );
  vm::spit( box + "/text.so", "int main() { }\n" );
  vm::spit( box + "/head.so", whole.substr( 0, static_cast< size_t >( r.range( 1, 63 ) ) ) );
  ::mkdir( ( box + "/folder.so" ).c_str(), 0755 );
  for( char const* b : { "/empty.so", "/text.so", "/head.so", "/folder.so", "/missing.so" } ) { files.push_back( { box + b, -1 } ); }
  Str history;
  long steps = r.range( 5, 40 );
  for( long s = 0; s < steps; ++s )
  {
    if( r.chance( 1, 2 ) || live.empty() )
    {
      File const& f = files[ r.below( files.size() ) ];
      vm::note( "open " + f.path );
      Loader::LibraryHandle h = Loader::OpenLibrary( f.path );
      history += f.object < 0 ? 'x' : 'o';
      if( f.object < 0 )
      {
        VM_CHECK( !h, "library-refused", "a file that is no library was opened: " << vm::show( f.path ) );
        char const* e = Loader::LastError();
        VM_CHECK( e && Str( e ).find( f.path ) != Str::npos, "library-error", "the failure to open " << vm::show( f.path ) << " is reported as " << ( e ? vm::show( e ) : Str( "nothing" ) ) );
        VM_CHECK( Loader::CloseLibrary( h ) == 0, "library-close", "closing nothing succeeded" );
        vm::event( "files refused" );
        continue;
      }
      Object& o = objects[ static_cast< size_t >( f.object ) ];
      VM_CHECK( h, "library-open", vm::show( f.path ) << " was not opened: " << ( Loader::LastError() ? "error" : "no error" ) );
      VM_CHECK( !o.opened || h == o.h, "library-same", "opening " << vm::show( f.path ) << " again gave another library" );
      for( auto const& p : objects ) { VM_CHECK( &p == &o || !p.opened || p.h != h, "library-other", "two libraries are one" ); }
      o.h = h;
      ++o.opened;
      live.push_back( f.object );
      if( o.opened == 1 )
      {
        o.count = 0;
        Loader::SymbolPointer tell = Loader::GetSymbolAddress( h, "k10_tell" );
        VM_CHECK( tell, "symbol-found", "k10_tell was not found in " << vm::show( f.path ) );
        reinterpret_cast< void ( * )( int* ) >( tell )( o.gone );
      }
      vm::event( o.opened == 1 ? "opened" : "opened again" );
    }
    else if( r.chance( 1, 2 ) )
    {
      size_t k = r.below( live.size() );
      Object& o = objects[ static_cast< size_t >( live[ k ] ) ];
      live.erase( live.begin() + static_cast< long >( k ) );
      int before = *o.gone;
      int ok = Loader::CloseLibrary( o.h );
      history += 'c';
      --o.opened;
      VM_CHECK( ok == 1, "library-close", "closing an open library returned " << ok );
      VM_CHECK( *o.gone == before + ( o.opened == 0 ? 1 : 0 ), "library-stays", "after closing, opened " << o.opened << " more times, the library " << ( *o.gone != before ? "is gone" : "stays" ) );
      vm::event( o.opened ? "closed, stays" : "closed, gone" );
    }
    else
    {
      Object& o = objects[ static_cast< size_t >( live[ r.below( live.size() ) ] ) ];
      history += 's';
      Loader::SymbolPointer p = Loader::GetSymbolAddress( o.h, "k10_next" ), v = Loader::GetSymbolAddress( o.h, "k10_value" );
      VM_CHECK( p && v, "symbol-found", "a symbol of an open library was not found" );
      VM_CHECK( reinterpret_cast< int ( * )() >( p )() == ++o.count && *reinterpret_cast< int* >( v ) == 42, "symbol-right", "the symbol is another library's" );
      Loader::SymbolPointer again = Loader::GetSymbolAddress( o.h, "k10_next_again" );
      VM_CHECK( again && reinterpret_cast< int ( * )() >( again )() == ++o.count, "symbol-own", "a library's call of its own function went to another library" );
      Loader::SymbolPointer l = Loader::GetSymbolAddress( o.h, "k10_a_name_that_is_as_long_as_names_of_functions_in_templates_get_and_then_some_more_0123456789_0123456789_0123456789" );
      VM_CHECK( l && reinterpret_cast< int ( * )() >( l )() == 7, "symbol-long", "a long name was not found" );
      for( char const* none : { "k10_nex", "k10_next_", "K10_next", "", "k10 next" } )
      {
        VM_CHECK( !Loader::GetSymbolAddress( o.h, none ), "symbol-absent", "a symbol " << vm::show( none ) << " was found" );
        char const* e = Loader::LastError();
        VM_CHECK( e && *e, "symbol-error", "the failure to find " << vm::show( none ) << " is not reported" );
      }
      if( o.unresolved ) { VM_CHECK( Loader::GetSymbolAddress( o.h, "k10_calls_nobody" ), "symbol-found", "k10_calls_nobody was not found" ); vm::event( "unresolved functions left" ); }
      vm::event( "symbols found" );
    }
    // everything still open still counts on
    for( auto& o : objects )
    {
      if( !o.opened ) { continue; }
      Loader::SymbolPointer p = Loader::GetSymbolAddress( o.h, "k10_next" );
      VM_CHECK( p && reinterpret_cast< int ( * )() >( p )() == ++o.count, "symbol-right", "another library's state changed" );
    }
  }
  while( !live.empty() )
  {
    Object& o = objects[ static_cast< size_t >( live.back() ) ];
    live.pop_back();
    --o.opened;
    VM_CHECK( Loader::CloseLibrary( o.h ) == 1, "library-close", "closing an open library failed" );
  }
  for( auto& o : objects ) { delete o.gone; }
  vm::rmtree( vm::dir() + "/D" + std::to_string( idx ) );
  vm::sig( history );
  vm::event( "library histories" );
}

void body( vm::Rng& r, uint64_t idx )
{
  if( r.chance( 1, 3 ) ) { libraries( r, idx ); }
  else { launch( r, idx ); }
}

} // namespace

VM_MAIN( body )
