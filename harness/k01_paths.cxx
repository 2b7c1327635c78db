// K01: path manipulation obeys path algebra for every spelling of a path.
#include <algorithm>
#include "vm.h"
#include <kwsys/SystemTools.hxx>

using kwsys::SystemTools;
typedef std::string Str;
typedef std::vector< Str > Strs;

#include <sys/wait.h>

namespace {

// a process that only says how it sees the paths it is asked about
struct Asked
{
  Asked()
  {
    char const* q = std::getenv( "K01_ASKED" );
    if( !q ) { return; }
    std::string all = q, out = SystemTools::CollapseFullPath( "some/./file" ) + "\n" + SystemTools::GetCurrentWorkingDirectory() + "\n";
    size_t at;
    while( ( at = all.find( '\n' ) ) != std::string::npos ) { out += SystemTools::CollapseFullPath( all.substr( 0, at ) ) + "\n"; all.erase( 0, at + 1 ); }
    ssize_t n = ::write( 1, out.data(), out.size() );
    ::_exit( n == static_cast< ssize_t >( out.size() ) ? 0 : 3 );
  }
} asked;

// ---- the definition, on its own -------------------------------------------
Strs parts( Str const& p )                        // between slashes, empty ones left out
{
  Strs r;
  Str c;
  for( size_t i = 0; i <= p.size(); ++i )
  {
    if( i < p.size() && p[ i ] != '/' ) { c += p[ i ]; continue; }
    if( !c.empty() ) { r.push_back( c ); }
    c.clear();
  }
  return r;
}

Strs resolve( Str const& p )                      // of a full path: where it leads
{
  Strs r;
  for( auto const& c : parts( p ) )
  {
    if( c == "." ) { continue; }
    if( c == ".." ) { if( !r.empty() ) { r.pop_back(); } continue; }
    r.push_back( c );
  }
  return r;
}

Strs plain( Str const& p )                        // only "." left out
{
  Strs r;
  for( auto const& c : parts( p ) ) { if( c != "." ) { r.push_back( c ); } }
  return r;
}

Str join( Strs const& v, size_t from = 0 )
{
  Str r;
  for( size_t i = from; i < v.size(); ++i ) { r += ( i > from ? "/" : "" ) + v[ i ]; }
  return r;
}

bool full( Str const& p ) { return !p.empty() && p[ 0 ] == '/'; }
bool ends( Str const& p ) { return !p.empty() && p[ p.size() - 1 ] == '/'; }

// ---- spellings ---------------------------------------------------------------
Str component( vm::Rng& r )
{
  switch( r.below( 12 ) )
  {
  case 0: return ".";
  case 1: case 2: return "..";
  case 3: return "...";
  case 4: return r.pick( Strs{ ".hidden", "a.", "..a", "a..b", "x.tar.gz", ".a.b", ".." "b" } );
  case 5: return "with space" + r.str( " ab", 0, 3 );
  case 6: return "\xc3\xa9t\xc3\xa9" + r.str( "ab", 0, 2 );
  case 7: return r.str( "ab.~-()'\"$%:*", 1, 6 ) + "z";
  case 8: return r.str( "ab", 1, 300 );
  default: return Str( 1, r.pick( "abc" ) );
  }
}

Str slashes( vm::Rng& r ) { return Str( r.chance( 1, 5 ) ? static_cast< size_t >( r.range( 2, 6 ) ) : 1, '/' ); }

// no drive letters, no home, no backslash in front
Str spelling( vm::Rng& r, int is_full = -1, bool dots = true )
{
  if( is_full < 0 ) { is_full = r.chance( 1, 2 ); }
  Str p = is_full ? slashes( r ) : "";
  unsigned n = static_cast< unsigned >( r.chance( 1, 12 ) ? 0 : r.chance( 1, 10 ) ? r.range( 8, 40 ) : r.range( 1, 6 ) );
  for( unsigned i = 0; i < n; ++i )
  {
    Str c = component( r );
    if( !dots && ( c == "." || c == ".." ) ) { c = "d"; }
    if( !is_full && i == 0 && ( c[ 0 ] == '~' || ( c.size() > 1 && c[ 1 ] == ':' ) ) ) { c = "k" + c; if( c[ 1 ] == ':' ) { c = "kk"; } }
    p += ( i ? slashes( r ) : "" ) + c;
  }
  if( n && r.chance( 1, 5 ) ) { p += slashes( r ); }
  return p;
}

#define SHOW( p ) vm::show( p )

void split_and_join( vm::Rng& r )
{
  Str p = spelling( r );
  vm::note( "split " + p );
  Strs c;
  if( r.chance( 1, 2 ) ) { c.push_back( "left over" ); }
  SystemTools::SplitPath( p, c, r.chance( 1, 2 ) );
  VM_CHECK( !c.empty(), "split", SHOW( p ) );
  Str root = p.compare( 0, 2, "//" ) == 0 ? "//" : full( p ) ? "/" : "";
  VM_CHECK( c[ 0 ] == root, "split:root", SHOW( p ) << " has root " << SHOW( c[ 0 ] ) );
  for( size_t i = 1; i < c.size(); ++i ) { VM_CHECK( c[ i ].find( '/' ) == Str::npos, "split:component", SHOW( p ) << " has component " << SHOW( c[ i ] ) ); }
  Str j = c[ 0 ] + join( c, 1 );
  VM_CHECK( j == p, "split:recombine", SHOW( p ) << " recombines to " << SHOW( j ) );
  VM_CHECK( SystemTools::JoinPath( c ) == p && SystemTools::JoinPath( c.begin(), c.end() ) == p, "join", SHOW( p ) << " joins to " << SHOW( SystemTools::JoinPath( c ) ) );
  Str got = "left over";
  char const* rest = SystemTools::SplitPathRootComponent( p, &got );
  VM_CHECK( got == root && rest == p.c_str() + root.size() && SystemTools::SplitPathRootComponent( p ) == rest, "split:root", SHOW( p ) );
  vm::event( "split" );
  if( root == "//" ) { vm::event( "network_root" ); }
  // other roots
  static char const* const roots[] = { "", "/", "c:/", "Z:", "//", "~/", "~user/" };
  Str q = roots[ r.below( 7 ) ];
  Str tail = spelling( r, 0 );
  Strs d;
  SystemTools::SplitPath( q + tail, d, false );
  VM_CHECK( d[ 0 ] == q && d[ 0 ] + join( d, 1 ) == q + tail && SystemTools::JoinPath( d ) == q + tail, "split:roots", SHOW( q + tail ) << " becomes " << SHOW( d[ 0 ] ) << " and " << SHOW( join( d, 1 ) ) );
  // joining anything
  Strs any;
  for( unsigned n = static_cast< unsigned >( r.below( 5 ) ); n; --n ) { any.push_back( r.str( "ab", 0, 3 ) ); }
  Str want = any.empty() ? "" : any[ 0 ] + join( any, 1 );
  VM_CHECK( SystemTools::JoinPath( any ) == want, "join", SHOW( join( any ) ) );
}

void collapse( vm::Rng& r )
{
  Str base = spelling( r, 1 ), p = spelling( r );
  vm::note( "collapse " + p + " on " + base );
  Str got = SystemTools::CollapseFullPath( p, base );
  Str whole = full( p ) ? p : base + "/" + p;
  Str want = join( resolve( whole ) );
  Str root = whole.compare( 0, 2, "//" ) == 0 ? "//" : "/";
  VM_CHECK( got == root + want || got == "/" + want, "collapse", SHOW( p ) << " on " << SHOW( base ) << " becomes " << SHOW( got ) << " instead of /" << SHOW( want ) );
  VM_CHECK( SystemTools::CollapseFullPath( p, base.c_str() ) == got, "collapse:overloads", SHOW( p ) << " on " << SHOW( base ) );
  VM_CHECK( SystemTools::CollapseFullPath( got ) == got && SystemTools::CollapseFullPath( got, base ) == got, "collapse:idempotent", SHOW( got ) << " becomes " << SHOW( SystemTools::CollapseFullPath( got ) ) );
  char cwd[ 4096 ];
  if( !::getcwd( cwd, sizeof cwd ) ) { std::_Exit( 3 ); }
  Str here = SystemTools::CollapseFullPath( p );
  Str want_here = join( resolve( full( p ) ? p : Str( cwd ) + "/" + p ) );
  VM_CHECK( here == "/" + want_here || here == "//" + want_here, "collapse:cwd", SHOW( p ) << " in " << cwd << " becomes " << SHOW( here ) );
  VM_CHECK( SystemTools::CollapseFullPath( p, static_cast< char const* >( nullptr ) ) == here, "collapse:overloads", SHOW( p ) );
  vm::event( full( p ) ? "collapsed_full" : "collapsed_relative" );
  if( whole.find( ".." ) != Str::npos ) { vm::event( "collapsed_parents" ); }
  vm::sig( "c" + got );
}

void relative( vm::Rng& r )
{
  Str a = spelling( r, 1 ), b = r.chance( 1, 3 ) ? a + "/" + spelling( r, 0 ) : r.chance( 1, 8 ) ? a : spelling( r, 1 );
  if( r.chance( 1, 3 ) ) { Str common = spelling( r, 1 ); a = common + "/" + spelling( r, 0 ); b = common + "/" + spelling( r, 0 ); }
  vm::note( "from " + a + " to " + b );
  Str got = SystemTools::RelativePath( a, b );
  VM_CHECK( !full( got ), "relative:full", "from " << SHOW( a ) << " to " << SHOW( b ) << " is " << SHOW( got ) );
  Strs to = resolve( join( Strs( 1, "/" + join( resolve( a ) ) + "/" + got ) ) );
  VM_CHECK( to == resolve( b ), "relative", "from " << SHOW( a ) << " to " << SHOW( b ) << " is " << SHOW( got ) << " which leads to " << SHOW( join( to ) ) );
  // and by the shortest way
  Strs la = resolve( a ), lb = resolve( b );
  size_t k = 0;
  while( k < la.size() && k < lb.size() && la[ k ] == lb[ k ] ) { ++k; }
  Strs steps = parts( got );
  bool network = ( a.compare( 0, 2, "//" ) == 0 ) != ( b.compare( 0, 2, "//" ) == 0 );   // the roots may differ
  VM_CHECK( network || steps.size() == la.size() - k + lb.size() - k, "relative:detour", "from " << SHOW( a ) << " to " << SHOW( b ) << " is " << SHOW( got ) );
  vm::event( k ? "relative_shared" : "relative_apart" );
  if( la == lb ) { vm::event( "relative_same" ); }
  Str rel = spelling( r, 0 );
  VM_CHECK( SystemTools::RelativePath( rel, b ).empty() && SystemTools::RelativePath( a, rel ).empty(), "relative:refused", SHOW( rel ) );
}

void names( vm::Rng& r )
{
  Str p = spelling( r );
  vm::note( "names of " + p );
  Str name = SystemTools::GetFilenameName( p ), path = SystemTools::GetFilenamePath( p );
  size_t s = p.rfind( '/' );
  VM_CHECK( name == ( s == Str::npos ? p : p.substr( s + 1 ) ), "name", SHOW( p ) << " has name " << SHOW( name ) );
  // the directory: what is left without the last component
  Strs c = parts( p );
  if( !c.empty() ) { c.pop_back(); }
  VM_CHECK( parts( path ) == c && full( path ) == full( p ), "directory", SHOW( p ) << " has directory " << SHOW( path ) );
  VM_CHECK( path == "/" || path == "//" || !ends( path ), "directory:slash", SHOW( p ) << " has directory " << SHOW( path ) );
  VM_CHECK( SystemTools::GetParentDirectory( p ) == path, "parent", SHOW( p ) << " has parent " << SHOW( SystemTools::GetParentDirectory( p ) ) );
  Str e = SystemTools::GetFilenameExtension( p ), w = SystemTools::GetFilenameWithoutExtension( p ), le = SystemTools::GetFilenameLastExtension( p ), lw = SystemTools::GetFilenameWithoutLastExtension( p );
  size_t first = name.find( '.' ), last = name.rfind( '.' );
  VM_CHECK( e == ( first == Str::npos ? "" : name.substr( first ) ) && w == name.substr( 0, first ), "extension", SHOW( p ) << " has extension " << SHOW( e ) << " of " << SHOW( w ) );
  VM_CHECK( le == ( last == Str::npos ? "" : name.substr( last ) ) && lw == name.substr( 0, last ), "last-extension", SHOW( p ) << " has last extension " << SHOW( le ) << " of " << SHOW( lw ) );
  VM_CHECK( SystemTools::FileIsFullPath( p ) == full( p ) && SystemTools::FileIsFullPath( p.c_str() ) == full( p ), "is-full", SHOW( p ) );
  VM_CHECK( SystemTools::GetActualCaseForPath( p ) == p && SystemTools::ComparePath( p, Str( p ) ) && !SystemTools::ComparePath( p, p + "x" ) && !SystemTools::ComparePath( "a" + p, "A" + p ), "compare", SHOW( p ) );
  Str sp;
  VM_CHECK( SystemTools::GetShortPath( p, sp ) && sp == p, "short", SHOW( p ) );
  if( e != le ) { vm::event( "several_extensions" ); }
  if( ends( p ) ) { vm::event( "names_trailing" ); }
  vm::event( "names" );
}

Str without_escapes( Str const& s )
{
  Str r;
  for( size_t i = 0; i < s.size(); ++i ) { if( s[ i ] == '\\' && i + 1 < s.size() && s[ i + 1 ] == ' ' ) { continue; } r += s[ i ]; }
  return r;
}

Str replaced( Str s, char from, char to ) { for( auto& c : s ) { if( c == from ) { c = to; } } return s; }

void conversions( vm::Rng& r )
{
  Str p = spelling( r );
  if( p.find( "\"" ) != Str::npos ) { p = replaced( p, '"', 'q' ); }
  // some separators the other way round, not in front of a space
  Str mixed = p;
  if( r.chance( 1, 2 ) ) { for( size_t i = 0; i < mixed.size(); ++i ) { if( mixed[ i ] == '/' && ( i + 1 == mixed.size() || mixed[ i + 1 ] != ' ' ) && r.chance( 1, 2 ) ) { mixed[ i ] = '\\'; } } }
  vm::note( "convert " + mixed );
  Str u = mixed;
  SystemTools::ConvertToUnixSlashes( u );
  VM_CHECK( parts( u ) == parts( p ) && full( u ) == full( p ), "unix-slashes", SHOW( mixed ) << " becomes " << SHOW( u ) );
  VM_CHECK( u.find( "//", 1 ) == Str::npos, "unix-slashes:double", SHOW( mixed ) << " becomes " << SHOW( u ) );
  VM_CHECK( u.size() < 2 || !ends( u ) || u == "//" || ( u.size() == 3 && u[ 1 ] == ':' ), "unix-slashes:trailing", SHOW( mixed ) << " becomes " << SHOW( u ) );
  Str again = u;
  SystemTools::ConvertToUnixSlashes( again );
  VM_CHECK( again == u || ( u.compare( 0, 2, "//" ) == 0 && again == u.substr( 1 ) ), "unix-slashes:idempotent", SHOW( mixed ) << " becomes " << SHOW( u ) << " becomes " << SHOW( again ) );
  if( mixed != p ) { vm::event( "backslashes" ); }
  // an escaped space stays one
  Str esc = "a\\ b/" + p;
  SystemTools::ConvertToUnixSlashes( esc );
  VM_CHECK( esc.compare( 0, 4, "a\\ b" ) == 0, "unix-slashes:escaped", SHOW( esc ) );

  Str o = SystemTools::ConvertToUnixOutputPath( p );
  VM_CHECK( parts( without_escapes( o ) ) == parts( p ) && full( o ) == full( p ), "unix-output", SHOW( p ) << " becomes " << SHOW( o ) );
  VM_CHECK( o.find( "//", 1 ) == Str::npos, "unix-output:double", SHOW( p ) << " becomes " << SHOW( o ) );
  for( size_t i = 0; i < o.size(); ++i ) { VM_CHECK( o[ i ] != ' ' || ( i && o[ i - 1 ] == '\\' ), "unix-output:space", SHOW( p ) << " becomes " << SHOW( o ) ); }
  VM_CHECK( SystemTools::ConvertToUnixOutputPath( o ) == o, "unix-output:idempotent", SHOW( o ) );
  VM_CHECK( SystemTools::ConvertToOutputPath( p ) == o, "output", SHOW( p ) );

  Str w = SystemTools::ConvertToWindowsOutputPath( p );
  bool spaced = p.find( ' ' ) != Str::npos && p.size() > 1;
  bool quoted = w.size() > 1 && w[ 0 ] == '"' && w[ w.size() - 1 ] == '"';
  VM_CHECK( quoted == spaced, "windows-output:quotes", SHOW( p ) << " becomes " << SHOW( w ) );
  Str in = quoted ? w.substr( 1, w.size() - 2 ) : w;
  VM_CHECK( in.find( '/' ) == Str::npos && in.find( "\\\\", 1 ) == Str::npos, "windows-output:slashes", SHOW( p ) << " becomes " << SHOW( w ) );
  // one that is quoted stays as it is, its separators aside
  {
    Str q = SystemTools::ConvertToWindowsOutputPath( "\"" + p + "\"" );
    VM_CHECK( q.size() >= 2 && q[ 0 ] == '"' && q[ q.size() - 1 ] == '"' && std::count( q.begin(), q.end(), '"' ) == 2 + std::count( p.begin(), p.end(), '"' ), "windows-output:quoted", SHOW( p ) << " in quotes becomes " << SHOW( q ) );
    Str qi = replaced( q.substr( 1, q.size() - 2 ), '\\', '/' );
    VM_CHECK( q.find( '/' ) == Str::npos && parts( qi ) == parts( p ) && full( qi ) == full( p ), "windows-output:quoted", SHOW( p ) << " in quotes becomes " << SHOW( q ) );
    vm::event( "quoted" );
  }
  Str back = replaced( in, '\\', '/' );
  VM_CHECK( parts( back ) == parts( p ) && full( back ) == full( p ), "windows-output", SHOW( p ) << " becomes " << SHOW( w ) );
  vm::event( "conversions" );
  if( spaced ) { vm::event( "spaces" ); }
}

// folders shown under other names
void translations( vm::Rng& r )
{
  // the table lasts as long as the process: each case has names of its own
  Str top = vm::dir() + "/tr" + std::to_string( vm::st().idx ) + "x" + std::to_string( r.below( 1000000 ) );
  mkdir( top.c_str(), 0755 );
  char real[ 5000 ];
  if( !realpath( top.c_str(), real ) ) { return; }
  top = real;
  Str d = top + "/dir", file = top + "/file", link = top + "/link", target = top + "/target", shown = "/vm-shown-" + top.substr( top.rfind( '/' ) + 1 );
  mkdir( d.c_str(), 0755 ); mkdir( target.c_str(), 0755 ); mkdir( ( top + "/dir-other" ).c_str(), 0755 ); mkdir( ( top + "/up" ).c_str(), 0755 );
  vm::spit( file, "x" );
  if( symlink( target.c_str(), link.c_str() ) ) { return; }
  SystemTools::AddTranslationPath( d + ( r.chance( 1, 2 ) ? "/" : "" ), shown + "/a" + ( r.chance( 1, 2 ) ? "/" : "" ) );
  // none of these are taken
  SystemTools::AddTranslationPath( file, shown + "/file" );
  SystemTools::AddTranslationPath( top + "/missing", shown + "/missing" );
  SystemTools::AddTranslationPath( top + "/dir-other", "not/full" );
  SystemTools::AddTranslationPath( top + "/up", shown + "/../up" );
  bool keep = r.chance( 1, 2 );
  if( keep ) { SystemTools::AddKeepPath( link ); }
  struct T { Str from, to; };
  std::vector< T > t = {
    { d, shown + "/a" }, { d + "/", shown + "/a" }, { d + "/x", shown + "/a/x" }, { d + "/x/../y/./z", shown + "/a/y/z" }, { top + "/other/../dir/w", shown + "/a/w" }, { top + "//dir//v", shown + "/a/v" },
    { top + "/dir-other/x", top + "/dir-other/x" }, { top + "/dirx", top + "/dirx" }, { file, file }, { top + "/missing/x", top + "/missing/x" }, { top + "/up/x", top + "/up/x" },
    { d + "/..", top }, { top, top }, { target + "/x", ( keep ? link : target ) + "/x" }, { target, keep ? link : target }, { link + "/x", link + "/x" } };
  for( T const& x : t )
  {
    Str got = SystemTools::CollapseFullPath( x.from );
    VM_CHECK( got == x.to, "translation", SHOW( x.from ) << " becomes " << SHOW( got ) << ", not " << SHOW( x.to ) );
    got = SystemTools::CollapseFullPath( x.from.substr( 1 ), "/" );
    VM_CHECK( got == x.to, "translation", SHOW( x.from ) << " on a base becomes " << SHOW( got ) << ", not " << SHOW( x.to ) );
    got = x.to;
    SystemTools::CheckTranslationPath( got );
    VM_CHECK( got == x.to, "translation-again", SHOW( x.to ) << " becomes " << SHOW( got ) );
  }
  vm::event( "translations" );
  if( keep ) { vm::event( "kept_paths" ); }
  vm::rmtree( top );
  vm::sig( r.u64() );
}

void homes( vm::Rng& r )
{
  Str home = r.pick( Strs{ "/home/u", "/", "/home/u/", "/home/with space", "//", "/a/b/c" } );
  Str tail = spelling( r, 0 );
  Str p = r.chance( 1, 4 ) ? "~" : "~/" + tail;
  Str whole = home + "/" + p.substr( 1 );
  Str old = ::getenv( "HOME" ) ? ::getenv( "HOME" ) : "";
  ::setenv( "HOME", home.c_str(), 1 );
  vm::note( "home " + home + " path " + p );
  Strs c;
  SystemTools::SplitPath( p, c );
  Str j = SystemTools::JoinPath( c );
  Str u = p;
  SystemTools::ConvertToUnixSlashes( u );
  Str col = SystemTools::CollapseFullPath( p, "/base" );
  Str dir = SystemTools::GetFilenamePath( p );
  Strs c2;
  SystemTools::SplitPath( p, c2, false );
  ::setenv( "HOME", old.c_str(), 1 );
  VM_CHECK( full( j ) && parts( j ) == parts( whole ), "home:split", SHOW( p ) << " with home " << SHOW( home ) << " becomes " << SHOW( j ) );
  VM_CHECK( full( u ) && parts( u ) == parts( whole ), "home:unix-slashes", SHOW( p ) << " with home " << SHOW( home ) << " becomes " << SHOW( u ) );
  VM_CHECK( full( col ) && parts( col ) == resolve( whole ), "home:collapse", SHOW( p ) << " with home " << SHOW( home ) << " becomes " << SHOW( col ) );
  VM_CHECK( c2[ 0 ] == "~/" && c2.size() == ( p.size() > 2 ? c.size() - ( parts( home ).size() ) : 1 ), "home:kept", SHOW( p ) << " has " << c2.size() << " parts" );
  Strs want = parts( whole );
  if( !want.empty() ) { want.pop_back(); }
  VM_CHECK( parts( dir ) == want, "home:directory", SHOW( p ) << " with home " << SHOW( home ) << " is in " << SHOW( dir ) );
  VM_CHECK( SystemTools::FileIsFullPath( p ) && SystemTools::FileIsFullPath( p.c_str() ), "is-full", SHOW( p ) );
  vm::event( "homes" );
  if( home == "/" ) { vm::event( "home_is_root" ); }
}

void inside( vm::Rng& r )
{
  int f = r.chance( 1, 2 );
  Str dir = spelling( r, f, false ), sub = r.chance( 2, 3 ) ? dir + "/" + spelling( r, 0, false ) : r.chance( 1, 3 ) ? dir + "x/y" : spelling( r, f, false );
  if( parts( dir ).empty() && !f ) { return; }
  vm::note( sub + " in " + dir );
  Strs d = parts( dir ), s = parts( sub );
  bool want = full( dir ) == full( sub ) && s.size() > d.size() && std::equal( d.begin(), d.end(), s.begin() );
  if( sub.compare( 0, 2, "//" ) == 0 || dir.compare( 0, 2, "//" ) == 0 ) { return; }   // a network path or not
  VM_CHECK( SystemTools::IsSubDirectory( sub, dir ) == want, "subdirectory", SHOW( sub ) << ( want ? " is" : " is not" ) << " in " << SHOW( dir ) );
  VM_CHECK( !SystemTools::IsSubDirectory( sub, "" ), "subdirectory", SHOW( sub ) << " in nothing" );
  vm::event( want ? "inside" : "outside" );
  if( want && d.empty() ) { vm::event( "inside_root" ); }
}

// the kernel's own opinion
Str tree;
void on_disk( vm::Rng& r )
{
  if( tree.empty() )
  {
    tree = vm::dir() + "/tree";
    for( char const* d : { "", "/a", "/a/a", "/a/b", "/b", "/b/a", "/b/b", "/c", "/c/with space", "/a/..." } ) { ::mkdir( ( tree + d ).c_str(), 0700 ); }
    for( char const* f : { "/a/c", "/b/c", "/a/a/c", "/c/.hidden", "/x.tar.gz" } ) { vm::spit( tree + f, f ); }
  }
  static Strs const names = { "a", "b", "c", ".", "..", "...", "with space", ".hidden", "x.tar.gz", "a", "b" };
  Str p;
  for( unsigned n = static_cast< unsigned >( r.range( 1, 7 ) ); n; --n ) { p += ( p.empty() ? "" : slashes( r ) ) + r.pick( names ); }
  if( r.chance( 1, 5 ) ) { p += slashes( r ); }
  struct stat a, b;
  Str whole = tree + "/" + p;
  if( ::stat( whole.c_str(), &a ) ) { vm::event( "not_on_disk" ); return; }
  auto same = [ & ]( Str const& q ) { return ::stat( q.c_str(), &b ) == 0 && a.st_ino == b.st_ino && a.st_dev == b.st_dev; };
  vm::note( "on disk " + whole );
  Str col = SystemTools::CollapseFullPath( p, tree );
  VM_CHECK( same( col ), "disk:collapse", SHOW( p ) << " in the tree is not " << SHOW( col ) );
  Str u = whole;
  SystemTools::ConvertToUnixSlashes( u );
  VM_CHECK( same( u ), "disk:unix-slashes", SHOW( whole ) << " is not " << SHOW( u ) );
  Str from = tree + r.pick( Strs{ "", "/a", "/a/b", "/c/with space", "/b//a/" } );
  Str rel = SystemTools::RelativePath( from, whole );
  VM_CHECK( same( from + "/" + rel ), "disk:relative", "from " << SHOW( from ) << " to " << SHOW( whole ) << " is not " << SHOW( rel ) );
  VM_CHECK( same( SystemTools::GetRealPath( whole ) ) , "disk:real", SHOW( whole ) << " is not " << SHOW( SystemTools::GetRealPath( whole ) ) );
  Str dir, file;
  bool ok = SystemTools::SplitProgramPath( whole, dir, file );
  VM_CHECK( ok && same( dir + "/" + file ) && SystemTools::GetProgramPath( whole ) == dir && ( file.empty() == ( S_ISDIR( a.st_mode ) != 0 ) ), "disk:program", SHOW( whole ) << " splits into " << SHOW( dir ) << " and " << SHOW( file ) );
  vm::event( "on_disk" );
}

// a program's directory when there is nothing but the root
void programs( vm::Rng& r )
{
  Str name = "no-such-program-" + r.str( "abc", 3, 6 );
  Str dir = "left over", file = "left over";
  bool ok = SystemTools::SplitProgramPath( "/" + name, dir, file );
  VM_CHECK( ok && dir == "/" && file == name && SystemTools::GetProgramPath( "/" + name ) == "/", "program:root", "/" << name << " is in " << SHOW( dir ) );
  ok = SystemTools::SplitProgramPath( name, dir, file );
  VM_CHECK( ok && dir.empty() && file == name, "program:none", name << " is in " << SHOW( dir ) );
  Str missing = tree + "/nowhere/" + name;
  ok = SystemTools::SplitProgramPath( missing, dir, file );
  VM_CHECK( !ok, "program:missing", missing << " is in " << SHOW( dir ) );
  vm::event( "programs" );
}

// working directories of any depth
void deep( vm::Rng& r )
{
  char old[ 4096 ];
  if( !::getcwd( old, sizeof old ) ) { std::_Exit( 3 ); }
  Str top = vm::dir() + "/deep";
  ::mkdir( top.c_str(), 0700 );
  if( ::chdir( top.c_str() ) ) { std::_Exit( 3 ); }
  Str where = top;
  size_t goal = static_cast< size_t >( r.range( 1500, 3800 ) );
  while( where.size() < goal )
  {
    Str n( std::min< size_t >( 200, goal - where.size() ), 'd' );
    ::mkdir( n.c_str(), 0700 );
    if( ::chdir( n.c_str() ) ) { std::_Exit( 3 ); }
    where += "/" + n;
  }
  Str got = SystemTools::CollapseFullPath( "some/../file" ), cwd = SystemTools::GetCurrentWorkingDirectory(), cwd2 = SystemTools::GetCurrentWorkingDirectory( true ), cwd3 = SystemTools::GetCurrentWorkingDirectory( false );
  if( ::chdir( old ) ) { std::_Exit( 3 ); }
  VM_CHECK( got == where + "/file", "collapse:deep", "in a directory of " << where.size() << " characters becomes " << SHOW( got.substr( 0, 60 ) ) );
  VM_CHECK( cwd == where && cwd2 == where && cwd3 == where, "cwd:deep", "directory of " << where.size() << " characters is called " << SHOW( cwd.substr( 0, 60 ) ) );
  vm::event( where.size() > 2048 ? "deep_beyond_2048" : "deep" );
}

// the working directory keeps the name by which the process was told about it
void logical( vm::Rng& r )
{
  static unsigned count = 0;
  char buf[ 4096 ];
  if( !::realpath( vm::dir().c_str(), buf ) ) { std::_Exit( 3 ); }
  Str top = Str( buf ) + "/logical-" + vm::str( count++ ), real = top, shown = top;
  ::mkdir( top.c_str(), 0700 );
  // a chain of directories, some of them entered through links
  Strs reals( 1, top ), showns( 1, top );
  for( unsigned k = 0, n = 1 + static_cast< unsigned >( r.below( 4 ) ); k < n; ++k )
  {
    Str name = "d" + vm::str( k ) + r.str( "ab c", 0, 3 ) + "e", link = r.chance( 1, 2 ) ? "l" + vm::str( k ) : "";
    ::mkdir( ( real + "/" + name ).c_str(), 0700 );
    if( !link.empty() )
    {
      if( ::symlink( r.chance( 1, 2 ) ? name.c_str() : ( real + "/" + name ).c_str(), ( real + "/" + link ).c_str() ) ) { std::_Exit( 3 ); }
    }
    shown += "/" + ( link.empty() || r.chance( 1, 4 ) ? name : link );
    real += "/" + name;
    reals.push_back( real );
    showns.push_back( shown );
  }
  Str pwd = shown;
  unsigned how = static_cast< unsigned >( r.below( 8 ) );
  bool truth = false;
  switch( how )
  {
  case 0: pwd = ""; break;                               // none at all
  case 1: pwd = top + "/missing"; break;
  case 2: pwd = "."; break;
  case 3: pwd = showns[ showns.size() - 2 ]; break;      // of a parent
  default: truth = true; if( r.chance( 1, 5 ) ) { pwd += "/"; }
  }
  // the shortest directory that still has two names
  Str from, to;
  if( truth )
  {
    Str a = real, b = shown;
    while( a != b )
    {
      char rp[ 4096 ];
      if( !::realpath( b.c_str(), rp ) || a != rp ) { break; }
      from = a; to = b;
      a = a.substr( 0, a.rfind( '/' ) );
      b = b.substr( 0, b.rfind( '/' ) );
    }
  }
  auto name = [ & ]( Str const& p ) { return !from.empty() && ( p + "/" ).compare( 0, from.size() + 1, from + "/" ) == 0 ? to + p.substr( from.size() ) : p; };
  Strs ask;
  ask.push_back( real );
  ask.push_back( real + "/x/../y" );
  ask.push_back( real + "beside" );
  ask.push_back( top );
  ask.push_back( reals[ r.below( reals.size() ) ] + "//z" );
  ask.push_back( "/tmp/x" );
  Str question;
  for( auto const& a : ask ) { question += a + "\n"; }
  int p[ 2 ];
  if( ::pipe( p ) ) { std::_Exit( 3 ); }
  pid_t c = ::fork();
  if( c == 0 )
  {
    ::dup2( p[ 1 ], 1 );
    ::setenv( "K01_ASKED", question.c_str(), 1 );
    if( how == 0 ) { ::unsetenv( "PWD" ); } else { ::setenv( "PWD", pwd.c_str(), 1 ); }
    if( ::chdir( real.c_str() ) ) { ::_exit( 4 ); }
    ::execl( "/proc/self/exe", "asked", static_cast< char* >( nullptr ) );
    ::_exit( 5 );
  }
  ::close( p[ 1 ] );
  Str out;
  char b[ 4096 ];
  ssize_t n;
  while( ( n = ::read( p[ 0 ], b, sizeof b ) ) > 0 ) { out.append( b, static_cast< size_t >( n ) ); }
  ::close( p[ 0 ] );
  int st = 0;
  ::waitpid( c, &st, 0 );
  VM_CHECK( WIFEXITED( st ) && WEXITSTATUS( st ) == 0, "logical:died", "status " << st << " in " << SHOW( real ) << " called " << SHOW( pwd ) );
  Strs got;
  for( size_t at; ( at = out.find( '\n' ) ) != Str::npos; out.erase( 0, at + 1 ) ) { got.push_back( out.substr( 0, at ) ); }
  VM_CHECK( got.size() == ask.size() + 2, "logical:answers", got.size() );
  Str t = " in " + SHOW( real ) + " called " + SHOW( pwd );
  VM_CHECK( got[ 0 ] == name( real + "/some/file" ), "logical:relative", "some/./file becomes " << SHOW( got[ 0 ] ) << t );
  VM_CHECK( name( got[ 1 ] ) == name( real ), "logical:cwd", SHOW( got[ 1 ] ) << t );
  for( size_t k = 0; k < ask.size(); ++k )
  {
    Str want = ask[ k ];
    if( k == 1 ) { want = real + "/y"; }
    if( k == 4 ) { want.erase( want.size() - 2, 1 ); }
    VM_CHECK( got[ k + 2 ] == name( want ), "logical:full", SHOW( ask[ k ] ) << " becomes " << SHOW( got[ k + 2 ] ) << ", not " << SHOW( name( want ) ) << t );
  }
  vm::event( !truth ? "told_wrong_directory" : from.empty() ? "told_real_directory" : "told_logical_directory" );
}

void one( vm::Rng& r, uint64_t i )
{
  for( int k = 0; k < 12; ++k )
  {
    split_and_join( r );
    collapse( r );
    relative( r );
    names( r );
    conversions( r );
    inside( r );
    if( k % 3 == 0 ) { homes( r ); on_disk( r ); on_disk( r ); on_disk( r ); }
  }
  programs( r );
  if( i % 20 == 7 ) { deep( r ); }
  if( i % 20 == 3 ) { translations( r ); }
  if( i % 40 == 11 ) { logical( r ); }
}

} // namespace

VM_MAIN( one )
