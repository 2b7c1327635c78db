// K06: what the file system helpers do to the disk.
// Two identical trees are built.  The library works on one, a reference made of plain system
// calls on the other; after each operation both complete trees must be the same, and nothing
// outside the named target may differ from before.  Everything runs as an unprivileged user
// who owns nothing but these trees; snapshots are taken with privileges back.
#include "vm.h"
#include <kwsys/Directory.hxx>
#include <kwsys/Glob.hxx>
#include <kwsys/SystemTools.hxx>
#include <algorithm>
#include <grp.h>
#include <sys/resource.h>
#include <sys/time.h>

typedef kwsys::SystemTools ST;
using namespace vm;
extern "C" void __sanitizer_set_report_fd( void* ) __attribute__( ( weak ) );

namespace {

uid_t const USER = 65534;

void user() { if( setresgid( USER, USER, 0 ) || setresuid( USER, USER, 0 ) ) { std::_Exit( 3 ); } }
void super() { if( setresuid( 0, 0, 0 ) || setresgid( 0, 0, 0 ) ) { std::_Exit( 3 ); } }
struct Super { Super() { super(); } ~Super() { user(); } };

struct Node
{
  char type = 'f';                 // f d l
  mode_t mode = 0;
  std::string data;                // content or link text
  long sec = 0, nsec = 0;          // files only; sec -1 = about now
  bool operator==( Node const& o ) const
  { return type == o.type && mode == o.mode && data == o.data && sec == o.sec && nsec == o.nsec; }
};
typedef std::map< std::string, Node > Tree;

std::string text( Node const& n )
{
  std::ostringstream o;
  o << n.type << " " << std::oct << n.mode << std::dec << " " << n.data.size() << " " << show( n.data.substr( 0, 30 ) ) << " @" << n.sec << "." << n.nsec;
  return o.str();
}

void read_tree( std::string const& root, std::string const& rel, Tree& t )
{
  std::string p = rel.empty() ? root : root + "/" + rel;
  struct stat s;
  if( lstat( p.c_str(), &s ) ) { return; }
  Node n;
  n.mode = s.st_mode & 07777;
  if( S_ISLNK( s.st_mode ) )
  {
    n.type = 'l'; n.mode = 0;
    char b[ 8192 ];
    ssize_t k = readlink( p.c_str(), b, sizeof b );
    n.data.assign( b, k > 0 ? static_cast< size_t >( k ) : 0 );
  }
  else if( S_ISDIR( s.st_mode ) )
  {
    n.type = 'd';
    if( DIR* d = opendir( p.c_str() ) )
    {
      std::vector< std::string > names;
      while( dirent* e = readdir( d ) )
      {
        std::string nm = e->d_name;
        if( nm != "." && nm != ".." ) { names.push_back( nm ); }
      }
      closedir( d );
      for( auto const& nm : names ) { read_tree( root, rel.empty() ? nm : rel + "/" + nm, t ); }
    }
  }
  else
  {
    n.type = S_ISREG( s.st_mode ) ? 'f' : '?';
    n.data = slurp( p );
    n.sec = s.st_mtim.tv_sec; n.nsec = s.st_mtim.tv_nsec;
    if( std::labs( n.sec - time( nullptr ) ) < 3600 ) { n.sec = -1; n.nsec = 0; }
  }
  t[ rel ] = n;
}

Tree snapshot( std::string const& root ) { Super s; Tree t; read_tree( root, "", t ); return t; }

// writes a tree to the disk, parents first
void materialise( Tree const& t, std::string const& root )
{
  Super s;
  rmtree( root );
  for( auto const& e : t )
  {
    std::string p = e.first.empty() ? root : root + "/" + e.first;
    Node const& n = e.second;
    if( n.type == 'd' ) { if( mkdir( p.c_str(), 0700 ) ) { std::perror( "mkdir" ); std::_Exit( 3 ); } }
    else if( n.type == 'l' ) { if( symlink( n.data.c_str(), p.c_str() ) ) { std::perror( "symlink" ); std::_Exit( 3 ); } }
    else
    {
      spit( p, n.data );
      struct timespec ts[ 2 ] = { { 1000000000, 5 }, { n.sec, n.nsec } };
      if( n.sec >= 0 ) { utimensat( AT_FDCWD, p.c_str(), ts, 0 ); }
    }
    if( lchown( p.c_str(), USER, USER ) ) { std::perror( "chown" ); std::_Exit( 3 ); }
  }
  for( auto e = t.rbegin(); e != t.rend(); ++e )
  {
    if( e->second.type != 'l' ) { chmod( ( e->first.empty() ? root : root + "/" + e->first ).c_str(), e->second.mode ); }
  }
}

std::string diff( Tree const& a, Tree const& b )
{
  std::ostringstream o;
  unsigned k = 0;
  for( auto const& e : a )
  {
    auto i = b.find( e.first );
    if( i == b.end() ) { o << "\n  only library: " << show( e.first ) << " " << text( e.second ); ++k; }
    else if( !( i->second == e.second ) ) { o << "\n  " << show( e.first ) << ": library " << text( e.second ) << " expected " << text( i->second ); ++k; }
    if( k > 8 ) { break; }
  }
  for( auto const& e : b )
  {
    if( k > 12 ) { break; }
    if( !a.count( e.first ) ) { o << "\n  missing: " << show( e.first ) << " " << text( e.second ); ++k; }
  }
  return o.str();
}

// -- reference ----------------------------------------------------------
bool r_isdir( std::string const& p ) { struct stat s; return stat( p.c_str(), &s ) == 0 && S_ISDIR( s.st_mode ); }
bool r_islink( std::string const& p ) { struct stat s; return lstat( p.c_str(), &s ) == 0 && S_ISLNK( s.st_mode ); }
bool r_readable( std::string const& p ) { return !p.empty() && access( p.c_str(), R_OK ) == 0; }
bool r_same( std::string const& a, std::string const& b )
{
  struct stat x, y;
  return stat( a.c_str(), &x ) == 0 && stat( b.c_str(), &y ) == 0 && x.st_dev == y.st_dev && x.st_ino == y.st_ino;
}
std::string r_name( std::string const& p ) { size_t k = p.rfind( '/' ); return k == std::string::npos ? p : p.substr( k + 1 ); }
std::string r_parent( std::string const& p ) { size_t k = p.rfind( '/' ); return k == std::string::npos ? "" : k == 0 ? "/" : p.substr( 0, k ); }

bool r_mkdir( std::string const& p )
{
  if( p.empty() ) { return false; }
  for( size_t i = 1; i <= p.size(); ++i )
  {
    if( i == p.size() || p[ i ] == '/' ) { mkdir( p.substr( 0, i ).c_str(), 0777 ); }
  }
  return r_isdir( p );
}

// 0 equal 1 different -1 cannot read
int r_differ( std::string const& a, std::string const& b )
{
  struct stat x, y;
  if( stat( a.c_str(), &x ) || stat( b.c_str(), &y ) ) { return 1; }
  if( x.st_size != y.st_size ) { return 1; }
  if( x.st_size == 0 ) { return 0; }
  if( access( a.c_str(), R_OK ) || access( b.c_str(), R_OK ) ) { return 1; }
  return slurp( a ) != slurp( b );
}

bool r_copy( std::string const& src, std::string const& dst )
{
  if( r_same( src, dst ) ) { return true; }
  struct stat s;
  if( stat( src.c_str(), &s ) ) { r_mkdir( r_isdir( dst ) ? dst : r_parent( dst ) ); return false; }
  if( S_ISDIR( s.st_mode ) )
  {
    if( !r_mkdir( dst ) ) { return false; }
    return chmod( dst.c_str(), s.st_mode & 07777 ) == 0;
  }
  std::string real = dst;
  if( r_isdir( dst ) ) { real = dst + "/" + r_name( src ); }
  else { std::string d = r_parent( dst ); if( !d.empty() ) { r_mkdir( d ); } }
  if( r_same( src, real ) ) { return true; }
  if( access( src.c_str(), R_OK ) ) { return false; }
  std::string data = slurp( src );
  unlink( real.c_str() );
  int fd = open( real.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666 );
  if( fd < 0 ) { return false; }
  size_t off = 0;
  while( off < data.size() )
  {
    ssize_t n = write( fd, data.data() + off, data.size() - off );
    if( n <= 0 ) { close( fd ); return false; }
    off += static_cast< size_t >( n );
  }
  close( fd );
  return chmod( real.c_str(), s.st_mode & 07777 ) == 0;
}

bool r_copy_if( std::string const& src, std::string const& dst )
{
  std::string real = r_isdir( dst ) ? dst + "/" + r_name( src ) : dst;
  return r_differ( src, real ) ? r_copy( src, dst ) : true;
}

std::vector< std::string > r_list( std::string const& p, bool* ok = nullptr )
{
  std::vector< std::string > v;
  DIR* d = opendir( p.c_str() );
  if( ok ) { *ok = d != nullptr; }
  if( !d ) { return v; }
  while( dirent* e = readdir( d ) ) { v.push_back( e->d_name ); }
  closedir( d );
  std::sort( v.begin(), v.end() );
  return v;
}

bool r_copy_dir( std::string const& src, std::string const& dst, bool always )
{
  bool ok = false;
  std::vector< std::string > v = r_list( src, &ok );
  if( !ok || !r_mkdir( dst ) ) { return false; }
  for( auto const& n : v )
  {
    if( n == "." || n == ".." ) { continue; }
    std::string s = src + "/" + n;
    if( r_isdir( s ) ) { if( !r_copy_dir( s, dst + "/" + n, always ) ) { return false; } }
    else if( !( always ? r_copy( s, dst ) : r_copy_if( s, dst ) ) ) { return false; }
  }
  return true;
}

bool r_remove_file( std::string const& p ) { return unlink( p.c_str() ) == 0 || errno == ENOENT; }

bool r_remove_dir( std::string const& p )
{
  struct stat s;
  if( lstat( p.c_str(), &s ) ) { return false; }
  if( S_ISLNK( s.st_mode ) ) { return unlink( p.c_str() ) == 0; }
  if( !S_ISDIR( s.st_mode ) ) { return false; }
  chmod( p.c_str(), ( s.st_mode & 07777 ) | S_IWUSR );
  for( auto const& n : r_list( p ) )
  {
    if( n == "." || n == ".." ) { continue; }
    std::string c = p + "/" + n;
    struct stat cs;
    if( lstat( c.c_str(), &cs ) == 0 && S_ISDIR( cs.st_mode ) ) { if( !r_remove_dir( c ) ) { return false; } }
    else if( !r_remove_file( c ) ) { return false; }
  }
  return rmdir( p.c_str() ) == 0;
}

bool r_touch( std::string const& p, bool create )
{
  if( p.empty() || access( p.c_str(), F_OK ) )
  {
    if( !create ) { return true; }
    int fd = open( p.c_str(), O_RDWR | O_CREAT | O_APPEND, 0666 );
    if( fd < 0 ) { return false; }
    close( fd );
    return true;
  }
  struct timespec ts[ 2 ] = { { 0, UTIME_OMIT }, { 0, UTIME_NOW } };
  return utimensat( AT_FDCWD, p.c_str(), ts, 0 ) == 0;
}

bool r_chmod( std::string const& p, mode_t m, bool mask )
{
  if( p.empty() || access( p.c_str(), F_OK ) ) { return false; }
  if( mask ) { mode_t u = umask( 0 ); umask( u ); m &= ~u; }
  return chmod( p.c_str(), m ) == 0;
}

// -- glob reference -------------------------------------------------------
bool bracket( std::string const& p, size_t& i, unsigned char c, bool& hit )
{
  size_t k = i + 1;
  bool neg = k < p.size() && ( p[ k ] == '!' || p[ k ] == '^' );
  if( neg ) { ++k; }
  size_t first = k, e = k;
  if( e < p.size() && p[ e ] == ']' ) { ++e; }
  while( e < p.size() && p[ e ] != ']' ) { ++e; }
  if( e >= p.size() ) { return false; }
  bool in = false;
  for( size_t q = first; q < e; ++q )
  {
    if( q + 2 < e && p[ q + 1 ] == '-' )
    {
      if( static_cast< unsigned char >( p[ q ] ) <= c && c <= static_cast< unsigned char >( p[ q + 2 ] ) ) { in = true; }
      q += 2;
    }
    else if( static_cast< unsigned char >( p[ q ] ) == c ) { in = true; }
  }
  hit = in != neg;
  i = e + 1;
  return true;
}

bool g_match( std::string const& p, size_t i, std::string const& s, size_t j )
{
  while( i < p.size() )
  {
    if( p[ i ] == '*' )
    {
      for( size_t k = j; k <= s.size(); ++k ) { if( g_match( p, i + 1, s, k ) ) { return true; } }
      return false;
    }
    if( j >= s.size() ) { return false; }
    if( p[ i ] == '?' ) { ++i; ++j; continue; }
    if( p[ i ] == '[' )
    {
      bool hit = false;
      size_t k = i;
      if( bracket( p, k, static_cast< unsigned char >( s[ j ] ), hit ) )
      {
        if( !hit ) { return false; }
        i = k; ++j;
        continue;
      }
    }
    if( p[ i ] != s[ j ] ) { return false; }
    ++i; ++j;
  }
  return j == s.size();
}

struct GlobRef
{
  bool recurse, follow, list_dirs, rlist_dirs;
  std::vector< std::string > comps;
  std::multiset< std::string > out;
  std::set< std::string > reached;            // real paths that must be represented
  bool cyclic = false;
  std::vector< std::string > stack;
  unsigned budget = 20000;

  static std::string real( std::string const& p ) { char* r = realpath( p.c_str(), nullptr ); std::string s = r ? r : ""; std::free( r ); return s; }

  void recursive( std::string const& d )
  {
    if( !budget ) { return; }
    std::string rp = real( d );
    if( std::find( stack.begin(), stack.end(), rp ) != stack.end() ) { cyclic = true; return; }
    stack.push_back( rp );
    for( auto const& n : r_list( d ) )
    {
      if( n == "." || n == ".." ) { continue; }
      if( budget ) { --budget; }
      std::string p = d + "/" + n;
      bool isdir = r_isdir( p ), link = r_islink( p );
      if( isdir && ( !link || follow ) )
      {
        if( rlist_dirs ) { out.insert( p ); }
        recursive( p );
      }
      else if( g_match( comps.back(), 0, n, 0 ) ) { out.insert( p ); reached.insert( rp + "/" + n ); }
    }
    stack.pop_back();
  }

  void go( size_t k, std::string const& d )
  {
    if( comps.empty() ) { return; }
    bool last = k + 1 == comps.size();
    if( last && recurse ) { recursive( d ); return; }
    for( auto const& n : r_list( d ) )
    {
      if( n == "." || n == ".." || !g_match( comps[ k ], 0, n, 0 ) ) { continue; }
      std::string p = d + "/" + n;
      bool isdir = r_isdir( p );
      if( !last ) { if( isdir ) { go( k + 1, p ); } }
      else if( !isdir || list_dirs ) { out.insert( p ); }
    }
  }
};

// -- the case ------------------------------------------------------------
size_t open_fds()
{
  size_t n = 0;
  for( int i = 0; i < 300; ++i ) { if( fcntl( i, F_GETFD ) >= 0 ) { ++n; } }
  return n;
}

struct World
{
  Rng& r;
  std::string base, A, B;                  // A/t and B/t are the working directories, A/o lies outside
  Tree state;
  std::vector< std::string > names;
  std::string trace;

  explicit World( Rng& rr, std::string const& b ) : r( rr ), base( b ), A( b + "/A" ), B( b + "/B" ) { }

  std::string content()
  {
    static size_t const sizes[] = { 0, 1, 2, 10, 100, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 20000 };
    size_t n = sizes[ r.below( r.chance( 1, 3 ) ? 13 : 5 ) ];
    std::string s;
    int kind = static_cast< int >( r.below( 3 ) );
    for( size_t i = 0; i < n; ++i ) { s += kind == 0 ? 'a' : kind == 1 ? static_cast< char >( r.u64() ) : static_cast< char >( r.range( 32, 126 ) ); }
    return s;
  }

  std::string name()
  {
    static std::vector< std::string > const fixed = { "a", "b", "c", "ab", "abc", "a.txt", "b.txt", "lib", "x y", ".h", "-n", "a[1]", "a+b", "(x)", "\xc3\xa9", "A", "a.b.c", "z^", "n,m", "$v" };
    std::string s = r.chance( 5, 6 ) ? r.pick( fixed ) : r.str( "abAB01._-+ ^$(){}|'\"#;,=@%!&", 1, 6 );
    return s == "." || s == ".." ? "dots" : s;
  }

  mode_t dmode() { static mode_t const m[] = { 0755, 0755, 0755, 0755, 0755, 0755, 0700, 0555, 0500, 0300, 0000 }; return m[ r.below( 11 ) ]; }
  mode_t fmode() { static mode_t const m[] = { 0644, 0644, 0644, 0644, 0755, 0600, 0444, 0400, 0200, 0000, 0666, 04755 }; return m[ r.below( 12 ) ]; }

  void build()
  {
    auto dir = [ & ]( std::string const& p, mode_t m ) { Node n; n.type = 'd'; n.mode = m; state[ p ] = n; };
    dir( "", 0755 ); dir( "t", 0755 ); dir( "o", 0755 );
    std::vector< std::string > dirs = { "t", "t", "o" };
    unsigned k = static_cast< unsigned >( r.range( 4, 22 ) );
    bool hard = r.chance( 1, 2 );                 // a tree with permission obstacles
    for( unsigned i = 0; i < k; ++i )
    {
      std::string p = r.pick( dirs ) + "/" + name();
      if( state.count( p ) ) { continue; }
      unsigned w = static_cast< unsigned >( r.below( 10 ) );
      if( w < 3 ) { dir( p, hard ? dmode() : 0755 ); if( p.size() < 120 ) { dirs.push_back( p ); } }
      else if( w < 8 )
      {
        Node n;
        n.mode = hard ? fmode() : 0644;
        n.data = content();
        if( r.chance( 1, 4 ) )                   // nearly the content of another file
        {
          std::vector< std::string > fs;
          for( auto const& e : state ) { if( e.second.type == 'f' ) { fs.push_back( e.first ); } }
          if( !fs.empty() )
          {
            n.data = state[ r.pick( fs ) ].data;
            if( !n.data.empty() && r.chance( 1, 2 ) ) { n.data[ r.chance( 1, 2 ) ? n.data.size() - 1 : r.below( n.data.size() ) ] ^= 1; }
          }
        }
        n.sec = 1000000000 + static_cast< long >( r.below( 4 ) );
        n.nsec = static_cast< long >( r.below( 3 ) ) * ( r.chance( 1, 2 ) ? 1 : 400000000 );
        state[ p ] = n;
      }
      else
      {
        Node n;
        n.type = 'l';
        n.data = link_text( p );
        state[ p ] = n;
      }
    }
    materialise( state, A );
    materialise( state, B );
  }

  // relative, so that it means the same in both trees
  std::string link_text( std::string const& at )
  {
    std::string up;
    for( size_t i = 0; i < at.size(); ++i ) { if( at[ i ] == '/' ) { up += "../"; } }
    switch( r.below( 8 ) )
    {
    case 0: return name();
    case 1: return ".";
    case 2: return "..";
    case 3: return up + "o/" + name();
    default:
      {
        std::vector< std::string > v;
        for( auto const& e : state ) { if( e.first.size() > 1 ) { v.push_back( e.first ); } }
        return v.empty() ? name() : up + r.pick( v );
      }
    }
  }

  // a path, relative to the working directory
  std::string path()
  {
    std::vector< std::string > v;
    for( auto const& e : state ) { if( e.first.size() > 2 ) { v.push_back( e.first ); } }
    std::string p = v.empty() || r.chance( 1, 8 ) ? "t/" + name() : r.pick( v );
    if( r.chance( 1, 6 ) ) { p += "/" + name(); }
    if( r.chance( 1, 12 ) ) { p += "/" + name(); }
    return p.compare( 0, 2, "t/" ) == 0 ? p.substr( 2 ) : "../" + p;
  }

  std::string path_of( char type )
  {
    std::vector< std::string > v;
    for( auto const& e : state ) { if( e.second.type == type && e.first.size() > 2 ) { v.push_back( e.first ); } }
    if( v.empty() || r.chance( 1, 12 ) ) { return path(); }
    std::string p = r.pick( v );
    return p.compare( 0, 2, "t/" ) == 0 ? p.substr( 2 ) : "../" + p;
  }
};

// what an operation may change: everything at or below these (paths relative to A), through links too
std::string canon( std::string const& cwd, std::string const& p )
{
  // real path of the parent, last component kept
  Super s;
  std::string full = p[ 0 ] == '/' ? p : cwd + "/" + p;
  std::string rest;
  while( full.size() > 1 )
  {
    size_t k = full.rfind( '/' );
    rest = full.substr( k ) + rest;
    full = full.substr( 0, k );
    char* q = realpath( full.c_str(), nullptr );
    if( q ) { full = q; std::free( q ); break; }
  }
  return full + rest;
}

bool has_loop( std::string const& d, std::vector< std::string >& stack, unsigned depth = 0 )
{
  std::string rp = GlobRef::real( d );
  if( std::find( stack.begin(), stack.end(), rp ) != stack.end() ) { return true; }
  if( depth > 30 ) { return true; }
  stack.push_back( rp );
  for( auto const& n : r_list( d ) )
  {
    if( n == "." || n == ".." || !r_isdir( d + "/" + n ) ) { continue; }
    if( has_loop( d + "/" + n, stack, depth + 1 ) ) { return true; }
  }
  stack.pop_back();
  return false;
}

void files_case( Rng& r, std::string const& base )
{
  World w( r, base );
  w.build();
  std::string TA = w.A + "/t", TB = w.B + "/t";
  unsigned ops = static_cast< unsigned >( r.range( 8, 30 ) );
  umask( r.chance( 1, 2 ) ? 022 : 077 );
  size_t fds = open_fds();
  auto in = [ & ]( std::string const& d ) { if( chdir( d.c_str() ) ) { Super s; if( chdir( d.c_str() ) ) { throw CaseSkip(); } } };
  for( unsigned o = 0; o < ops; ++o )
  {
    std::ostringstream what;
    bool abs = r.chance( 1, 4 );
    auto at = [ & ]( bool lib, std::string const& p ) { return abs && !p.empty() ? ( lib ? TA : TB ) + "/" + p : p; };
    unsigned k = static_cast< unsigned >( r.below( 40 ) );
    bool got = false, want = false, loose = false;
    char const* op = "";
    std::string p = w.path(), q = w.path();
    std::vector< std::string > targets;
    in( TA );
    if( k < 4 )
    {
      op = "MakeDirectory";
      if( r.chance( 1, 20 ) ) { p = ""; }
      if( r.chance( 1, 3 ) && !p.empty() ) { p += "/" + w.name() + ( r.chance( 1, 3 ) ? "/" : "" ); }
      what << show( p );
      note( std::string( op ) + " " + what.str() );
      got = r.chance( 1, 2 ) ? ST::MakeDirectory( at( true, p ) ) : ST::MakeDirectory( at( true, p ).c_str() );
      in( TB );
      std::string s = at( false, p );
      while( s.size() > 1 && s.back() == '/' ) { s.pop_back(); }
      want = r_mkdir( s );
    }
    else if( k < 14 )
    {
      bool always = k < 10;
      op = always ? "CopyFileAlways" : "CopyFileIfDifferent";
      if( r.chance( 3, 4 ) ) { p = w.path_of( 'f' ); }
      if( r.chance( 1, 4 ) ) { q = w.path_of( 'd' ); }
      else if( r.chance( 1, 6 ) ) { q = w.path_of( 'l' ); }
      else if( r.chance( 1, 6 ) ) { q = r_parent( p ); if( q.empty() ) { q = "."; } }
      // making the target's folder may bring a missing source to life
      if( ( r_isdir( p ) && !always ) || ( "/" + q + "/" ).find( "/" + p + "/" ) == 0 || ( r_islink( p ) && access( p.c_str(), F_OK ) ) ) { continue; }
      what << show( p ) << " -> " << show( q );
      note( std::string( op ) + " " + what.str() );
      bool a = r.chance( 1, 2 );
      std::string s = at( true, p ), d = at( true, q );
      got = a ? ST::CopyAFile( s, d, always ) : always ? ST::CopyFileAlways( s, d ) : ST::CopyFileIfDifferent( s, d );
      in( TB );
      want = always ? r_copy( at( false, p ), at( false, q ) ) : r_copy_if( at( false, p ), at( false, q ) );
      if( want && got )
      {
        in( TA );
        std::string real = r_isdir( q ) && !r_isdir( p ) ? q + "/" + r_name( p ) : q;
        if( r_readable( p ) && r_readable( real ) && !r_isdir( p ) ) { event( "complete copies" ); }
      }
    }
    else if( k < 18 )
    {
      op = "CopyADirectory";
      bool always = r.chance( 1, 2 );
      if( r.chance( 5, 6 ) ) { p = w.path_of( 'd' ); }
      if( r.chance( 1, 3 ) ) { q = w.path_of( 'd' ); }
      std::string cp, cq;
      {
        Super su;
        std::vector< std::string > st;
        if( has_loop( p, st ) ) { continue; }
        cp = GlobRef::real( p );
        // links may lead from the source into the target or back: undefined
        bool inside = false;
        cq = canon( TA, q );
        char* rq = realpath( q.c_str(), nullptr );
        std::string real_q = rq ? rq : cq;
        std::free( rq );
        std::vector< std::string > todo( 1, p );
        unsigned n = 0;
        while( !todo.empty() && ++n < 2000 )
        {
          std::string d = todo.back(); todo.pop_back();
          std::string rd = GlobRef::real( d );
          if( ( real_q + "/" ).find( rd + "/" ) == 0 || ( rd + "/" ).find( real_q + "/" ) == 0 ) { inside = true; break; }
          for( auto const& e : r_list( d ) )
          {
            if( e == "." || e == ".." ) { continue; }
            if( r_isdir( d + "/" + e ) ) { todo.push_back( d + "/" + e ); }
            else
            {
              std::string rf = GlobRef::real( d + "/" + e );
              if( ( rf + "/" ).find( real_q + "/" ) == 0 ) { inside = true; }
            }
          }
        }
        // links in the target may lead back into the source or elsewhere
        todo.assign( 1, q );
        n = 0;
        while( !todo.empty() && ++n < 2000 )
        {
          std::string d = todo.back(); todo.pop_back();
          for( auto const& e : r_list( d ) )
          {
            if( e == "." || e == ".." ) { continue; }
            if( r_islink( d + "/" + e ) ) { inside = true; }
            else if( r_isdir( d + "/" + e ) ) { todo.push_back( d + "/" + e ); }
          }
        }
        if( inside || n >= 2000 ) { continue; }
      }
      what << show( p ) << " -> " << show( q ) << ( always ? " always" : " if different" );
      note( std::string( op ) + " " + what.str() );
      got = ST::CopyADirectory( at( true, p ), at( true, q ), always );
      in( TB );
      want = r_copy_dir( at( false, p ), at( false, q ), always );
      loose = !want;
      targets.push_back( q );
    }
    else if( k < 21 )
    {
      op = "RemoveFile";
      if( r.chance( 1, 2 ) ) { p = w.path_of( r.chance( 1, 2 ) ? 'f' : 'l' ); }
      what << show( p );
      note( std::string( op ) + " " + what.str() );
      got = ST::RemoveFile( at( true, p ) );
      in( TB );
      want = r_remove_file( at( false, p ) );
    }
    else if( k < 24 )
    {
      op = "RemoveADirectory";
      if( r.chance( 1, 2 ) ) { p = w.path_of( 'd' ); }
      else if( r.chance( 1, 2 ) ) { p = w.path_of( 'l' ); }
      if( p == "../o" || p == "../t" || p == ".." || p == "." || ( r.chance( 1, 2 ) && p.find( '/' ) == std::string::npos ) ) { continue; }
      what << show( p );
      note( std::string( op ) + " " + what.str() );
      got = ST::RemoveADirectory( at( true, p ) );
      in( TB );
      want = r_remove_dir( at( false, p ) );
      loose = !want && r_isdir( at( false, p ) ) && !r_islink( at( false, p ) );
      targets.push_back( p );
    }
    else if( k < 27 )
    {
      op = "Touch";
      if( r.chance( 1, 2 ) ) { p = w.path_of( 'f' ); }
      bool create = r.chance( 1, 2 );
      what << show( p ) << " " << create;
      note( std::string( op ) + " " + what.str() );
      struct stat before, after;
      bool had = lstat( p.c_str(), &before ) == 0 && S_ISREG( before.st_mode );
      got = ST::Touch( at( true, p ), create );
      if( had && lstat( p.c_str(), &after ) == 0 )
      {
        VM_CHECK( before.st_atim.tv_sec == after.st_atim.tv_sec && before.st_atim.tv_nsec / 1000 == after.st_atim.tv_nsec / 1000,
                  "touch-access-time", what.str() << ": the access time changed" );
      }
      in( TB );
      want = r_touch( at( false, p ), create );
    }
    else if( k < 29 )
    {
      op = "CreateSymlink";
      std::string to = w.link_text( "t/" + p );
      if( r.chance( 1, 20 ) ) { to = ""; }
      if( r.chance( 1, 12 ) ) { to = r.str( "ab/", 200, 4000 ); }
      what << show( to ) << " as " << show( p );
      note( std::string( op ) + " " + what.str() );
      got = ST::CreateSymlink( to, at( true, p ) );
      if( got )
      {
        std::string back;
        VM_CHECK( ST::ReadSymlink( p, back ) && back == to, "symlink-text", what.str() << " reads back " << show( back ) );
      }
      in( TB );
      want = symlink( to.c_str(), at( false, p ).c_str() ) == 0;
    }
    else if( k < 32 )
    {
      op = "SetPermissions";
      mode_t m = r.chance( 1, 2 ) ? w.dmode() : w.fmode();
      bool mask = r.chance( 1, 2 );
      what << show( p ) << " " << std::oct << m << std::dec << " " << mask;
      note( std::string( op ) + " " + what.str() );
      got = r.chance( 1, 2 ) ? ST::SetPermissions( at( true, p ), m, mask ) : ST::SetPermissions( at( true, p ).c_str(), m, mask );
      in( TB );
      want = r_chmod( at( false, p ), m, mask );
    }
    else if( k < 33 )
    {
      // a file system that takes no more
      op = "CopyFileAlways on a full disk";
      p = w.path_of( 'f' );
      if( r_isdir( p ) || r_islink( p ) ) { continue; }
      q = "full-" + vm::str( o );
      std::string data = slurp( p );
      if( data.empty() || !r_readable( p ) || !r_readable( "." ) ) { continue; }
      what << show( p );
      note( std::string( op ) + " " + what.str() );
      struct rlimit keep, l;
      getrlimit( RLIMIT_FSIZE, &keep );
      signal( SIGXFSZ, SIG_IGN );
      l = keep;
      l.rlim_cur = r.below( data.size() );
      setrlimit( RLIMIT_FSIZE, &l );
      got = ST::CopyFileAlways( p, q );
      l.rlim_cur = keep.rlim_cur;
      setrlimit( RLIMIT_FSIZE, &l );
      VM_CHECK( !got, "copy-short-write", "copying " << data.size() << " bytes to a disk that takes fewer succeeded, "
                << slurp( q ).size() << " arrived" );
      VM_CHECK( slurp( p ) == data, "copy-short-write-source", "the source changed" );
      unlink( q.c_str() );
      event( "full disk" );
      in( TB );
    }
    else if( k < 34 )
    {
      // a source that cannot be read to its end
      op = "CopyFileAlways with a read error";
      q = "broken-" + vm::str( o );
      prctl( PR_SET_DUMPABLE, 1 );
      int fd = open( "/proc/self/mem", O_RDONLY );
      char b[ 16 ];
      bool fails = fd >= 0 && read( fd, b, sizeof b ) < 0;
      if( fd >= 0 ) { close( fd ); }
      if( !fails ) { continue; }
      note( op );
      got = ST::CopyFileAlways( "/proc/self/mem", q );
      VM_CHECK( !got, "copy-read-error", "a copy whose source gives a read error succeeded" );
      unlink( q.c_str() );
      event( "read error" );
      in( TB );
    }
    else
    {
      // questions: they must not change anything and answer for the tree as it is
      op = "questions";
      if( r.chance( 1, 2 ) ) { q = w.path_of( 'f' ); p = w.path_of( 'f' ); }
      what << show( p ) << " " << show( q );
      note( std::string( op ) + " " + what.str() );
      std::string s = at( true, p ), d = at( true, q );
      struct stat st_p, st_q;
      bool ok_p = stat( s.c_str(), &st_p ) == 0, ok_q = stat( d.c_str(), &st_q ) == 0;
      VM_CHECK( ST::FileExists( s ) == r_readable( s ) && ST::FileExists( s.c_str() ) == r_readable( s ), "file-exists", what.str() );
      VM_CHECK( ST::FileExists( s, true ) == ( r_readable( s ) && !r_isdir( s ) ), "file-exists-file", what.str() );
      VM_CHECK( ST::FileExists( s.c_str(), false ) == r_readable( s ), "file-exists-any", what.str() );
      VM_CHECK( ST::FileIsDirectory( s ) == r_isdir( s ), "is-directory", what.str() );
      if( ok_p && S_ISDIR( st_p.st_mode ) ) { VM_CHECK( ST::FileIsDirectory( s + "/" ), "is-directory-slash", what.str() ); }
      VM_CHECK( ST::FileIsSymlink( s ) == r_islink( s ), "is-symlink", what.str() );
      for( int m : { R_OK, W_OK, X_OK, F_OK, R_OK | W_OK, R_OK | X_OK } )
      {
        kwsys::TestFilePermissions fp = static_cast< kwsys::TestFilePermissions >(
          ( m & R_OK ? kwsys::TEST_FILE_READ : 0 ) | ( m & W_OK ? kwsys::TEST_FILE_WRITE : 0 ) | ( m & X_OK ? kwsys::TEST_FILE_EXECUTE : 0 ) );
        VM_CHECK( ST::TestFileAccess( s, fp ) == ( access( s.c_str(), m ) == 0 ), "file-access", what.str() << " " << m );
        VM_CHECK( ST::TestFileAccess( s.c_str(), fp ) == ( access( s.c_str(), m ) == 0 ) && !ST::TestFileAccess( static_cast< char const* >( nullptr ), fp ), "file-access-chars", what.str() << " " << m );
      }
      VM_CHECK( ST::FileLength( s ) == ( ok_p ? static_cast< unsigned long >( st_p.st_size ) : 0ul ), "file-length", what.str() );
      VM_CHECK( ST::ModifiedTime( s ) == ( ok_p ? static_cast< long >( st_p.st_mtime ) : 0l ), "modified-time", what.str() );
      VM_CHECK( ST::CreationTime( s ) == ( ok_p ? static_cast< long >( st_p.st_ctime ) : 0l ), "creation-time", what.str() );
      VM_CHECK( ST::SameFile( s, d ) == r_same( s, d ), "same-file", what.str() );
      mode_t m = 01234;
      bool gp = ST::GetPermissions( s, m );
      VM_CHECK( gp == ok_p && ( !gp || m == st_p.st_mode ), "get-permissions", what.str() );
      m = 01234;
      gp = ST::GetPermissions( s.c_str(), m );
      VM_CHECK( gp == ok_p && ( !gp || m == st_p.st_mode ) && !ST::GetPermissions( static_cast< char const* >( nullptr ), m ), "get-permissions-chars", what.str() );
      int res = 77;
      bool cmp = ST::FileTimeCompare( s, d, &res );
      int exp = 0;
      if( ok_p && ok_q )
      {
        long long x = st_p.st_mtim.tv_sec * 1000000000ll + st_p.st_mtim.tv_nsec, y = st_q.st_mtim.tv_sec * 1000000000ll + st_q.st_mtim.tv_nsec;
        exp = x < y ? -1 : x > y;
        event( exp ? "times differ" : "times equal" );
      }
      VM_CHECK( cmp == ( ok_p && ok_q ) && ( !cmp || res == exp ), "time-compare", what.str() << " gives " << cmp << " " << res << ", expected " << exp );
      if( !r_isdir( s ) && !r_isdir( d ) )
      {
        bool df = ST::FilesDiffer( s, d );
        VM_CHECK( df == ( r_differ( s, d ) != 0 ), "files-differ", what.str() << " gives " << df );
        event( df ? "files differ" : "files equal" );
      }
      std::string link = "untouched";
      bool isl = r_islink( s );
      bool rd = ST::ReadSymlink( s, link );
      if( isl )
      {
        char b[ 8192 ];
        ssize_t n = readlink( s.c_str(), b, sizeof b );
        VM_CHECK( rd && link == std::string( b, static_cast< size_t >( n ) ), "read-symlink", what.str() << " gives " << show( link ) );
      }
      else { VM_CHECK( !rd, "read-symlink-none", what.str() ); }
      {
        char* rp = realpath( s.c_str(), nullptr );
        std::string err, expect = rp ? rp : "";
        std::free( rp );
        std::string g = ST::GetRealPath( s, &err );
        if( !s.empty() ) { VM_CHECK( g == expect && err.empty() == !expect.empty(), "real-path", what.str() << " gives " << show( g ) << " error " << show( err ) ); }
      }
      if( ok_p && S_ISREG( st_p.st_mode ) && r_readable( s ) )
      {
        std::string data = slurp( s );
        long off = static_cast< long >( r.below( data.size() + 3 ) );
        std::string sg = r.chance( 1, 2 ) && off < static_cast< long >( data.size() ) ? data.substr( static_cast< size_t >( off ), 1 + r.below( 6 ) ) : r.str( "ab", 1, 4 );
        sg = sg.c_str();
        if( r.chance( 1, 3 ) && !sg.empty() ) { sg += 'a'; }
        bool e = !sg.empty() && off + static_cast< long >( sg.size() ) <= static_cast< long >( data.size() ) && data.compare( static_cast< size_t >( off ), sg.size(), sg ) == 0;
        if( !sg.empty() )
        {
          VM_CHECK( ST::FileHasSignature( s.c_str(), sg.c_str(), off ) == e, "signature", what.str() << " signature " << show( sg ) << " at " << off );
          event( e ? "signature found" : "signature not found" );
        }
        unsigned long len = r.chance( 1, 2 ) ? 256 : 1 + r.below( 300 );
        static double const limits[] = { 0.05, 0.0, 0.5, 1.0, 0.25 };
        double lim = limits[ r.below( 5 ) ];
        size_t n = std::min< size_t >( len, data.size() ), bin = 0;
        for( size_t i = 0; i < n; ++i )
        {
          unsigned char c = static_cast< unsigned char >( data[ i ] );
          if( !( ( c >= 0x20 && c <= 0x7e ) || c == '\n' || c == '\r' || c == '\t' ) ) { ++bin; }
        }
        ST::FileTypeEnum t = ST::DetectFileType( s.c_str(), len, lim );
        ST::FileTypeEnum et = n == 0 ? ST::FileTypeUnknown : static_cast< double >( bin ) / static_cast< double >( n ) > lim ? ST::FileTypeBinary : ST::FileTypeText;
        VM_CHECK( t == et, "file-type", what.str() << " length " << len << " limit " << lim << ": " << bin << " of " << n << " gives " << t );
        event( "file type " + vm::str( t ) );
      }
      else if( !ok_p || S_ISDIR( st_p.st_mode ) || !r_readable( s ) )
      {
        VM_CHECK( ST::DetectFileType( s.c_str() ) == ST::FileTypeUnknown, "file-type-unknown", what.str() );
        VM_CHECK( !ST::FileHasSignature( s.c_str(), "abc", 0 ), "signature-unknown", what.str() );
      }
      // listing
      bool okl = false;
      std::vector< std::string > ls = r_list( s, &okl );
      kwsys::Directory dd;
      bool gl = dd.Load( s );
      std::vector< std::string > gs;
      for( unsigned long i = 0; i < dd.GetNumberOfFiles(); ++i ) { gs.push_back( dd.GetFile( i ) ); }
      std::sort( gs.begin(), gs.end() );
      VM_CHECK( gl == okl && gs == ls && dd.GetFile( dd.GetNumberOfFiles() ) == nullptr, "listing", what.str() << " lists " << gs.size() << " of " << ls.size() );
      VM_CHECK( !gl || dd.GetPath() == s, "listing-path", what.str() );
      VM_CHECK( kwsys::Directory::GetNumberOfFilesInDirectory( s ) == ls.size(), "listing-count", what.str() );
      if( r.chance( 1, 2 ) )
      {
        bool okq = false;
        std::vector< std::string > lq = r_list( d, &okq );
        VM_CHECK( dd.Load( d ) == okq && dd.GetNumberOfFiles() == lq.size(), "listing-again", what.str() );
      }
      // program path
      {
        std::string dir = "x", file = "x";
        std::string e_dir = s, e_file;
        if( !s.empty() && s.find( "//" ) == std::string::npos && s[ 0 ] != '~' && s.find( "  " ) == std::string::npos )
        {
          if( !r_isdir( s ) ) { size_t z = s.rfind( '/' ); e_file = z == std::string::npos ? s : s.substr( z + 1 ); e_dir = z == std::string::npos ? "" : s.substr( 0, z ? z : 1 ); }
          bool sp = ST::SplitProgramPath( s, dir, file );
          bool e = e_dir.empty() || r_isdir( e_dir );
          VM_CHECK( sp == e && ( !sp || ( dir == e_dir && file == e_file ) ), "program-path", what.str() << " gives " << sp << " " << show( dir ) << " " << show( file ) );
        }
      }
      // change of directory
      if( r.chance( 1, 2 ) )
      {
        bool can = false;
        std::string there;
        if( chdir( s.c_str() ) == 0 ) { can = true; char b[ 5000 ]; there = getcwd( b, sizeof b ) ? b : ""; in( TA ); }
        int rc = ST::ChangeDirectory( s );
        std::string cwd = ST::GetCurrentWorkingDirectory( false );
        VM_CHECK( ( rc == 0 ) == can && cwd == ( can ? there : TA ), "change-directory", what.str() << " gives " << rc << " in " << show( cwd ) );
        in( TA );
        event( can ? "changed directory" : "refused directory" );
      }
      event( ok_p ? "question about something" : "question about nothing" );
      in( TB );
    }
    event( op );
    Tree a = snapshot( w.A ), b;
    VM_CHECK( got == want, std::string( op ) + "-result", what.str() << " gives " << got << ", expected " << want << "\nafter: " << diff( a, snapshot( w.B ) ) << "\nhistory:" << w.trace );
    size_t now = open_fds();
    VM_CHECK( now == fds, std::string( op ) + "-descriptors", what.str() << " leaves " << now << " descriptors open instead of " << fds );
    if( loose )
    {
      // a recursive operation stopped half way: what lies outside its target is as before
      std::string c = canon( TA, targets[ 0 ] );
      std::string top = w.A + "/";
      char* rp = nullptr;
      { Super s; rp = realpath( c.c_str(), nullptr ); }
      std::string alt = rp ? rp : c;
      std::free( rp );
      auto below = [ & ]( std::string const& rel )
      {
        std::string f = top + rel + "/";
        return f.find( c + "/" ) == 0 || f.find( alt + "/" ) == 0;
      };
      Tree x, y;
      for( auto const& e : w.state ) { if( !below( e.first ) ) { x[ e.first ] = e.second; } }
      for( auto const& e : a ) { if( !below( e.first ) ) { y[ e.first ] = e.second; } }
      // parents of a new target may have been made
      for( auto i = y.begin(); i != y.end(); )
      {
        if( !x.count( i->first ) && i->second.type == 'd' && ( c + "/" ).find( top + i->first + "/" ) == 0 ) { i = y.erase( i ); }
        else { ++i; }
      }
      VM_CHECK( x == y, std::string( op ) + "-outside", what.str() << " failed and changed something outside its target:" << diff( y, x ) );
      materialise( a, w.B );
      event( "stopped half way" );
    }
    else
    {
      b = snapshot( w.B );
      if( !( a == b ) )
      {
        std::ostringstream before;
        for( auto const& e : w.state ) { before << "\n  " << show( e.first ) << " " << text( e.second ); }
        VM_FAIL( std::string( op ) + "-effect", what.str() << " gives " << got << ":" << diff( a, b ) << "\nbefore:" << before.str() );
      }
    }
    event( want ? "succeeded" : "refused" );
    if( !( a == w.state ) ) { event( "tree changed" ); sig( vm::hash( what.str(), vm::hash( op ) ) ); }
    w.state = a;
    w.trace += std::string( "\n  " ) + op + " " + what.str() + ( got ? " ok" : " no" );
    if( w.trace.size() > 1500 ) { w.trace.erase( 0, w.trace.size() - 1500 ); }
    if( !a.count( "t" ) || a[ "t" ].mode != 0755 || a[ "" ].mode != 0755 || !a.count( "o" ) ) { return; }
  }
  sample( w.trace );
}

void find_case( Rng& r, std::string const& base )
{
  World w( r, base );
  w.build();
  std::string T = w.A + "/t";
  if( chdir( T.c_str() ) ) { return; }
  std::vector< std::string > dirs;
  for( auto const& e : w.state ) { if( e.second.type == 'd' && e.first.size() > 2 ) { dirs.push_back( w.A + "/" + e.first ); } }
  dirs.push_back( T ); dirs.push_back( w.A + "/o" ); dirs.push_back( w.A + "/nothing" );
  auto some = [ & ]( unsigned n ) { std::vector< std::string > v; for( unsigned i = 0; i < n; ++i ) { v.push_back( r.pick( dirs ) ); } return v; };
  auto joined = []( std::vector< std::string > const& v ) { std::string s; for( auto const& e : v ) { s += ( s.empty() ? "" : ":" ) + e; } return s; };
  auto plain = []( std::string const& s ) { return s.find( "  " ) == std::string::npos && s[ 0 ] != '~'; };
  for( unsigned o = 0; o < 12; ++o )
  {
    std::vector< std::string > sys = some( static_cast< unsigned >( r.range( 1, 4 ) ) ), mine = some( static_cast< unsigned >( r.below( 4 ) ) ), cm = some( static_cast< unsigned >( r.below( 3 ) ) );
    setenv( "PATH", joined( sys ).c_str(), 1 );
    if( cm.empty() ) { unsetenv( "CMAKE_FILE_PATH" ); } else { setenv( "CMAKE_FILE_PATH", joined( cm ).c_str(), 1 ); }
    std::string name = r_name( w.path() );
    if( r.chance( 1, 4 ) ) { name = w.name() + "/" + w.name(); }
    bool no_sys = r.chance( 1, 3 );
    std::vector< std::string > all;
    if( !no_sys ) { all = cm; all.insert( all.end(), sys.begin(), sys.end() ); }
    all.insert( all.end(), mine.begin(), mine.end() );
    std::vector< std::string > prog;
    if( !no_sys ) { prog = sys; }
    prog.insert( prog.end(), mine.begin(), mine.end() );
    std::string hit;
    for( auto const& d : all ) { if( r_readable( d + "/" + name ) ) { hit = d + "/" + name; break; } }
    note( "find " + name );
    std::string f = ST::FindFile( name, mine, no_sys ), d = ST::FindDirectory( name, mine, no_sys );
    bool isdir = !hit.empty() && r_isdir( hit );
    std::string full = hit;
    VM_CHECK( f == ( isdir ? "" : full ), "find-file", show( name ) << " gives " << show( f ) << ", expected " << show( isdir ? "" : full ) );
    VM_CHECK( d == ( isdir ? full : "" ), "find-directory", show( name ) << " gives " << show( d ) << ", expected " << show( isdir ? full : "" ) );
    std::string pe;
    if( r_readable( name ) && !r_isdir( name ) ) { pe = T + "/" + name; }
    for( auto const& x : prog ) { if( pe.empty() && r_readable( x + "/" + name ) && !r_isdir( x + "/" + name ) ) { pe = x + "/" + name; } }
    std::string pg = r.chance( 1, 2 ) ? ST::FindProgram( name, mine, no_sys ) : ST::FindProgram( name.c_str(), mine, no_sys );
    if( plain( name ) ) { VM_CHECK( pg == pe, "find-program", show( name ) << " gives " << show( pg ) << ", expected " << show( pe ) ); }
    std::vector< std::string > many = { w.name() + "no", name };
    VM_CHECK( ST::FindProgram( many, mine, no_sys ) == ST::FindProgram( name, mine, no_sys ) || r_readable( many[ 0 ] ), "find-program-names", show( name ) );
    // the running program: on the path, or where it was built, or where it is installed
    {
      std::string bd = r.pick( dirs ), ip = r.pick( dirs ), exe = r.chance( 1, 3 ) ? name : "vmprog";
      std::string bexe = bd + "/bin/./" + exe, iexe = ip + "/bin/" + exe, in_path;
      bool hasb = r.chance( 2, 3 ), hasi = r.chance( 2, 3 ), mb = r.chance( 1, 3 ), mi = r.chance( 1, 3 );
      std::vector< std::string > sys_only = sys;
      if( r_readable( name ) && !r_isdir( name ) ) { in_path = T + "/" + name; }
      for( auto const& x : sys_only ) { if( in_path.empty() && r_readable( x + "/" + name ) && !r_isdir( x + "/" + name ) ) { in_path = x + "/" + name; } }
      std::vector< std::string > put;
      auto make = [ & ]( std::string const& dd ) {
        if( mkdir( ( dd + "/bin" ).c_str(), 0755 ) == 0 ) { put.push_back( dd + "/bin" ); }
        int fd = open( ( dd + "/bin/vmprog" ).c_str(), O_CREAT | O_EXCL | O_WRONLY, 0755 );
        if( fd >= 0 ) { close( fd ); put.push_back( dd + "/bin/vmprog" ); }
      };
      if( mb ) { make( bd ); }
      if( mi ) { make( ip ); }
      std::string want_path;
      if( !in_path.empty() ) { want_path = in_path; }
      else if( hasb && r_readable( bexe ) ) { want_path = bexe; }
      else if( hasi && r_readable( iexe ) ) { want_path = iexe; }
      std::string got_path = "old", msg = "none";
      bool nothing = !r_readable( name ) && r.chance( 1, 5 ), ok;
      if( plain( name ) && name.find( '\\' ) == std::string::npos && !name.empty() && name.find( "//" ) == std::string::npos && *name.rbegin() != '/' )
      {
        if( nothing ) { want_path = hasb && r_readable( bexe ) ? bexe : hasi && r_readable( iexe ) ? iexe : ""; }
        ok = ST::FindProgramPath( nothing ? nullptr : name.c_str(), got_path, msg, exe.c_str(), hasb ? bd.c_str() : nullptr, hasi ? ip.c_str() : nullptr );
        VM_CHECK( ok == !want_path.empty(), "find-program-path", show( name ) << " or " << show( exe ) << " is " << ( ok ? "found as " + got_path : "not found" ) << ", expected " << show( want_path ) );
        if( ok ) { VM_CHECK( got_path == want_path && msg == "none", "find-program-path", show( name ) << " gives " << show( got_path ) << ", expected " << show( want_path ) ); }
        else
        {
          VM_CHECK( got_path == "old" && msg.find( exe ) != std::string::npos && ( nothing || msg.find( name ) != std::string::npos ), "find-program-path-message", show( name ) << " gives " << show( got_path ) << " and " << show( msg ) );
          if( hasb && hasi ) { VM_CHECK( msg.find( bexe ) != std::string::npos && msg.find( iexe ) != std::string::npos, "find-program-path-message", show( msg ) << " lacks " << bexe << " or " << iexe ); }
        }
        event( ok ? "program path" : "no program path" );
      }
      for( auto i = put.rbegin(); i != put.rend(); ++i ) { if( unlink( i->c_str() ) ) { rmdir( i->c_str() ); } }
    }
    // a library
    std::string le;
    if( r_readable( name ) && !r_isdir( name ) ) { le = T + "/" + name; }
    std::vector< std::string > lp = sys;
    lp.insert( lp.end(), mine.begin(), mine.end() );
    std::string stem = r.chance( 1, 2 ) ? "qq" : name;
    std::string made;
    if( stem == "qq" )
    {
      le.clear();
      static char const* const ext[] = { ".so", ".a", ".sl", ".dylib", ".dll", ".la" };
      for( unsigned i = 0; i < 2; ++i )
      {
        made = r.pick( lp ) + "/libqq" + ext[ r.below( 6 ) ];
        if( r.chance( 1, 4 ) ) { mkdir( made.c_str(), 0755 ); }
        else { int fd = open( made.c_str(), O_CREAT | O_WRONLY, 0644 ); if( fd >= 0 ) { close( fd ); } }
      }
    }
    for( auto const& x : lp )
    {
      for( char const* e : { ".so", ".a", ".sl", ".dylib", ".dll" } )
      {
        std::string c = x + "/lib" + stem + e;
        if( le.empty() && r_readable( c ) && !r_isdir( c ) ) { le = c; }
      }
    }
    std::string lg = ST::FindLibrary( stem, mine );
    VM_CHECK( lg == le, "find-library", show( stem ) << " gives " << show( lg ) << ", expected " << show( le ) );
    event( le.empty() ? "no library" : "library" );
    for( auto const& x : lp ) { for( char const* e : { ".so", ".a", ".sl", ".dylib", ".dll", ".la" } ) { std::string c = x + "/libqq" + e; unlink( c.c_str() ); rmdir( c.c_str() ); } }
    event( pe.empty() ? "no program" : "program" );
    event( hit.empty() ? "nothing found" : isdir ? "directory found" : "file found" );
    // locate
    {
      std::string fn = ( r.chance( 1, 2 ) ? "/foo/" : "" ) + ( r.chance( 1, 2 ) ? w.name() + "/" : std::string() ) + ( r.chance( 1, 2 ) ? w.name() + "/" : std::string() ) + w.name();
      std::string dir = r.chance( 1, 2 ) ? r.pick( dirs ) : w.path();
      std::string file = w.path_of( 'f' );
      if( r.chance( 1, 2 ) && file.find( '/' ) != std::string::npos )
      {
        // somewhere along the way to a file that is there, perhaps by a detour
        size_t cut = file.find( '/', file.compare( 0, 3, "../" ) == 0 ? 3 : 0 );
        if( cut != std::string::npos )
        {
          dir = file.substr( 0, cut );
          std::string mid = r_parent( file.substr( cut + 1 ) );
          fn = ( r.chance( 1, 2 ) ? w.name() + "/" : std::string() ) + ( mid.empty() ? "" : mid + "/" ) + ( r.chance( 1, 3 ) ? w.name() + "/" : std::string() ) + r_name( file );
        }
      }
      if( r.chance( 1, 6 ) && r_isdir( dir ) ) { dir += "/"; }
      int deeper = r.chance( 1, 2 );
      std::string found = "untouched";
      note( "locate " + fn + " in " + dir );
      bool got = ST::LocateFileInDir( fn.c_str(), dir.c_str(), found, deeper );
      std::string at = dir;
      auto named_dir = []( std::string x ) { if( x.size() > 1 && x.back() == '/' ) { x.pop_back(); } return r_isdir( x ); };
      if( !named_dir( dir ) ) { at = r_parent( dir ); }
      std::string sep = at.empty() || at.back() == '/' ? "" : "/";
      std::string b = r_name( fn ), exp = "untouched";
      bool want = false;
      if( r_readable( at + sep + b ) ) { want = true; exp = at + sep + b; }
      else if( deeper )
      {
        std::string rest = r_parent( fn ), suffix;
        while( !want && !rest.empty() && rest != "/" )
        {
          suffix = r_name( rest ) + "/" + suffix;
          rest = r_parent( rest );
          std::string c = at + sep + suffix + b;
          if( r_isdir( at + sep + suffix.substr( 0, suffix.size() - 1 ) ) && r_readable( c ) ) { want = true; exp = c; }
        }
      }
      if( fn.find( "  " ) == std::string::npos )
      {
        VM_CHECK( got == want && found == exp, "locate", show( fn ) << " in " << show( dir ) << ( deeper ? " deeper" : "" ) << " gives " << got << " " << show( found ) << ", expected " << want << " " << show( exp ) );
      }
      event( want ? "located" : "not located" );
    }
  }
}

void glob_case( Rng& r, std::string const& base )
{
  World w( r, base );
  w.build();
  std::string T = w.A + "/t";
  if( chdir( T.c_str() ) ) { return; }
  kwsys::Glob reused;
  for( unsigned o = 0; o < 14; ++o )
  {
    GlobRef ref;
    ref.recurse = r.chance( 1, 2 ); ref.follow = r.chance( 1, 2 ); ref.list_dirs = r.chance( 1, 2 ); ref.rlist_dirs = r.chance( 1, 2 );
    auto pattern = [ & ]( std::string s )
    {
      switch( r.below( 9 ) )
      {
      case 0: return std::string( "*" );
      case 1: return std::string( "?" ) + ( r.chance( 1, 2 ) ? "*" : "" );
      case 2: return std::string( "[" ) + ( r.chance( 1, 2 ) ? "!" : r.chance( 1, 2 ) ? "^" : "" ) + r.pick( std::vector< std::string >{ "a-c", "ab", "]a", "a-", "xa-b", "A-Z", "-a", "a^", "+-.", "a*", "b?" } ) + "]" + ( r.chance( 2, 3 ) ? "*" : "" );
      case 3: if( !s.empty() ) { s[ r.below( s.size() ) ] = '?'; } return s;
      case 4: if( !s.empty() ) { s.replace( r.below( s.size() ), 1 + r.below( 3 ), "*" ); } return s;
      case 5: return "*" + s.substr( s.size() / 2 );
      case 6: return s + ( r.chance( 1, 2 ) ? "[" : "*" );
      case 7: return r.str( "ab.*?[]!-", 1, 6 );
      default: return s;
      }
    };
    // split an existing path into literal prefix and patterns
    std::string p;
    { std::vector< std::string > v; for( auto const& e : w.state ) { if( e.first.size() > 2 ) { v.push_back( e.first ); } } p = v.empty() ? "t/a" : r.pick( v ); }
    std::vector< std::string > c;
    { size_t i = 0; while( i <= p.size() ) { size_t k = p.find( '/', i ); if( k == std::string::npos ) { k = p.size(); } c.push_back( p.substr( i, k - i ) ); i = k + 1; } }
    bool abs = r.chance( 1, 2 );
    size_t from = 0;
    std::string prefix;
    if( !abs && c[ 0 ] == "t" && c.size() > 1 ) { c.erase( c.begin() ); prefix = T; }
    else { abs = true; prefix = w.A; }
    while( from + 1 < c.size() && r.chance( 1, 3 ) ) { ++from; }
    std::vector< std::string > pats;
    for( size_t i = 0; i < c.size(); ++i ) { pats.push_back( i < from ? c[ i ] : pattern( c[ i ] ) ); }
    bool bad = false, range = false;
    for( auto const& x : pats )
    {
      if( x.empty() || x.find( '\\' ) != std::string::npos || x == "." || x == ".." ) { bad = true; }
      // reversed ranges have no meaning
      for( size_t i = 0; i + 2 < x.size(); ++i ) { if( x[ i + 1 ] == '-' && static_cast< unsigned char >( x[ i ] ) > static_cast< unsigned char >( x[ i + 2 ] ) && x.find( '[' ) != std::string::npos ) { range = true; } }
    }
    if( bad || range || ( !abs && pats[ 0 ][ 0 ] == '~' ) ) { continue; }
    std::string expr;
    for( auto const& x : pats ) { expr += ( expr.empty() ? "" : "/" ) + x; }
    if( abs ) { expr = w.A + "/" + expr; }
    // leading components without pattern are taken as they are
    ref.comps = pats;
    std::string start = prefix;
    while( ref.comps.size() > 1 && ref.comps[ 0 ].find_first_of( "*?[" ) == std::string::npos ) { start += "/" + ref.comps[ 0 ]; ref.comps.erase( ref.comps.begin() ); }
    // a '[' is only special when it is closed, yet the library stops looking for literal components there; both mean the same
    ref.go( 0, start );
    kwsys::Glob fresh;
    kwsys::Glob& g = r.chance( 1, 3 ) ? reused : fresh;
    g.SetRecurse( ref.recurse ); g.SetRecurseThroughSymlinks( ref.follow ); g.SetListDirs( ref.list_dirs ); g.SetRecurseListDirs( ref.rlist_dirs );
    bool relative = r.chance( 1, 5 ) && prefix == T;
    g.SetRelative( relative ? T.c_str() : nullptr );
    note( "glob " + expr + ( ref.recurse ? " recurse" : "" ) + ( ref.follow ? " follow" : "" ) );
    std::ostringstream what;
    what << show( expr ) << ( ref.recurse ? " recurse" : "" ) << ( ref.follow ? " follow" : "" ) << ( ref.list_dirs ? " dirs" : "" ) << ( ref.rlist_dirs ? " rdirs" : "" ) << ( relative ? " relative" : "" );
    kwsys::Glob::GlobMessages msgs;
    bool ok = r.chance( 1, 2 ) ? g.FindFiles( expr, &msgs ) : g.FindFiles( expr );
    VM_CHECK( ok, "glob-result", what.str() );
    std::multiset< std::string > got;
    bool skip = false;
    for( auto const& f : g.GetFiles() )
    {
      if( relative && f.find( "  " ) != std::string::npos ) { skip = true; }
      got.insert( relative ? T + "/" + f : f );
    }
    if( skip ) { continue; }
    if( ref.recurse && ref.follow && ref.cyclic )
    {
      std::set< std::string > real;
      for( auto const& f : got )
      {
        struct stat s;
        VM_CHECK( got.count( f ) == 1, "glob-duplicate", what.str() << ": " << show( f ) << " twice" );
        VM_CHECK( lstat( f.c_str(), &s ) == 0, "glob-nothing", what.str() << ": " << show( f ) << " does not exist" );
        bool isdir = S_ISDIR( s.st_mode ) || r_isdir( f );
        VM_CHECK( isdir ? ref.rlist_dirs : g_match( ref.comps.back(), 0, r_name( f ), 0 ), "glob-no-match", what.str() << ": " << show( f ) );
        real.insert( GlobRef::real( r_parent( f ) ) + "/" + r_name( f ) );
      }
      for( auto const& f : ref.reached ) { VM_CHECK( real.count( f ), "glob-missed", what.str() << " misses " << show( f ) ); }
      event( "glob through cycles" );
    }
    else if( ref.budget )
    {
      if( got != ref.out )
      {
        std::ostringstream d;
        for( auto const& f : got ) { if( got.count( f ) != ref.out.count( f ) ) { d << "\n  found " << got.count( f ) << " times " << show( f ); } }
        for( auto const& f : ref.out ) { if( !got.count( f ) ) { d << "\n  missed " << show( f ); } }
        VM_FAIL( "glob", what.str() << d.str() );
      }
      event( got.empty() ? "glob finds nothing" : ref.recurse ? "glob finds recursively" : "glob finds" );
    }
    if( !got.empty() ) { sig( vm::hash( ( abs ? expr.substr( base.size() ) : expr ) + what.str().substr( what.str().rfind( '"' ) ) ) ); }
  }
}

// files larger than an int or an unsigned int counts (nothing but holes, so they take no room)
void huge_case( Rng& r, std::string const& base )
{
  if( chdir( base.c_str() ) ) { std::_Exit( 3 ); }
  static long long const sizes[] = { 0x7fffffffll, 0x80000000ll, 0x80000001ll, 0xffffffffll, 0x100000000ll, 0x100000001ll, 0x100001000ll, 0x17fffffffll };
  long long z = sizes[ r.below( 8 ) ] + static_cast< long long >( r.below( 3 ) );
  long long at = r.chance( 1, 2 ) ? static_cast< long long >( r.below( 9000 ) ) : 0;
  for( int k = 0; k < 2; ++k )
  {
    int fd = open( k ? "huge-b" : "huge-a", O_RDWR | O_CREAT | O_TRUNC, 0600 );
    bool made = fd >= 0 && ftruncate( fd, z ) == 0 && pwrite( fd, k ? "xyz" : "xyw", 3, at ) == 3 && pwrite( fd, "sig", 3, z - 3 ) == 3;
    if( fd >= 0 ) { close( fd ); }
    if( !made ) { unlink( "huge-a" ); unlink( "huge-b" ); event( "no huge files here" ); return; }
  }
  std::ostringstream what;
  what << "two files of " << z << " bytes which differ at " << at + 2;
  note( what.str() );
  VM_CHECK( ST::FileLength( "huge-a" ) == static_cast< unsigned long >( z ), "huge-length", what.str() << " gives " << ST::FileLength( "huge-a" ) );
  VM_CHECK( ST::FilesDiffer( "huge-a", "huge-b" ), "huge-differ", what.str() );
  VM_CHECK( ST::FileExists( "huge-a", true ) && !ST::FileIsDirectory( "huge-a" ), "huge-exists", what.str() );
  VM_CHECK( ST::FileHasSignature( "huge-a", "sig", static_cast< long >( z - 3 ) ), "huge-signature", what.str() );
  VM_CHECK( !ST::FileHasSignature( "huge-a", "sig", static_cast< long >( z - 4 ) ), "huge-signature-before", what.str() );
  VM_CHECK( truncate( "huge-b", z - 0x100000000ll > 0 ? z - 0x100000000ll : z - 1 ) == 0, "huge-harness", "truncate" );
  VM_CHECK( ST::FilesDiffer( "huge-a", "huge-b" ), "huge-differ-length", what.str() );
  VM_CHECK( ST::RemoveFile( "huge-a" ) && ST::RemoveFile( "huge-b" ) && access( "huge-a", F_OK ), "huge-remove", what.str() );
  event( "huge files" );
  sig( vm::hash( what.str() ) );
}

void body( Rng& rng, uint64_t i )
{
  if( i % 16 == 0 ) { signal( SIGXFSZ, SIG_IGN ); }
  std::string parent = dir();
  // let the unprivileged user through to the scratch directory, and to nothing else
  for( size_t k = parent.size(); k > 1; )
  {
    std::string d = parent.substr( 0, k );
    struct stat s;
    if( stat( d.c_str(), &s ) ) { break; }
    if( ( s.st_mode & 1 ) || d == "/tmp" ) { if( d == "/tmp" ) { break; } }
    if( d.find( "verif-" ) == std::string::npos ) { break; }
    chmod( d.c_str(), 0711 );
    k = parent.rfind( '/', k - 1 );
  }
  char* rp = realpath( parent.c_str(), nullptr );
  std::string base = std::string( rp ? rp : parent ) + "/c" + vm::str( i );
  std::free( rp );
  mkdir( base.c_str(), 0755 );
  umask( 022 );
  if( chown( base.c_str(), USER, USER ) ) { std::perror( "chown" ); std::_Exit( 3 ); }
  in_child( [ & ]
  {
    int keep = fcntl( 2, F_DUPFD_CLOEXEC, 220 );
    if( keep >= 0 && __sanitizer_set_report_fd ) { __sanitizer_set_report_fd( reinterpret_cast< void* >( static_cast< long >( keep ) ) ); }
    umask( 022 );
    setgroups( 0, nullptr );
    user();
    prctl( PR_SET_PDEATHSIG, SIGKILL );
    if( access( base.c_str(), W_OK ) || getuid() != USER || geteuid() != USER ) { std::_Exit( 3 ); }
    unsigned kind = static_cast< unsigned >( rng.below( 10 ) );
    try
    {
      if( kind < 6 && rng.chance( 1, 8 ) ) { huge_case( rng, base ); }
      else if( kind < 6 ) { files_case( rng, base ); }
      else if( kind < 8 ) { glob_case( rng, base ); }
      else { find_case( rng, base ); }
    }
    catch( CaseFail const& ) { super(); if( chdir( "/" ) ) { } throw; }
    catch( CaseSkip const& ) { super(); if( chdir( "/" ) ) { } throw; }
    super();
    if( chdir( "/" ) ) { }
  }, 120 );
  rmtree( base.compare( 0, dir().size(), dir() ) == 0 ? base : dir() + "/c" + vm::str( i ) );
}

} // namespace

VM_MAIN( body )
