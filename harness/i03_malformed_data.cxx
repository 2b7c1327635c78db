// I03: malformed data files are refused without memory errors or invented data.
#include "vm.h"
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
#include <vital/types/landmark_map.h>
#include <vital/types/track_set.h>
#include <vital/types/feature.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/exceptions.h>
#include <algorithm>
#include <sys/stat.h>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

// what an unset local variable would be made of
__attribute__( ( noinline ) ) void poison_stack( unsigned char c )
{
  volatile unsigned char buf[ 32768 ];
  for( size_t i = 0; i < sizeof buf; ++i ) { buf[ i ] = c; }
}

// finds numbers in the order they are asked for, each spelled after the one before
struct Scan
{
  std::string s;
  size_t pos = 0;
  explicit Scan( std::string const& t ) : s( t ) { }
  static bool numchar( char c ) { return ( c >= '0' && c <= '9' ) || c == '+' || c == '-' || c == '.' || c == 'e' || c == 'E'; }
  template < class F > bool find( F match )
  {
    for( size_t p = pos; p < s.size(); ++p )
    {
      size_t e = p;
      while( e < s.size() && numchar( s[ e ] ) ) { ++e; }
      if( e == p ) { continue; }
      size_t used = match( s.substr( p, e - p ) );
      if( used ) { pos = p + used; return true; }
    }
    return false;
  }
  bool real( double v )
  {
    return find( [ & ]( std::string const& t ) -> size_t { char* e; double x = std::strtod( t.c_str(), &e ); return e != t.c_str() && x == v ? static_cast< size_t >( e - t.c_str() ) : 0; } );
  }
  bool integer( int64_t v )
  {
    return find( [ & ]( std::string const& t ) -> size_t { char* e; errno = 0; long long x = std::strtoll( t.c_str(), &e, 10 ); return e != t.c_str() && !errno && x == v ? static_cast< size_t >( e - t.c_str() ) : 0; } );
  }
  bool more() const
  {
    for( size_t p = pos; p < s.size(); ++p ) { if( s[ p ] >= '0' && s[ p ] <= '9' ) { return true; } }
    return false;
  }
};

std::vector< std::string > lines_of( std::string const& t )
{
  std::vector< std::string > l;
  size_t p = 0;
  while( p < t.size() )
  {
    size_t e = t.find( '\n', p );
    if( e == std::string::npos ) { e = t.size(); }
    std::string s = t.substr( p, e - p );
    if( s.find_first_not_of( " \t\r\v\f" ) != std::string::npos ) { l.push_back( s ); }
    p = e + 1;
  }
  return l;
}

std::vector< std::string > tokens_of( std::string const& s )
{
  std::vector< std::string > v;
  std::istringstream i( s );
  std::string t;
  while( i >> t ) { v.push_back( t ); }
  return v;
}

std::string head( std::string const& t ) { return vm::show( t.substr( 0, 2500 ) ); }

void check_camera( std::string const& t, camera const& c )
{
  auto k = c.intrinsics();
  VM_CHECK( k, "camera:no-intrinsics", head( t ) );
  Scan s( t );
  auto need = [ & ]( double v, char const* what ) { VM_CHECK( s.real( v ), std::string( "camera:invented-" ) + what, what << " " << v << " is not spelled, in its place, in " << head( t ) ); };
  need( k->focal_length(), "focal-length" );
  need( k->skew(), "skew" );
  need( k->principal_point()[ 0 ], "principal-point" );
  // the second focal length is spelled, the aspect ratio is its quotient
  {
    double f = k->focal_length(), a = k->aspect_ratio();
    bool ok = s.find( [ & ]( std::string const& x ) -> size_t
      { char* e; double v = std::strtod( x.c_str(), &e ); double q = f / v; return e != x.c_str() && ( q == a || ( std::isnan( q ) && std::isnan( a ) ) || std::fabs( q - a ) <= 1e-12 * std::fabs( a ) ) ? static_cast< size_t >( e - x.c_str() ) : 0; } );
    VM_CHECK( ok, "camera:invented-aspect-ratio", "no second focal length gives aspect ratio " << a << " in " << head( t ) );
  }
  need( k->principal_point()[ 1 ], "principal-point" );
  // the nine numbers of the rotation matrix come twelve places after the beginning; orthonormal ones are kept
  std::vector< std::string > tok = tokens_of( t );
  std::vector< double > v;
  for( size_t i = 0; i < tok.size() && i < 21; ++i )
  {
    char* e;
    double x = std::strtod( tok[ i ].c_str(), &e );
    if( *e ) { break; }
    v.push_back( x );
  }
  if( v.size() == 21 )
  {
    double worst = 0;
    for( int a = 0; a < 3; ++a ) { for( int b = 0; b < 3; ++b ) { double d = 0; for( int i = 0; i < 3; ++i ) { d += v[ static_cast< size_t >( 9 + a * 3 + i ) ] * v[ static_cast< size_t >( 9 + b * 3 + i ) ]; } worst = std::max( worst, std::fabs( d - ( a == b ) ) ); } }
    double const* R = &v[ 9 ];
    double det = R[ 0 ] * ( R[ 4 ] * R[ 8 ] - R[ 5 ] * R[ 7 ] ) - R[ 1 ] * ( R[ 3 ] * R[ 8 ] - R[ 5 ] * R[ 6 ] ) + R[ 2 ] * ( R[ 3 ] * R[ 7 ] - R[ 4 ] * R[ 6 ] );
    if( worst < 1e-9 && det > 0 )
    {
      matrix_3x3d m( c.rotation() );
      for( int i = 0; i < 9; ++i ) { VM_CHECK( std::fabs( m( i / 3, i % 3 ) - R[ i ] ) < 1e-7, "camera:invented-rotation", "element " << i << " is " << m( i / 3, i % 3 ) << " in " << head( t ) ); }
      for( int i = 0; i < 3; ++i )
      {
        double x = v[ static_cast< size_t >( 18 + i ) ], scale = std::fabs( v[ 18 ] ) + std::fabs( v[ 19 ] ) + std::fabs( v[ 20 ] );
        if( scale < 1e300 ) { VM_CHECK( std::fabs( c.translation()[ i ] - x ) <= 1e-7 * scale, "camera:invented-translation", "element " << i << " is " << c.translation()[ i ] << " in " << head( t ) ); }
      }
      vm::event( "camera_poses_compared" );
    }
  }
  Scan d( t );
  for( double x : k->dist_coeffs() ) { VM_CHECK( d.real( x ), "camera:invented-distortion", "coefficient " << x << " is not spelled in " << head( t ) ); }
}

void check_tracks( std::string const& t, track_set const& g )
{
  std::vector< std::string > l = lines_of( t );
  size_t states = 0;
  std::vector< std::pair< int64_t, track::track_state > > all;
  for( auto const& x : g.tracks() ) { for( auto const& s : *x ) { all.push_back( { x->id(), s } ); ++states; } }
  VM_CHECK( states == l.size(), "tracks:count", states << " states from " << l.size() << " lines of " << head( t ) );
  std::vector< bool > used( all.size() );
  for( auto const& line : l )
  {
    bool found = false;
    for( size_t i = 0; i < all.size() && !found; ++i )
    {
      if( used[ i ] || !all[ i ].second.feat ) { continue; }
      feature const& f = *all[ i ].second.feat;
      Scan s( line );
      if( !s.integer( all[ i ].first ) || !s.integer( all[ i ].second.frame_id ) || !s.real( f.loc()[ 0 ] ) || !s.real( f.loc()[ 1 ] ) || !s.real( f.magnitude() ) || !s.real( f.scale() ) || !s.real( f.angle() ) ) { continue; }
      if( s.more() ? ( s.integer( f.color().r ) && s.integer( f.color().g ) && s.integer( f.color().b ) ) : f.color() == rgb_color() ) { found = used[ i ] = true; }
    }
    VM_CHECK( found, "tracks:invented", "no state holds what is spelled in the line " << vm::show( line ) << " of " << head( t ) );
  }
}

void check_landmarks( std::string const& t, landmark_map const& g )
{
  std::vector< std::string > l = lines_of( t );
  size_t i = 0, declared = 0, elements = 0;
  std::vector< std::string > names;
  bool in = false, ended = false;
  for( ; i < l.size() && !ended; ++i )
  {
    std::vector< std::string > k = tokens_of( l[ i ] );
    if( k.size() == 1 && k[ 0 ] == "end_header" ) { ended = true; }
    else if( k.size() == 3 && k[ 0 ] == "element" && k[ 1 ] == "vertex" )
    {
      char* e;
      declared = std::strtoull( k[ 2 ].c_str(), &e, 10 );
      VM_CHECK( !*e && k[ 2 ][ 0 ] != '-', "ply:count-accepted", "the number of vertices " << vm::show( k[ 2 ] ) << " was accepted in " << head( t ) );
      ++elements;
      in = true;
    }
    else if( k[ 0 ] == "element" ) { in = false; }
    else if( in && k.size() == 3 && k[ 0 ] == "property" )
    {
      std::transform( k[ 2 ].begin(), k[ 2 ].end(), k[ 2 ].begin(), []( unsigned char c ) { return static_cast< char >( std::tolower( c ) ); } );
      names.push_back( k[ 2 ] );
    }
  }
  VM_CHECK( ended, "ply:no-header-end", "a file whose header does not end was accepted: " << head( t ) );
  if( elements > 1 ) { vm::event( "ply_two_vertex_elements" ); return; }
  auto m = g.landmarks();
  size_t rows = std::min( declared, l.size() - i );
  VM_CHECK( l.size() - i >= declared, "ply:truncated-accepted", declared << " vertices declared, " << l.size() - i << " lines follow, in " << head( t ) );
  VM_CHECK( m.size() <= rows, "ply:extra", m.size() << " landmarks from " << rows << " vertices of " << head( t ) );
  for( auto const& n : names ) { if( std::count( names.begin(), names.end(), n ) > 1 ) { vm::event( "ply_doubled_property" ); return; } }
  static std::map< std::string, std::string > alias = { { "vsfm_cnx", "nx" }, { "vsfm_cny", "ny" }, { "vsfm_cnz", "nz" }, { "diffuse_red", "red" }, { "diffuse_green", "green" }, { "diffuse_blue", "blue" }, { "number_of_camera_sees_this_point", "observations" } };
  std::set< int64_t > ids;
  for( size_t row = 0; row < rows; ++row )
  {
    std::vector< std::string > v = tokens_of( l[ i + row ] );
    VM_CHECK( v.size() == names.size(), "ply:columns", v.size() << " values for " << names.size() << " properties accepted in " << vm::show( l[ i + row ] ) << " of " << head( t ) );
    std::map< std::string, std::string > x;
    for( size_t c = 0; c < v.size(); ++c )
    {
      auto a = alias.find( names[ c ] );
      if( a != alias.end() && std::count( names.begin(), names.end(), a->second ) ) { vm::event( "ply_doubled_property" ); return; }
      x[ a == alias.end() ? names[ c ] : a->second ] = v[ c ];
    }
    auto whole = [ & ]( std::string const& n, double def )
    {
      if( !x.count( n ) ) { return def; }
      char* e;
      double r = std::strtod( x[ n ].c_str(), &e );
      VM_CHECK( !*e, "ply:not-a-number", "value " << vm::show( x[ n ] ) << " of " << n << " was accepted in " << head( t ) );
      return r;
    };
    int64_t id = x.count( "track_id" ) ? std::strtoll( x[ "track_id" ].c_str(), nullptr, 10 ) : static_cast< int64_t >( row );
    ids.insert( id );
    auto it = m.find( id );
    VM_CHECK( it != m.end() && it->second, "ply:lost", "vertex " << row << " with id " << id << " has no landmark, in " << head( t ) );
    // a later vertex of the same id may replace this one
    bool later = false;
    for( size_t q = row + 1; q < rows && !later; ++q )
    {
      std::vector< std::string > w = tokens_of( l[ i + q ] );
      for( size_t c = 0; c < w.size() && c < names.size(); ++c ) { if( names[ c ] == "track_id" && std::strtoll( w[ c ].c_str(), nullptr, 10 ) == id ) { later = true; } }
    }
    if( later ) { continue; }
    landmark const& p = *it->second;
    char const* nm[] = { "x", "y", "z", "nx", "ny", "nz" };
    for( int c = 0; c < 6; ++c )
    {
      double is = c < 3 ? p.loc()[ c ] : p.normal()[ c - 3 ], want = whole( nm[ c ], 0 );
      VM_CHECK( is == want, "ply:invented", nm[ c ] << " of vertex " << row << " is " << is << " in place of " << want << " in " << head( t ) );
    }
    double col[] = { static_cast< double >( p.color().r ), static_cast< double >( p.color().g ), static_cast< double >( p.color().b ), static_cast< double >( p.observations() ) };
    char const* cn[] = { "red", "green", "blue", "observations" };
    for( int c = 0; c < 4; ++c )
    {
      double want = whole( cn[ c ], c < 3 ? 255 : 0 );
      VM_CHECK( col[ c ] == want, "ply:invented", cn[ c ] << " of vertex " << row << " is " << col[ c ] << " in place of " << want << " in " << head( t ) );
    }
  }
  VM_CHECK( ids.size() == m.size(), "ply:extra", m.size() << " landmarks from " << ids.size() << " identifiers of " << head( t ) );
}

// -- inputs -----------------------------------------------------------------
std::string num( vm::Rng& r )
{
  char b[ 64 ];
  std::snprintf( b, sizeof b, "%.*g", static_cast< int >( r.range( 1, 17 ) ), r.chance( 1, 3 ) ? static_cast< double >( r.range( -20, 20 ) ) : r.gauss() * 100 );
  return b;
}

std::string valid( vm::Rng& r, int kind )
{
  std::string t;
  if( kind == 0 )
  {
    double a = r.real( -3, 3 ), f = r.real( 0.5, 2000 );
    char b[ 400 ];
    std::snprintf( b, sizeof b, "%.9g 0 %.9g\n0 %.9g %.9g\n0 0 1\n\n%.17g %.17g 0\n%.17g %.17g 0\n0 0 1\n\n", f, r.real( 0, 999 ), f * r.real( 0.5, 2 ), r.real( 0, 999 ), std::cos( a ), -std::sin( a ), std::sin( a ), std::cos( a ) );
    t = b;
    t += num( r ) + " " + num( r ) + " " + num( r ) + "\n\n";
    size_t n = static_cast< size_t >( r.range( 0, 8 ) );
    if( !n ) { t += "0"; }
    for( size_t i = 0; i < n; ++i ) { t += num( r ) + " "; }
    t += "\n";
  }
  else if( kind == 1 )
  {
    size_t n = static_cast< size_t >( r.range( 0, 6 ) );
    bool full = r.chance( 1, 2 ), rest = r.chance( 1, 2 );
    t = "ply\nformat ascii 1.0\ncomment x\nelement vertex " + std::to_string( n ) + "\nproperty float x\nproperty float y\nproperty float z\n";
    if( full ) { t += "property float nx\nproperty float ny\nproperty float nz\nproperty uchar red\nproperty uchar green\nproperty uchar blue\nproperty uint track_id\nproperty uint observations\n"; }
    if( rest ) { t += "element face 1\nproperty list uchar int vertex_indices\n"; }
    if( rest && r.chance( 1, 2 ) ) { t += "property float x\nproperty int track_id\n"; }
    t += "end_header\n";
    for( size_t i = 0; i < n; ++i )
    {
      t += num( r ) + " " + num( r ) + " " + num( r );
      if( full ) { t += " " + num( r ) + " " + num( r ) + " " + num( r ) + " " + std::to_string( r.range( 0, 255 ) ) + " " + std::to_string( r.range( 0, 255 ) ) + " " + std::to_string( r.range( 0, 255 ) ) + " " + std::to_string( r.range( 0, 9 ) + 10 * static_cast< long >( i ) ) + " " + std::to_string( r.range( 0, 99 ) ); }
      t += "\n";
    }
    if( rest ) { t += "3 0 1 2\n"; }
  }
  else
  {
    size_t n = static_cast< size_t >( r.range( 0, 8 ) );
    std::map< long, long > last;
    for( size_t i = 0; i < n; ++i )
    {
      long id = r.range( 0, 3 ), f = last.count( id ) ? last[ id ] + r.range( 1, 3 ) : r.range( 0, 5 );
      last[ id ] = f;
      t += std::to_string( id ) + " " + std::to_string( f ) + " " + num( r ) + " " + num( r ) + " " + num( r ) + " " + num( r ) + " " + num( r );
      if( r.chance( 2, 3 ) ) { t += " " + std::to_string( r.range( 0, 255 ) ) + " " + std::to_string( r.range( 0, 255 ) ) + " " + std::to_string( r.range( 0, 255 ) ); }
      t += "\n";
    }
  }
  return t;
}

std::string odd_token( vm::Rng& r )
{
  static std::vector< std::string > const odd = { "nan", "inf", "-inf", "1e999", "-1e-999", "0x1F", "1,5", "1.5.5", "--3", "+", "-", ".", "e", "1e", "1e+", "abc", "", "256", "-1", "300", "4294967296", "18446744073709551616", "9223372036854775808",
    "-9223372036854775809", "99999999999999999999999999", "1.0f", "12abc", "end_header", "element", "property", "ply", "vertex", "\xff\xfe", "1e308", "5e-324", "00012", "1 2", "2147483648", "0.0000000000000000000000000001", "x", "track_id", "-0" };
  if( r.chance( 1, 12 ) ) { return std::string( r.pick( std::vector< size_t >{ 100, 400, 5000 } ), r.pick( "019.-e " ) ); }
  if( r.chance( 1, 20 ) ) { return std::string( 1, '\0' ); }
  return r.pick( odd );
}

std::string mutate( vm::Rng& r, std::string t, std::string& how )
{
  unsigned n = static_cast< unsigned >( r.range( 1, 3 ) );
  for( unsigned i = 0; i < n; ++i )
  {
    unsigned m = static_cast< unsigned >( r.below( 11 ) );
    how += "tdbrlLiezsc"[ m ];
    size_t p = t.empty() ? 0 : r.below( t.size() );
    auto line = [ & ]( size_t& a, size_t& b )
    {
      a = t.rfind( '\n', p );
      a = a == std::string::npos ? 0 : a + 1;
      b = t.find( '\n', a );
      b = b == std::string::npos ? t.size() : b + 1;
    };
    size_t a = 0, b = 0;
    switch( m )
    {
    case 0: t.resize( p ); break;                                                        // truncated
    case 1: if( !t.empty() ) { t.erase( p, static_cast< size_t >( r.range( 1, 4 ) ) ); } break;
    case 2: if( !t.empty() ) { t[ p ] = static_cast< char >( r.below( 256 ) ); } break;
    case 3: if( !t.empty() ) { t[ p ] = r.pick( "0123456789+-.eE \n\txy" ); } break;
    case 4: if( !t.empty() ) { line( a, b ); t.erase( a, b - a ); } break;               // a line lost
    case 5: if( !t.empty() ) { line( a, b ); t.insert( b, t.substr( a, b - a ) ); } break;   // a line doubled
    case 6: t.insert( p, odd_token( r ) ); break;
    case 7:                                                                               // a token exchanged
      if( !t.empty() )
      {
        a = t.find_last_of( " \n\t", p );
        a = a == std::string::npos ? 0 : a + 1;
        b = t.find_first_of( " \n\t", a );
        if( b == std::string::npos ) { b = t.size(); }
        t.replace( a, b - a, odd_token( r ) );
      }
      break;
    case 8: { std::string o; for( char c : t ) { if( c == '\n' ) { o += '\r'; } o += c; } t = o; } break;
    case 9: { std::string o = t.substr( 0, p ); t = t.substr( p ) + o; } break;            // two parts exchanged
    default: t.insert( p, r.pick( std::vector< std::string >{ " ", "\n", "\n\n\n", "\t", "\r", "\v" } ) );
    }
    if( t.size() > 200000 ) { t.resize( 200000 ); }
  }
  return t;
}

int read_one( int kind, std::string const& path, std::string const& text, bool check, std::string& what )
{
  poison_stack( check ? 0x5a : 0xc3 );
  try
  {
    if( kind == 0 ) { camera_sptr c = read_krtd_file( path ); VM_CHECK( c, "camera:null", head( text ) ); if( check ) { check_camera( text, *c ); } }
    else if( kind == 1 ) { landmark_map_sptr g = read_ply_file( path ); VM_CHECK( g, "ply:null", head( text ) ); if( check ) { check_landmarks( text, *g ); } }
    else { track_set_sptr g = read_track_file( path ); VM_CHECK( g, "tracks:null", head( text ) ); if( check ) { check_tracks( text, *g ); } }
    return 0;
  }
  catch( io_exception const& e ) { what = e.what(); return 1; }
}

void files( vm::Rng& r )
{
  int kind = static_cast< int >( r.below( 3 ) );
  char const* kn[] = { "camera", "ply", "tracks" };
  std::string how, t;
  unsigned from = static_cast< unsigned >( r.below( 10 ) );
  if( from == 0 ) { t = valid( r, kind ); how = "valid"; }
  else if( from == 1 ) { how = "bytes"; size_t n = static_cast< size_t >( r.range( 0, 300 ) ); for( size_t i = 0; i < n; ++i ) { t += static_cast< char >( r.below( 256 ) ); } }
  else if( from == 2 ) { how = "soup"; size_t n = static_cast< size_t >( r.range( 0, 60 ) ); for( size_t i = 0; i < n; ++i ) { t += ( r.chance( 1, 3 ) ? odd_token( r ) : num( r ) ) + ( r.chance( 1, 5 ) ? "\n" : " " ); } }
  else if( from == 3 ) { t = valid( r, static_cast< int >( r.below( 3 ) ) ); how = "other"; }
  else { t = mutate( r, valid( r, kind ), how ); }
  std::string path = vm::dir() + "/f.dat", what;
  vm::note( std::string( kn[ kind ] ) + " " + head( t ) );
  vm::spit( path, t );
  int a = read_one( kind, path, t, true, what );
  size_t before = vm::live_bytes();
  std::string what2;
  int b = read_one( kind, path, t, false, what2 );
  what2.clear(); what2.shrink_to_fit();
  size_t after = vm::live_bytes();
  VM_CHECK( a == b, "not-deterministic", kn[ kind ] << ": " << a << " then " << b << " for " << head( t ) );
  VM_CHECK( after <= before + 64, "memory-kept", kn[ kind ] << ": " << after - before << " bytes kept, outcome " << a << " for " << head( t ) );
  VM_CHECK( a == 0 || !what.empty(), "no-reason", "the exception does not say why, for " << head( t ) );
  VM_CHECK( from != 0 || a == 0, "valid-refused", kn[ kind ] << " refused: " << what << " for " << head( t ) );
  vm::event( std::string( kn[ kind ] ) + ( a ? "_refused" : "_accepted" ) );
  std::ostringstream k;
  k << kind << a << how << t.size() / 60 << lines_of( t ).size();
  vm::sig( k.str() );
  if( a && from > 3 && vm::st().samples.size() < 3 ) { vm::sample( std::string( kn[ kind ] ) + " refused (" + what + "): " + t.substr( 0, 300 ) ); }
  // a directory of cameras with a malformed one does not pass for a good one
  if( kind == 0 && r.chance( 1, 4 ) )
  {
    std::string d = vm::dir() + "/cams";
    ::mkdir( d.c_str(), 0755 );
    vm::spit( d + "/im0.krtd", valid( r, 0 ) );
    vm::spit( d + "/im1.krtd", t );
    int got;
    try { camera_map_sptr m = read_krtd_files( { "im0.png", "im1.png" }, d ); got = m->size() == 2 ? 0 : 2; }
    catch( io_exception const& ) { got = 1; }
    VM_CHECK( got == a, "map-differs", "the file alone is " << ( a ? "refused" : "accepted" ) << " but the directory gives " << got << " for " << head( t ) );
    vm::event( "directories" );
  }
}

void no_files( vm::Rng& r )
{
  std::string d = vm::dir() + "/d", what;
  ::mkdir( d.c_str(), 0755 );
  std::vector< std::string > paths = { d, d + "/", d + "/missing", d + "/missing/deeper", "", d + "/" + std::string( 300, 'n' ), d + "/" + std::string( 5000, 'n' ), d + "/link", d + "/loop" };
  if( ::symlink( ( d + "/nowhere" ).c_str(), ( d + "/link" ).c_str() ) ) { }
  if( ::symlink( ( d + "/loop" ).c_str(), ( d + "/loop" ).c_str() ) ) { }
  for( auto const& p : paths )
  {
    for( int kind = 0; kind < 3; ++kind )
    {
      vm::note( "not a file: " + vm::show( p ) );
      int a = read_one( kind, p, "", false, what );
      VM_CHECK( a == 1, "no-file-accepted", "reader " << kind << " gave data for " << vm::show( p ) );
      vm::event( "no_file" );
    }
  }
  // an empty file
  vm::spit( d + "/empty", "" );
  VM_CHECK( read_one( 0, d + "/empty", "", true, what ) == 1, "empty-camera-accepted", "an empty file is no camera" );
  VM_CHECK( read_one( 1, d + "/empty", "", true, what ) == 1, "empty-ply-accepted", "an empty file is no PLY file" );
  // every truncation of one valid file of each kind
  for( int kind = 0; kind < 3; ++kind )
  {
    std::string t = valid( r, kind );
    for( size_t n = 0; n <= t.size(); ++n )
    {
      std::string s = t.substr( 0, n );
      vm::note( "truncated: " + head( s ) );
      vm::spit( d + "/t", s );
      int a = read_one( kind, d + "/t", s, true, what );
      VM_CHECK( n < t.size() || !a, "valid-refused", what << " for " << head( t ) );
      vm::event( "truncations" );
    }
  }
  vm::rmtree( d );
}

void body( vm::Rng& r, uint64_t i )
{
  if( i % 200 == 199 ) { no_files( r ); }
  else { vm::OtherLocale other( r.chance( 1, 8 ) ); for( int n = 0; n < 4; ++n ) { files( r ); } }
}

} // namespace

VM_MAIN( body )
