// I02: landmark and track files hold what was written.
#include "vm.h"
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/track_set.h>
#include <vital/types/feature.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/exceptions.h>
#include <algorithm>
#include <limits>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

double number( vm::Rng& r )
{
  switch( r.below( 8 ) )
  {
  case 0: return 0.0;
  case 1: return -0.0;
  case 2: return static_cast< double >( r.range( -1000, 1000 ) );
  case 3: return r.gauss() * 1e6;                    // geographic coordinates
  case 4: return r.gauss() * std::pow( 10.0, r.real( -300, 300 ) );
  case 5: return 1.0 / static_cast< double >( r.range( 1, 1000 ) );
  case 6: return r.pick( std::vector< double >{ std::numeric_limits< double >::max(), std::numeric_limits< double >::min(), -std::numeric_limits< double >::max(), 5e-324, 0.1, 1e15 + 0.3 } );
  default: return r.gauss();
  }
}

float fnumber( vm::Rng& r )
{
  double v = number( r );
  return std::fabs( v ) > 1e38 ? 1.1754942e-38f : static_cast< float >( v );
}

int64_t ident( vm::Rng& r )
{
  switch( r.below( 5 ) )
  {
  case 0: return static_cast< int64_t >( r.u64() );
  case 1: return r.pick( std::vector< int64_t >{ 0, 1, -1, std::numeric_limits< int64_t >::max(), std::numeric_limits< int64_t >::min(), 2147483648LL, -2147483649LL } );
  default: return r.range( 0, 60 );
  }
}

rgb_color color( vm::Rng& r )
{
  auto c = [ & ]() { return static_cast< unsigned char >( r.chance( 1, 4 ) ? r.pick( std::vector< int >{ 0, 255, 127, 128, 10, 32 } ) : r.range( 0, 255 ) ); };
  unsigned char a = c(), b = c(), d = c();
  return rgb_color( a, b, d );
}

std::string path_of( vm::Rng& r, std::string const& base )
{
  std::string p = base;
  if( r.chance( 1, 3 ) ) { p += "/new folder"; }
  if( r.chance( 1, 6 ) ) { p += "/a/b"; }
  return p + "/" + r.str( "abcXYZ019_-. ", 1, 12 ) + "k" + r.pick( std::vector< std::string >{ ".ply", "", ".txt" } );
}

struct Lm { double x[ 3 ], n[ 3 ]; rgb_color c; unsigned obs; };

std::string show( Lm const& l )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << "(" << l.x[ 0 ] << " " << l.x[ 1 ] << " " << l.x[ 2 ] << " n " << l.n[ 0 ] << " " << l.n[ 1 ] << " " << l.n[ 2 ]
    << " c " << +l.c.r << " " << +l.c.g << " " << +l.c.b << " obs " << l.obs << ")";
  return o.str();
}

bool same( Lm const& a, Lm const& b )
{
  for( int i = 0; i < 3; ++i )
  {
    if( a.x[ i ] != b.x[ i ] || a.n[ i ] != b.n[ i ] ) { return false; }
  }
  return a.c == b.c && a.obs == b.obs;
}

typedef std::map< int64_t, Lm > Lms;

void compare( Lms const& w, landmark_map_sptr g, std::string const& how, std::string const& path )
{
  VM_CHECK( g, how + ":null", "no landmark map" );
  auto m = g->landmarks();
  VM_CHECK( g->size() == m.size(), how + ":size", g->size() << " against " << m.size() );
  for( auto const& e : w )
  {
    auto it = m.find( e.first );
    VM_CHECK( it != m.end() && it->second, how + ":lost", "landmark " << e.first << " " << show( e.second ) << " is not read; " << w.size() << " written, " << m.size() << " read; file starts\n"
              << vm::slurp( path ).substr( 0, 1200 ) );
    Lm h;
    for( int i = 0; i < 3; ++i ) { h.x[ i ] = it->second->loc()[ i ]; h.n[ i ] = it->second->normal()[ i ]; }
    h.c = it->second->color();
    h.obs = it->second->observations();
    VM_CHECK( same( h, e.second ), how + ":values", "landmark " << e.first << " written " << show( e.second ) << " read " << show( h ) );
  }
  VM_CHECK( m.size() == w.size(), how + ":added", w.size() << " landmarks written, " << m.size() << " read; file\n" << vm::slurp( path ).substr( 0, 1200 ) );
  vm::event( "landmarks_compared", w.size() );
}

Lms random_landmarks( vm::Rng& r, bool single )
{
  Lms l;
  size_t n = r.chance( 1, 40 ) ? static_cast< size_t >( r.range( 500, 3000 ) ) : static_cast< size_t >( r.range( 1, 20 ) );
  unsigned idkind = static_cast< unsigned >( r.below( 3 ) );
  for( size_t i = 0; i < n; ++i )
  {
    Lm m;
    for( int k = 0; k < 3; ++k ) { m.x[ k ] = single ? fnumber( r ) : number( r ); m.n[ k ] = r.chance( 1, 3 ) ? 0 : single ? fnumber( r ) : number( r ); }
    m.c = color( r );
    m.obs = r.chance( 1, 5 ) ? r.pick( std::vector< unsigned >{ 0, 4294967295u, 2147483648u, 1 } ) : static_cast< unsigned >( r.range( 0, 300 ) );
    l[ idkind == 0 ? static_cast< int64_t >( i ) : ident( r ) ] = m;
  }
  return l;
}

landmark_map_sptr build( Lms const& l, bool single )
{
  landmark_map::map_landmark_t m;
  for( auto const& e : l )
  {
    Lm const& s = e.second;
    if( single )
    {
      auto p = std::make_shared< landmark_f >( vector_3f( static_cast< float >( s.x[ 0 ] ), static_cast< float >( s.x[ 1 ] ), static_cast< float >( s.x[ 2 ] ) ) );
      p->set_normal( vector_3f( static_cast< float >( s.n[ 0 ] ), static_cast< float >( s.n[ 1 ] ), static_cast< float >( s.n[ 2 ] ) ) );
      p->set_color( s.c );
      p->set_observations( s.obs );
      m[ e.first ] = p;
    }
    else
    {
      auto p = std::make_shared< landmark_d >( vector_3d( s.x[ 0 ], s.x[ 1 ], s.x[ 2 ] ) );
      p->set_normal( vector_3d( s.n[ 0 ], s.n[ 1 ], s.n[ 2 ] ) );
      p->set_color( s.c );
      p->set_observations( s.obs );
      m[ e.first ] = p;
    }
  }
  return landmark_map_sptr( new simple_landmark_map( m ) );
}

std::string num( vm::Rng& r, double v )
{
  char b[ 400 ];
  std::snprintf( b, sizeof b, r.pick( std::vector< char const* >{ "%.17g", "%.17e", "%.19g" } ), v );
  return b;
}

void foreign_ply( vm::Rng& r, Lms const& l, std::string const& path )
{
  std::vector< std::pair< std::string, int > > props;   // name, field
  bool vsfm = r.chance( 1, 3 );
  bool normals = r.chance( 2, 3 ), colors = r.chance( 2, 3 ), ids = r.chance( 2, 3 ), obs = r.chance( 2, 3 );
  for( int i = 0; i < 3; ++i ) { props.push_back( { std::string( 1, static_cast< char >( ( r.chance( 1, 4 ) ? 'X' : 'x' ) + i ) ), i } ); }
  if( normals ) { for( int i = 0; i < 3; ++i ) { props.push_back( { std::string( vsfm ? "vsfm_cn" : "n" ) + static_cast< char >( 'x' + i ), 3 + i } ); } }
  char const* cn[] = { "red", "green", "blue" };
  if( colors ) { for( int i = 0; i < 3; ++i ) { props.push_back( { std::string( vsfm ? "diffuse_" : "" ) + cn[ i ], 6 + i } ); } }
  if( ids ) { props.push_back( { "track_id", 9 } ); }
  if( obs ) { props.push_back( { vsfm ? "number_of_camera_sees_this_point" : "observations", 10 } ); }
  unsigned other = static_cast< unsigned >( r.below( 3 ) );
  for( unsigned i = 0; i < other; ++i ) { props.push_back( { "quality" + std::to_string( i ), 11 } ); }
  if( r.chance( 1, 2 ) )
  {
    for( size_t i = props.size(); i > 1; --i ) { std::swap( props[ i - 1 ], props[ r.below( i ) ] ); }
  }
  std::string nl = "\n";
  std::string t = "ply" + nl + "format ascii 1.0" + nl;
  if( r.chance( 1, 2 ) ) { t += "comment element vertex 99 made elsewhere" + nl; }
  t += "element vertex " + std::to_string( l.size() ) + nl;
  for( auto const& p : props )
  {
    if( r.chance( 1, 10 ) ) { t += "comment property float nothing" + nl; }
    t += "property " + std::string( p.second < 6 ? "float " : p.second < 9 ? "uchar " : "int " ) + p.first + nl;
  }
  bool faces = r.chance( 1, 2 );
  bool face_colors = faces && r.chance( 1, 2 ), edges = faces && r.chance( 1, 3 );
  if( faces ) { t += "element face 2" + nl + "property list uchar int vertex_indices" + nl; }
  if( face_colors ) { t += "property uchar red" + nl + "property uchar x" + nl; }
  if( edges ) { t += "element edge 1" + nl + "property int vertex1" + nl + "property float z" + nl; }
  t += "end_header" + nl;
  Lms expect;
  int64_t row = 0;
  for( auto const& e : l )
  {
    Lm x = e.second;
    if( !normals ) { x.n[ 0 ] = x.n[ 1 ] = x.n[ 2 ] = 0; }
    if( !colors ) { x.c = rgb_color(); }
    if( !obs ) { x.obs = 0; }
    expect[ ids ? e.first : row ] = x;
    ++row;
    if( r.chance( 1, 20 ) ) { t += nl; }
    std::string line;
    for( auto const& p : props )
    {
      if( !line.empty() ) { line += r.chance( 1, 10 ) ? "  " : " "; }
      int f = p.second;
      line += f < 3 ? num( r, x.x[ f ] ) : f < 6 ? num( r, x.n[ f - 3 ] ) : f == 6 ? std::to_string( x.c.r ) : f == 7 ? std::to_string( x.c.g ) : f == 8 ? std::to_string( x.c.b )
              : f == 9 ? std::to_string( e.first ) : f == 10 ? std::to_string( x.obs ) : std::to_string( r.range( 0, 9 ) );
    }
    t += line + nl;
  }
  if( faces ) { t += std::string( "3 0 1 2" ) + ( face_colors ? " 9 8" : "" ) + nl + "3 0 0 0" + ( face_colors ? " 7 6" : "" ) + nl; }
  if( edges ) { t += "1 3.5" + nl; }
  if( face_colors || edges ) { vm::event( "foreign_with_other_properties" ); }
  vm::note( "foreign ply" );
  vm::spit( path, t );
  compare( expect, read_ply_file( path ), "foreign-ply", path );
  vm::event( faces ? "foreign_with_faces" : "foreign" );
}

void landmarks( vm::Rng& r )
{
  bool single = r.chance( 1, 3 );
  Lms l = random_landmarks( r, single );
  std::string base = vm::dir() + "/l", path = path_of( r, base );
  ::mkdir( base.c_str(), 0755 );
  vm::note( "landmarks" );
  if( r.chance( 1, 4 ) ) { write_ply_file( build( random_landmarks( r, false ), false ), path ); vm::event( "overwritten" ); }
  write_ply_file( build( l, single ), path );
  landmark_map_sptr g = read_ply_file( path );
  compare( l, g, "ply", path );
  if( r.chance( 1, 3 ) )
  {
    write_ply_file( g, path );
    compare( l, read_ply_file( path ), "ply-again", path );
  }
  if( r.chance( 1, 2 ) ) { foreign_ply( r, l, base + "/f.ply" ); }
  vm::event( single ? "single_precision" : "double_precision" );
  // nothing to write is refused
  if( r.chance( 1, 8 ) )
  {
    for( landmark_map_sptr none : { landmark_map_sptr(), landmark_map_sptr( new simple_landmark_map( landmark_map::map_landmark_t() ) ) } )
    {
      bool thrown = false;
      std::string before = vm::slurp( path );
      try { write_ply_file( none, path ); } catch( file_write_exception const& ) { thrown = true; }
      VM_CHECK( thrown && vm::slurp( path ) == before, "ply:empty", "writing no landmarks was not refused" );
    }
    vm::event( "empty_refused" );
  }
  std::ostringstream k;
  k << "L" << single << std::min< size_t >( l.size(), 30 ) << "/" << ( l.begin()->first < 0 ) << ( l.rbegin()->first > 4294967296LL ) << "/" << std::isnormal( l.begin()->second.x[ 0 ] )
    << static_cast< int >( std::log10( std::fabs( l.begin()->second.x[ 1 ] ) + 1e-300 ) / 10 );
  vm::sig( k.str() );
  if( vm::st().samples.empty() ) { vm::sample( vm::slurp( path ) ); }
  vm::rmtree( base );
}

struct St { int64_t frame; double x, y, mag, scale, angle; rgb_color c; };
typedef std::vector< std::pair< int64_t, std::vector< St > > > Trks;

std::string show( St const& s )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << "frame " << s.frame << " at " << s.x << "," << s.y << " mag " << s.mag << " scale " << s.scale << " angle " << s.angle << " c " << +s.c.r << " " << +s.c.g << " " << +s.c.b;
  return o.str();
}

void compare( Trks const& w, track_set_sptr g, std::string const& how, std::string const& path )
{
  VM_CHECK( g, how + ":null", "no track set" );
  auto ts = g->tracks();
  size_t n = 0;
  std::string head = vm::slurp( path ).substr( 0, 1200 );
  std::set< int64_t > ids;
  for( auto const& t : ts )
  {
    VM_CHECK( t, how + ":null-track", "a null track" );
    VM_CHECK( ids.insert( t->id() ).second, how + ":doubled", "track " << t->id() << " is there twice; file\n" << head );
  }
  for( auto const& e : w )
  {
    if( e.second.empty() ) { continue; }
    ++n;
    track_sptr t = g->get_track( e.first );
    VM_CHECK( t && t->id() == e.first, how + ":lost", "track " << e.first << " is not read; file\n" << head );
    VM_CHECK( t->size() == e.second.size(), how + ":states", "track " << e.first << " has " << t->size() << " states instead of " << e.second.size() << "; file\n" << head );
    auto it = t->begin();
    for( St const& s : e.second )
    {
      VM_CHECK( it->feat, how + ":no-feature", "track " << e.first << " frame " << s.frame );
      St h{ it->frame_id, it->feat->loc()[ 0 ], it->feat->loc()[ 1 ], it->feat->magnitude(), it->feat->scale(), it->feat->angle(), it->feat->color() };
      VM_CHECK( h.frame == s.frame && h.x == s.x && h.y == s.y && h.mag == s.mag && h.scale == s.scale && h.angle == s.angle && h.c == s.c, how + ":values",
                "track " << e.first << " written " << show( s ) << " read " << show( h ) );
      ++it;
    }
    vm::event( "states_compared", e.second.size() );
  }
  VM_CHECK( ts.size() == n, how + ":added", n << " tracks written, " << ts.size() << " read; file\n" << head );
}

Trks random_tracks( vm::Rng& r, bool single )
{
  Trks w;
  std::set< int64_t > ids;
  size_t n = r.chance( 1, 40 ) ? static_cast< size_t >( r.range( 100, 600 ) ) : static_cast< size_t >( r.range( 1, 10 ) );
  for( size_t i = 0; i < n; ++i )
  {
    int64_t id = ident( r );
    if( !ids.insert( id ).second ) { continue; }
    std::vector< St > s;
    int64_t f = r.chance( 1, 10 ) ? ident( r ) : r.range( -3, 30 );
    size_t len = r.chance( 1, 8 ) ? 0 : static_cast< size_t >( r.range( 1, 8 ) );
    for( size_t k = 0; k < len; ++k )
    {
      auto v = [ & ]() { return single ? static_cast< double >( fnumber( r ) ) : number( r ); };
      St x{ f, v(), v(), v(), v(), v(), color( r ) };
      s.push_back( x );
      int64_t step = r.chance( 1, 5 ) ? r.range( 2, 1000 ) : 1;
      if( f > std::numeric_limits< int64_t >::max() - step ) { break; }
      f += step;
    }
    w.push_back( { id, s } );
  }
  return w;
}

track_set_sptr build( Trks const& w, bool single )
{
  std::vector< track_sptr > ts;
  for( auto const& e : w )
  {
    auto t = std::make_shared< track >();
    t->set_id( e.first );
    for( St const& s : e.second )
    {
      feature_sptr f;
      if( single )
      {
        f = std::make_shared< feature_f >( vector_2f( static_cast< float >( s.x ), static_cast< float >( s.y ) ), static_cast< float >( s.mag ), static_cast< float >( s.scale ), static_cast< float >( s.angle ), s.c );
      }
      else { f = std::make_shared< feature_d >( vector_2d( s.x, s.y ), s.mag, s.scale, s.angle, s.c ); }
      t->append( track::track_state( s.frame, f, descriptor_sptr() ) );
    }
    ts.push_back( t );
  }
  return track_set_sptr( new simple_track_set( ts ) );
}

void foreign_tracks( vm::Rng& r, Trks w, std::string const& path )
{
  // rows of all tracks interleaved, with or without colours
  bool colors = r.chance( 1, 2 );
  std::vector< std::pair< size_t, size_t > > rows;
  for( size_t i = 0; i < w.size(); ++i ) { for( size_t k = 0; k < w[ i ].second.size(); ++k ) { rows.push_back( { i, k } ); } }
  if( r.chance( 2, 3 ) )
  {
    std::stable_sort( rows.begin(), rows.end(), [ & ]( std::pair< size_t, size_t > const& a, std::pair< size_t, size_t > const& b )
      { return w[ a.first ].second[ a.second ].frame < w[ b.first ].second[ b.second ].frame; } );
  }
  std::string t;
  for( auto const& x : rows )
  {
    St& s = w[ x.first ].second[ x.second ];
    t += std::to_string( w[ x.first ].first ) + " " + std::to_string( s.frame );
    for( double v : { s.x, s.y, s.mag, s.scale, s.angle } ) { t += ( r.chance( 1, 10 ) ? "\t" : " " ) + num( r, v ); }
    if( colors ) { t += " " + std::to_string( s.c.r ) + " " + std::to_string( s.c.g ) + " " + std::to_string( s.c.b ); }
    else { s.c = rgb_color(); }
    t += "\n";
  }
  if( r.chance( 1, 3 ) && !t.empty() ) { t.resize( t.size() - 1 ); }
  vm::note( "foreign tracks" );
  vm::spit( path, t );
  compare( w, read_track_file( path ), "foreign-tracks", path );
  vm::event( colors ? "foreign_tracks" : "foreign_tracks_without_color" );
}

void tracks( vm::Rng& r )
{
  bool single = r.chance( 1, 3 );
  Trks w = random_tracks( r, single );
  std::string base = vm::dir() + "/t", path = path_of( r, base );
  ::mkdir( base.c_str(), 0755 );
  vm::note( "tracks" );
  if( r.chance( 1, 4 ) ) { write_track_file( build( random_tracks( r, false ), false ), path ); vm::event( "overwritten" ); }
  write_track_file( build( w, single ), path );
  track_set_sptr g = read_track_file( path );
  compare( w, g, "tracks", path );
  // the order of the tracks is kept as well
  std::vector< int64_t > a, b;
  for( auto const& e : w ) { if( !e.second.empty() ) { a.push_back( e.first ); } }
  for( auto const& t : g->tracks() ) { b.push_back( t->id() ); }
  VM_CHECK( a == b, "tracks:order", "the tracks are read in another order" );
  if( !a.empty() && r.chance( 1, 3 ) )
  {
    write_track_file( g, path );
    compare( w, read_track_file( path ), "tracks-again", path );
  }
  if( r.chance( 1, 2 ) ) { foreign_tracks( r, w, base + "/f.txt" ); }
  if( r.chance( 1, 8 ) )
  {
    for( track_set_sptr none : { track_set_sptr(), track_set_sptr( new simple_track_set( std::vector< track_sptr >() ) ) } )
    {
      bool thrown = false;
      std::string before = vm::slurp( path );
      try { write_track_file( none, path ); } catch( file_write_exception const& ) { thrown = true; }
      VM_CHECK( thrown && vm::slurp( path ) == before, "tracks:empty", "writing no tracks was not refused" );
    }
    // a state without feature cannot be told in the file
    auto t = std::make_shared< track >();
    t->append( track::track_state( 3, feature_sptr(), descriptor_sptr() ) );
    bool thrown = false;
    try { write_track_file( track_set_sptr( new simple_track_set( std::vector< track_sptr >{ t } ) ), base + "/n.txt" ); } catch( file_write_exception const& ) { thrown = true; }
    VM_CHECK( thrown, "tracks:no-feature", "a state without feature was not refused" );
    vm::event( "unwritable_refused" );
  }
  std::ostringstream k;
  k << "T" << single << std::min< size_t >( w.size(), 30 ) << "/" << a.size();
  if( !w.empty() && !w[ 0 ].second.empty() ) { k << "/" << w[ 0 ].second.size() << ( w[ 0 ].second[ 0 ].frame < 0 ) << static_cast< int >( std::log10( std::fabs( w[ 0 ].second[ 0 ].x ) + 1e-300 ) / 10 ); }
  vm::sig( k.str() );
  if( vm::st().samples.size() == 1 ) { vm::sample( vm::slurp( path ) ); }
  vm::rmtree( base );
}

void body( vm::Rng& r, uint64_t i )
{
  vm::OtherLocale other( r.chance( 1, 8 ) );
  if( i % 2 ) { landmarks( r ); } else { tracks( r ); }
}

} // namespace

VM_MAIN( body )
