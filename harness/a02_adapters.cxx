// A02: algorithm interfaces hand implementations exactly the right data.
#include "vm.h"
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/image_io.h>
#include <vital/algo/analyze_tracks.h>
#include <vital/algo/bundle_adjust.h>
#include <vital/algo/close_loops.h>
#include <vital/algo/compute_ref_homography.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/detect_features.h>
#include <vital/algo/draw_tracks.h>
#include <vital/algo/extract_descriptors.h>
#include <vital/algo/geo_map.h>
#include <vital/algo/initialize_cameras_landmarks.h>
#include <vital/algo/match_features.h>
#include <vital/algo/track_features.h>
#include <vital/algo/triangulate_landmarks.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/camera_map.h>
#include <vital/types/landmark_map.h>
#include <vital/exceptions.h>
#include <algorithm>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

typedef std::vector< vector_2d > P2;
typedef std::vector< vector_3d > P3;

#define NO_CONFIG virtual void set_configuration( config_block_sptr ) { } virtual bool check_configuration( config_block_sptr ) const { return true; } \
  virtual std::string impl_name() const { return "recorder"; }

// what an implementation saw and what it answered
struct Seen
{
  unsigned calls = 0;
  P2 a, b;
  double scale = -1;
  camera_intrinsics_sptr c1, c2;
  std::vector< bool >* inliers = nullptr;
};

std::vector< bool > answer( size_t n ) { std::vector< bool > v; for( size_t i = 0; i < n; ++i ) { v.push_back( i % 3 != 1 ); } return v; }

struct H : public algorithm_impl< H, algo::estimate_homography >
{
  NO_CONFIG
  using algo::estimate_homography::estimate;
  mutable Seen seen;
  homography_sptr result;
  virtual homography_sptr estimate( P2 const& p, P2 const& q, std::vector< bool >& in, double scale ) const
  {
    ++seen.calls; seen.a = p; seen.b = q; seen.scale = scale; seen.inliers = &in;
    in = answer( p.size() );
    return result;
  }
};

struct F : public algorithm_impl< F, algo::estimate_fundamental_matrix >
{
  NO_CONFIG
  using algo::estimate_fundamental_matrix::estimate;
  mutable Seen seen;
  fundamental_matrix_sptr result;
  virtual fundamental_matrix_sptr estimate( P2 const& p, P2 const& q, std::vector< bool >& in, double scale ) const
  {
    ++seen.calls; seen.a = p; seen.b = q; seen.scale = scale; seen.inliers = &in;
    in = answer( p.size() );
    return result;
  }
};

struct E : public algorithm_impl< E, algo::estimate_essential_matrix >
{
  NO_CONFIG
  using algo::estimate_essential_matrix::estimate;
  mutable Seen seen;
  essential_matrix_sptr result;
  virtual essential_matrix_sptr estimate( P2 const& p, P2 const& q, camera_intrinsics_sptr const c1, camera_intrinsics_sptr const c2, std::vector< bool >& in, double scale ) const
  {
    ++seen.calls; seen.a = p; seen.b = q; seen.scale = scale; seen.inliers = &in; seen.c1 = c1; seen.c2 = c2;
    in = answer( p.size() );
    return result;
  }
};

struct S : public algorithm_impl< S, algo::estimate_similarity_transform >
{
  NO_CONFIG
  using algo::estimate_similarity_transform::estimate_transform;
  mutable unsigned calls = 0;
  mutable P3 a, b;
  similarity_d result;
  virtual similarity_d estimate_transform( P3 const& p, P3 const& q ) const
  {
    ++calls; a = p; b = q;
    if( p.size() != q.size() ) { throw algorithm_exception( "estimate_similarity_transform", "recorder", "sizes differ" ); }
    return result;
  }
};

struct O : public algorithm_impl< O, algo::optimize_cameras >
{
  NO_CONFIG
  using algo::optimize_cameras::optimize;
  struct Call { camera_sptr in, out; std::vector< feature_sptr > f; std::vector< landmark_sptr > l; };
  mutable std::vector< Call > calls;
  mutable unsigned counter = 0;
  virtual void optimize( camera_sptr& c, std::vector< feature_sptr > const& f, std::vector< landmark_sptr > const& l ) const
  {
    Call k;
    k.in = c;
    k.f = f;
    k.l = l;
    // some cameras are replaced, some are left as they are
    if( ++counter % 3 ) { c = std::make_shared< simple_camera >( vector_3d( counter, 1, 2 ), rotation_d() ); }
    k.out = c;
    calls.push_back( k );
  }
};

struct Fi : public algorithm_impl< Fi, algo::filter_features >
{
  NO_CONFIG
  using algo::filter_features::filter;
  mutable unsigned calls = 0;
  mutable feature_set_sptr given;
  std::vector< unsigned > keep;
  feature_set_sptr result;
  virtual feature_set_sptr filter( feature_set_sptr f, std::vector< unsigned >& indices ) const
  {
    ++calls; given = f; indices = keep;
    return result;
  }
};

struct I : public algorithm_impl< I, algo::image_io >
{
  NO_CONFIG
  mutable unsigned loads = 0, saves = 0;
  mutable std::string file;
  mutable image_container_sptr data;
  image_container_sptr result;
private:
  virtual image_container_sptr load_( std::string const& f ) const { ++loads; file = f; return result; }
  virtual void save_( std::string const& f, image_container_sptr d ) const { ++saves; file = f; data = d; }
};

feature_set_sptr features( vm::Rng& r, size_t n, std::vector< feature_sptr >& v )
{
  for( size_t i = 0; i < n; ++i )
  {
    vector_2d p( r.gauss() * 100, r.gauss() * 100 );
    if( r.chance( 1, 3 ) ) { v.push_back( std::make_shared< feature_f >( p.cast< float >() ) ); }
    else { v.push_back( std::make_shared< feature_d >( p ) ); }
  }
  return feature_set_sptr( new simple_feature_set( v ) );
}

std::string text( P2 const& v ) { std::ostringstream o; o << std::setprecision( 17 ); for( auto const& p : v ) { o << "(" << p[ 0 ] << "," << p[ 1 ] << ") "; } return o.str(); }
std::string text( P3 const& v ) { std::ostringstream o; o << std::setprecision( 17 ); for( auto const& p : v ) { o << "(" << p[ 0 ] << "," << p[ 1 ] << "," << p[ 2 ] << ") "; } return o.str(); }

void check_seen( std::string const& name, Seen const& s, P2 const& a, P2 const& b, double scale, std::vector< bool >& in )
{
  VM_CHECK( s.calls == 1, name + ":calls", s.calls << " calls of the implementation" );
  VM_CHECK( s.a == a && s.b == b, name + ":points", "the implementation got " << text( s.a ) << "and " << text( s.b ) << "instead of " << text( a ) << "and " << text( b ) );
  VM_CHECK( s.scale == scale, name + ":scale", "the implementation got " << s.scale << " instead of " << scale );
  VM_CHECK( in == answer( a.size() ), name + ":inliers", "the answer of " << a.size() << " inliers came back as " << in.size() );
}

void estimation( vm::Rng& r )
{
  std::vector< feature_sptr > v1, v2;
  feature_set_sptr f1 = features( r, static_cast< size_t >( r.range( 1, 20 ) ), v1 ), f2 = features( r, static_cast< size_t >( r.range( 1, 20 ) ), v2 );
  std::vector< match > m;
  size_t n = static_cast< size_t >( r.range( 0, 25 ) );
  for( size_t i = 0; i < n; ++i )
  {
    // repeated and unordered on purpose; the last of either set now and then
    m.push_back( match( static_cast< unsigned >( r.chance( 1, 8 ) ? v1.size() - 1 : r.below( v1.size() ) ), static_cast< unsigned >( r.chance( 1, 8 ) ? v2.size() - 1 : r.below( v2.size() ) ) ) );
    if( r.chance( 1, 10 ) ) { m.push_back( m.back() ); }
  }
  match_set_sptr ms( new simple_match_set( m ) );
  P2 a, b;
  for( auto const& x : m ) { a.push_back( v1[ x.first ]->loc() ); b.push_back( v2[ x.second ]->loc() ); }
  bool def = r.chance( 1, 4 );
  double scale = def ? 1.0 : r.real( 0.01, 50 );
  std::vector< bool > in( r.below( 30 ), true );
  vm::note( "estimation" );
  switch( r.below( 4 ) )
  {
  case 0:
  {
    H h;
    if( r.chance( 3, 4 ) ) { h.result = std::make_shared< homography_< double > >(); }
    algo::estimate_homography const& base = h;
    homography_sptr g = def ? base.estimate( f1, f2, ms, in ) : base.estimate( f1, f2, ms, in, scale );
    check_seen( "homography", h.seen, a, b, scale, in );
    VM_CHECK( g == h.result, "homography:result", "another result came back" );
    vm::event( "homography" );
    break;
  }
  case 1:
  {
    F f;
    if( r.chance( 3, 4 ) ) { f.result = std::make_shared< fundamental_matrix_< double > >( matrix_3x3d::Identity().eval() ); }
    algo::estimate_fundamental_matrix const& base = f;
    fundamental_matrix_sptr g = def ? base.estimate( f1, f2, ms, in ) : base.estimate( f1, f2, ms, in, scale );
    check_seen( "fundamental", f.seen, a, b, scale, in );
    VM_CHECK( g == f.result, "fundamental:result", "another result came back" );
    vm::event( "fundamental" );
    break;
  }
  default:
  {
    E e;
    if( r.chance( 3, 4 ) ) { e.result = std::make_shared< essential_matrix_< double > >( rotation_d(), vector_3d( 1, 0, 0 ) ); }
    camera_intrinsics_sptr c1 = std::make_shared< simple_camera_intrinsics >(), c2 = std::make_shared< simple_camera_intrinsics >();
    algo::estimate_essential_matrix const& base = e;
    essential_matrix_sptr g;
    unsigned way = static_cast< unsigned >( r.below( 3 ) );
    if( way == 0 ) { g = def ? base.estimate( f1, f2, ms, c1, c2, in ) : base.estimate( f1, f2, ms, c1, c2, in, scale ); }
    else if( way == 1 ) { g = def ? base.estimate( f1, f2, ms, c1, in ) : base.estimate( f1, f2, ms, c1, in, scale ); c2 = c1; }
    else { g = def ? base.estimate( a, b, c1, in ) : base.estimate( a, b, c1, in, scale ); c2 = c1; }
    check_seen( "essential", e.seen, a, b, scale, in );
    VM_CHECK( e.seen.c1 == c1 && e.seen.c2 == c2, "essential:calibration", "way " << way << ": the calibrations got " << ( e.seen.c1 == c2 ? "exchanged" : "lost" ) );
    VM_CHECK( g == e.result, "essential:result", "another result came back" );
    vm::event( "essential" + std::to_string( way ) );
  }
  }
  std::ostringstream k;
  k << "e" << v1.size() << "/" << v2.size() << "/" << m.size() << def;
  vm::sig( k.str() );
}

void similarity( vm::Rng& r )
{
  S s;
  s.result = similarity_d( r.real( 0.5, 2 ), rotation_d( vector_3d( r.gauss(), r.gauss(), r.gauss() ) ), vector_3d( r.gauss(), 1, 2 ) );
  algo::estimate_similarity_transform const& base = s;
  unsigned kind = static_cast< unsigned >( r.below( 4 ) );
  char const* names[] = { "cameras", "landmarks", "camera_map", "landmark_map" };
  std::string name = std::string( "similarity:" ) + names[ kind ];
  vm::note( name );
  P3 a, b;
  similarity_d g;
  bool thrown = false, mismatch = false;
  auto vec = [ & ]() { return vector_3d( r.gauss() * 10, r.gauss() * 10, r.gauss() * 10 ); };
  size_t n = static_cast< size_t >( r.range( 0, 12 ) ), m = r.chance( 1, 3 ) ? static_cast< size_t >( r.range( 0, 12 ) ) : n;
  try
  {
    if( kind == 0 )
    {
      std::vector< camera_sptr > x, y;
      for( size_t i = 0; i < n; ++i ) { x.push_back( std::make_shared< simple_camera >( vec(), rotation_d( vec() ) ) ); a.push_back( x.back()->center() ); }
      for( size_t i = 0; i < m; ++i ) { y.push_back( std::make_shared< simple_camera >( vec(), rotation_d( vec() ) ) ); b.push_back( y.back()->center() ); }
      mismatch = n != m;
      g = base.estimate_transform( x, y );
    }
    else if( kind == 1 )
    {
      std::vector< landmark_sptr > x, y;
      for( size_t i = 0; i < n; ++i ) { x.push_back( std::make_shared< landmark_d >( vec() ) ); a.push_back( x.back()->loc() ); }
      for( size_t i = 0; i < m; ++i ) { y.push_back( std::make_shared< landmark_f >( vec().cast< float >() ) ); b.push_back( y.back()->loc() ); }
      mismatch = n != m;
      g = base.estimate_transform( x, y );
    }
    else
    {
      auto id = [ & ]() -> int64_t { return r.chance( 1, 10 ) ? static_cast< int64_t >( r.u64() ) : r.range( -4, 20 ); };
      std::map< int64_t, vector_3d > x, y;
      for( size_t i = 0; i < n; ++i ) { x[ id() ] = vec(); }
      for( size_t i = 0; i < m; ++i ) { y[ id() ] = vec(); }
      if( r.chance( 1, 5 ) ) { for( auto const& e : x ) { y[ e.first ] = vec(); } }
      if( r.chance( 1, 8 ) ) { for( auto const& e : x ) { y.erase( e.first ); } }     // nothing in common
      for( auto const& e : x ) { if( y.count( e.first ) ) { a.push_back( e.second ); b.push_back( y[ e.first ] ); } }
      if( a.size() != x.size() || a.size() != y.size() ) { vm::event( "unshared_dropped" ); }
      if( kind == 2 )
      {
        camera_map::map_camera_t p, q;
        for( auto const& e : x ) { p[ e.first ] = std::make_shared< simple_camera >( e.second, rotation_d( vec() ) ); }
        for( auto const& e : y ) { q[ e.first ] = std::make_shared< simple_camera >( e.second, rotation_d( vec() ) ); }
        g = base.estimate_transform( camera_map_sptr( new simple_camera_map( p ) ), camera_map_sptr( new simple_camera_map( q ) ) );
      }
      else
      {
        landmark_map::map_landmark_t p, q;
        for( auto const& e : x ) { p[ e.first ] = std::make_shared< landmark_d >( e.second ); }
        for( auto const& e : y ) { q[ e.first ] = std::make_shared< landmark_d >( e.second ); }
        g = base.estimate_transform( landmark_map_sptr( new simple_landmark_map( p ) ), landmark_map_sptr( new simple_landmark_map( q ) ) );
      }
    }
  }
  catch( algorithm_exception const& ) { thrown = true; }
  VM_CHECK( thrown == mismatch, name + ":mismatch", n << " and " << m << " items: " << ( thrown ? "refused" : "accepted" ) );
  if( thrown ) { vm::event( "mismatch_refused" ); return; }
  VM_CHECK( s.calls == 1, name + ":calls", s.calls );
  VM_CHECK( s.a == a && s.b == b, name + ":points", "the implementation got " << text( s.a ) << "and " << text( s.b ) << "instead of " << text( a ) << "and " << text( b ) );
  VM_CHECK( g == s.result, name + ":result", "another result came back" );
  vm::event( names[ kind ] );
  vm::sig( std::string( "s" ) + std::to_string( kind ) + "/" + std::to_string( n ) + "/" + std::to_string( m ) + "/" + std::to_string( a.size() ) );
}

void cameras( vm::Rng& r )
{
  O o;
  algo::optimize_cameras const& base = o;
  camera_map::map_camera_t cams;
  landmark_map::map_landmark_t lms;
  std::vector< track_sptr > trks;
  size_t nc = static_cast< size_t >( r.range( 0, 8 ) ), nl = static_cast< size_t >( r.range( 0, 10 ) ), nt = static_cast< size_t >( r.range( 0, 10 ) );
  for( size_t i = 0; i < nc; ++i ) { cams[ r.range( -2, 12 ) ] = std::make_shared< simple_camera >( vector_3d( r.gauss(), 0, 0 ), rotation_d() ); }
  for( size_t i = 0; i < nl; ++i ) { lms[ r.range( -2, 12 ) ] = std::make_shared< landmark_d >( vector_3d( r.gauss(), 0, 0 ) ); }
  std::set< track_id_t > ids;
  std::map< frame_id_t, std::map< track_id_t, feature_sptr > > want;
  for( size_t i = 0; i < nt; ++i )
  {
    track_id_t id = r.range( -2, 12 );
    if( !ids.insert( id ).second ) { continue; }
    auto t = std::make_shared< track >();
    t->set_id( id );
    frame_id_t f = r.range( -3, 10 );
    size_t len = static_cast< size_t >( r.range( 0, 8 ) );
    for( size_t k = 0; k < len; ++k )
    {
      feature_sptr x = r.chance( 1, 6 ) ? feature_sptr() : feature_sptr( std::make_shared< feature_d >( vector_2d( r.gauss(), 0 ) ) );
      t->append( track::track_state( f, x, descriptor_sptr() ) );
      if( x && lms.count( id ) && cams.count( f ) ) { want[ f ][ id ] = x; }
      else { vm::event( "observations_left_out" ); }
      f += r.range( 1, 3 );
    }
    trks.insert( trks.begin() + static_cast< long >( r.below( trks.size() + 1 ) ), t );
  }
  vm::note( "optimize cameras" );
  camera_map_sptr c( new simple_camera_map( cams ) ), c0 = c;
  landmark_map_sptr l( new simple_landmark_map( lms ) );
  track_set_sptr t( new simple_track_set( trks ) );
  // missing inputs
  if( r.chance( 1, 4 ) )
  {
    for( int miss = 1; miss < 8; ++miss )
    {
      camera_map_sptr cc = miss & 1 ? camera_map_sptr() : c;
      camera_map_sptr keep = cc;
      bool thrown = false;
      try { base.optimize( cc, miss & 2 ? track_set_sptr() : t, miss & 4 ? landmark_map_sptr() : l ); } catch( invalid_value const& ) { thrown = true; }
      VM_CHECK( thrown && o.calls.empty() && cc == keep, "cameras:null", "missing inputs " << miss << ( thrown ? " reached the implementation" : " were not refused" ) );
    }
    vm::event( "null_refused" );
  }
  base.optimize( c, t, l );
  VM_CHECK( c && c->size() == cams.size(), "cameras:count", "another number of cameras came back" );
  VM_CHECK( o.calls.size() == cams.size(), "cameras:calls", o.calls.size() << " calls for " << cams.size() << " cameras" );
  auto got = c->cameras();
  for( auto const& e : cams )
  {
    auto k = std::find_if( o.calls.begin(), o.calls.end(), [ & ]( O::Call const& x ) { return x.in == e.second; } );
    VM_CHECK( k != o.calls.end(), "cameras:not-optimized", "the camera of frame " << e.first << " did not reach the implementation" );
    std::map< feature_sptr, landmark_sptr > pairs, expect;
    VM_CHECK( k->f.size() == k->l.size(), "cameras:sizes", k->f.size() << " features and " << k->l.size() << " landmarks for frame " << e.first );
    for( size_t i = 0; i < k->f.size(); ++i ) { pairs[ k->f[ i ] ] = k->l[ i ]; }
    for( auto const& w : want[ e.first ] ) { expect[ w.second ] = lms[ w.first ]; }
    VM_CHECK( pairs == expect && k->f.size() == expect.size(), "cameras:correspondences", "frame " << e.first << " got " << k->f.size() << " correspondences, " << expect.size() << " are there, or wrongly paired" );
    VM_CHECK( got.count( e.first ) && got[ e.first ] == k->out, "cameras:result", "the camera of frame " << e.first << " is not the one the implementation gave" );
    vm::event( "cameras_optimized" );
  }
  VM_CHECK( c0->cameras() == cams, "cameras:input-changed", "the map given was changed" );
  vm::sig( "o" + std::to_string( nc ) + "/" + std::to_string( nl ) + "/" + std::to_string( trks.size() ) + "/" + std::to_string( want.size() ) );
}

void filtering( vm::Rng& r )
{
  Fi f;
  algo::filter_features const& base = f;
  std::vector< feature_sptr > v, kept;
  feature_set_sptr fs = features( r, static_cast< size_t >( r.range( 0, 20 ) ), v );
  std::vector< descriptor_sptr > d, want;
  for( size_t i = 0; i < v.size(); ++i ) { d.push_back( r.chance( 1, 8 ) ? descriptor_sptr() : descriptor_sptr( new descriptor_fixed< double, 4 >() ) ); }
  // any selection, in any order
  for( size_t i = 0; i < v.size(); ++i ) { if( r.chance( 1, 2 ) ) { f.keep.push_back( static_cast< unsigned >( i ) ); } }
  if( r.chance( 1, 3 ) ) { for( size_t i = f.keep.size(); i > 1; --i ) { std::swap( f.keep[ i - 1 ], f.keep[ r.below( i ) ] ); } }
  if( !v.empty() && r.chance( 1, 6 ) ) { f.keep.push_back( static_cast< unsigned >( v.size() - 1 ) ); f.keep.push_back( static_cast< unsigned >( v.size() - 1 ) ); }
  for( unsigned i : f.keep ) { kept.push_back( v[ i ] ); want.push_back( d[ i ] ); }
  f.result = feature_set_sptr( new simple_feature_set( kept ) );
  descriptor_set_sptr ds( new simple_descriptor_set( d ) );
  vm::note( "filter features" );
  feature_set_sptr alone = base.filter( fs );
  VM_CHECK( f.calls == 1 && f.given == fs && alone == f.result, "filter:features", f.calls << " calls" );
  f.given.reset();
  auto both = base.filter( fs, ds );
  VM_CHECK( f.calls == 2 && f.given == fs && both.first == f.result, "filter:both", f.calls << " calls" );
  VM_CHECK( both.second && both.second->descriptors() == want && both.second->size() == want.size(), "filter:descriptors", "the descriptors do not go with the features kept: " << ( both.second ? both.second->size() : 0 ) << " instead of " << want.size() );
  VM_CHECK( ds->descriptors() == d && fs->features() == v, "filter:input-changed", "" );
  vm::event( "filtered" );
  vm::sig( "f" + std::to_string( v.size() ) + "/" + std::to_string( f.keep.size() ) );
}

void images( vm::Rng& r )
{
  I io;
  io.result = r.chance( 1, 2 ) ? image_container_sptr( new simple_image_container( image( 2, 2 ) ) ) : image_container_sptr();
  algo::image_io const& base = io;
  std::string d = vm::dir() + "/im";
  ::mkdir( d.c_str(), 0755 );
  ::mkdir( ( d + "/folder" ).c_str(), 0755 );
  vm::spit( d + "/a file.png", "x" );
  vm::spit( d + "/empty", "" );
  if( ::symlink( "a file.png", ( d + "/link" ).c_str() ) ) { }
  if( ::symlink( "nowhere", ( d + "/dangling" ).c_str() ) ) { }
  if( ::symlink( "folder", ( d + "/dirlink" ).c_str() ) ) { }
  enum { OK, MISSING, NOT_A_FILE, NOT_A_DIR };
  struct Load { std::string p; int want; };
  std::vector< Load > loads = { { d + "/a file.png", OK }, { d + "/empty", OK }, { d + "/link", OK }, { d + "/folder/../a file.png", OK }, { d + "/none", MISSING }, { d + "/dangling", MISSING },
                                { d + "/none/x.png", MISSING }, { "", MISSING }, { d + "/folder", NOT_A_FILE }, { d + "/folder/", NOT_A_FILE }, { d + "/dirlink", NOT_A_FILE } };
  auto outcome = [ & ]( std::function< void() > fn )
  {
    try { fn(); return static_cast< int >( OK ); }
    catch( path_not_exists const& ) { return static_cast< int >( MISSING ); }
    catch( path_not_a_file const& ) { return static_cast< int >( NOT_A_FILE ); }
    catch( path_not_a_directory const& ) { return static_cast< int >( NOT_A_DIR ); }
  };
  for( auto const& l : loads )
  {
    vm::note( "load " + l.p );
    unsigned before = io.loads;
    io.file = "?";
    image_container_sptr g;
    int o = outcome( [ & ]() { g = base.load( l.p ); } );
    VM_CHECK( o == l.want, "image:load", "loading " << vm::show( l.p.empty() ? l.p : l.p.substr( d.size() ) ) << " ended as " << o << " instead of " << l.want );
    VM_CHECK( io.loads - before == ( o == OK ), "image:load-reached", "loading " << vm::show( l.p ) << " reached the implementation " << io.loads - before << " times" );
    if( o == OK ) { VM_CHECK( io.file == l.p && g == io.result, "image:load-data", "the implementation got " << vm::show( io.file ) << " for " << vm::show( l.p ) ); }
    vm::event( o == OK ? "loaded" : "load_refused" );
  }
  std::vector< Load > saves = { { d + "/new.png", OK }, { d + "/a file.png", OK }, { d + "/folder/new.png", OK }, { d + "/dirlink/new.png", OK }, { d + "/none/new.png", MISSING }, { d + "/none/deeper/new.png", MISSING },
                                { d + "/a file.png/new.png", NOT_A_DIR }, { d + "/link/new.png", NOT_A_DIR }, { d + "/dangling/new.png", MISSING } };
  for( auto const& s : saves )
  {
    vm::note( "save " + s.p );
    unsigned before = io.saves;
    image_container_sptr data = r.chance( 1, 4 ) ? image_container_sptr() : image_container_sptr( new simple_image_container( image( 3, 2 ) ) );
    int o = outcome( [ & ]() { base.save( s.p, data ); } );
    VM_CHECK( o == s.want, "image:save", "saving to " << vm::show( s.p.substr( d.size() ) ) << " ended as " << o << " instead of " << s.want );
    VM_CHECK( io.saves - before == ( o == OK ), "image:save-reached", "saving to " << vm::show( s.p ) << " reached the implementation " << io.saves - before << " times" );
    if( o == OK ) { VM_CHECK( io.file == s.p && io.data == data, "image:save-data", "the implementation got " << vm::show( io.file ) << " for " << vm::show( s.p ) ); }
    vm::event( o == OK ? "saved" : "save_refused" );
  }
  // relative names
  char cwd[ 4096 ];
  if( ::getcwd( cwd, sizeof cwd ) && !::chdir( d.c_str() ) )
  {
    int a = outcome( [ & ]() { base.save( "rel.png", io.result ); } ), b = outcome( [ & ]() { base.save( "none/rel.png", io.result ); } ), c = outcome( [ & ]() { base.load( "empty" ); } );
    if( ::chdir( cwd ) ) { std::abort(); }
    VM_CHECK( a == OK && b == MISSING && c == OK, "image:relative", a << " " << b << " " << c );
  }
  vm::rmtree( d );
}

// an implementation of every interface, to reach what its base class provides
typedef image_container_sptr IC;
#define MOCK( N, ... ) struct M_##N : public algorithm_impl< M_##N, algo::N > { virtual std::string impl_name() const { return "recorder"; } __VA_ARGS__ };
#define PLAIN virtual void set_configuration( config_block_sptr ) { } virtual bool check_configuration( config_block_sptr ) const { return true; }
MOCK( analyze_tracks, PLAIN virtual void print_info( track_set_sptr, stream_t& ) const { } )
MOCK( bundle_adjust, PLAIN virtual void optimize( camera_map_sptr&, landmark_map_sptr&, track_set_sptr ) const { } )
MOCK( close_loops, PLAIN mutable IC mask; virtual track_set_sptr stitch( frame_id_t, track_set_sptr t, IC, IC m ) const { mask = m; return t; } )
MOCK( compute_ref_homography, PLAIN virtual f2f_homography_sptr estimate( frame_id_t, track_set_sptr ) const { return f2f_homography_sptr(); } )
MOCK( convert_image, virtual IC convert( IC i ) const { return i; } )
MOCK( detect_features, PLAIN mutable IC mask; virtual feature_set_sptr detect( IC, IC m ) const { mask = m; return feature_set_sptr(); } )
MOCK( draw_tracks, PLAIN track_set_sptr other; virtual IC draw( track_set_sptr, image_container_sptr_list, track_set_sptr c ) { other = c; return IC(); } )
MOCK( extract_descriptors, PLAIN mutable IC mask; virtual descriptor_set_sptr extract( IC, feature_set_sptr, IC m ) const { mask = m; return descriptor_set_sptr(); } )
MOCK( geo_map, PLAIN virtual void utm_to_latlon( double, double, int, bool, double&, double& ) const { } mutable int zone = 99;
      virtual void latlon_to_utm( double, double, double&, double&, int&, bool&, int z ) const { zone = z; } )
MOCK( initialize_cameras_landmarks, PLAIN virtual void initialize( camera_map_sptr&, landmark_map_sptr&, track_set_sptr ) const { } )
MOCK( match_features, PLAIN virtual match_set_sptr match( feature_set_sptr, descriptor_set_sptr, feature_set_sptr, descriptor_set_sptr ) const { return match_set_sptr(); } )
MOCK( track_features, PLAIN mutable IC mask; virtual track_set_sptr track( track_set_sptr p, unsigned int, IC, IC m ) const { mask = m; return p; } )
MOCK( triangulate_landmarks, PLAIN virtual void triangulate( camera_map_sptr, track_set_sptr, landmark_map_sptr& ) const { } )

// what an object of an interface has from its base: a logger named after the interface, its names, a copy of its own kind
template < class T > struct Open : public T { static std::string logger( T const& t ) { return ( t.*( &Open::m_logger ) )->get_name(); } };

template < class M, class T > void base_of( T const* )
{
  M m;
  std::string type = T::static_type_name();
  vm::note( "base of " + type );
  std::string name = Open< M >::logger( m );
  VM_CHECK( name == type, "base:logger", "an implementation of " << type << " logs as " << vm::show( name ) );
  VM_CHECK( m.type_name() == type, "base:type-name", type << " calls itself " << m.type_name() );
  algorithm_sptr c = static_cast< algorithm const& >( m ).base_clone();
  std::shared_ptr< T > c2 = static_cast< T const& >( m ).clone();
  VM_CHECK( c2 && c2.get() != &m && dynamic_cast< M* >( c2.get() ), "base:typed-clone", "the copy of an implementation of " << type << " is another thing" );
  VM_CHECK( c && c.get() != &m && dynamic_cast< M* >( c.get() ) && c->impl_name() == "recorder" && c->type_name() == type, "base:clone", "the copy of an implementation of " << type << " is another thing" );
  VM_CHECK( Open< M >::logger( dynamic_cast< M& >( *c ) ) == type, "base:clone-logger", type );
  vm::event( "bases" );
}

#define BASE( N ) base_of< M_##N >( static_cast< algo::N const* >( nullptr ) )

void bases( vm::Rng& r )
{
  BASE( analyze_tracks ); BASE( bundle_adjust ); BASE( close_loops ); BASE( compute_ref_homography ); BASE( convert_image ); BASE( detect_features ); BASE( draw_tracks );
  BASE( extract_descriptors ); BASE( geo_map ); BASE( initialize_cameras_landmarks ); BASE( match_features ); BASE( track_features ); BASE( triangulate_landmarks );
  base_of< H >( static_cast< algo::estimate_homography const* >( nullptr ) ); base_of< F >( static_cast< algo::estimate_fundamental_matrix const* >( nullptr ) );
  base_of< E >( static_cast< algo::estimate_essential_matrix const* >( nullptr ) ); base_of< S >( static_cast< algo::estimate_similarity_transform const* >( nullptr ) );
  base_of< O >( static_cast< algo::optimize_cameras const* >( nullptr ) ); base_of< Fi >( static_cast< algo::filter_features const* >( nullptr ) );
  base_of< I >( static_cast< algo::image_io const* >( nullptr ) );

  // arguments left out
  vm::note( "arguments left out" );
  IC img( new simple_image_container( image( 2, 2 ) ) );
  track_set_sptr ts( new simple_track_set() );
  { M_close_loops m; m.mask = img; algo::close_loops const& b = m; b.stitch( 1, ts, img ); VM_CHECK( !m.mask, "defaults:mask", "close_loops" ); b.stitch( 1, ts, IC(), img ); VM_CHECK( m.mask == img, "defaults:mask", "close_loops" ); }
  { M_detect_features m; m.mask = img; algo::detect_features const& b = m; b.detect( img ); VM_CHECK( !m.mask, "defaults:mask", "detect_features" ); }
  { M_extract_descriptors m; m.mask = img; algo::extract_descriptors const& b = m; b.extract( img, feature_set_sptr() ); VM_CHECK( !m.mask, "defaults:mask", "extract_descriptors" ); }
  { M_track_features m; m.mask = img; algo::track_features const& b = m; b.track( ts, 1, img ); VM_CHECK( !m.mask, "defaults:mask", "track_features" ); }
  { M_draw_tracks m; m.other = ts; algo::draw_tracks& b = m; b.draw( ts, image_container_sptr_list() ); VM_CHECK( !m.other, "defaults:comparison", "draw_tracks" ); }
  // the checks of a configuration an interface brings along
  { M_convert_image m; algo::convert_image& b = m; config_block_sptr c = config_block::empty_config(); b.set_configuration( c ); VM_CHECK( b.check_configuration( c ) && c->available_values().empty(), "defaults:configuration", "convert_image" ); }
  P2 none;
  std::vector< bool > in;
  { H m; algo::estimate_homography const& b = m; b.estimate( none, none, in ); VM_CHECK( m.seen.scale == 1.0, "defaults:scale", "homography " << m.seen.scale ); }
  { F m; algo::estimate_fundamental_matrix const& b = m; b.estimate( none, none, in ); VM_CHECK( m.seen.scale == 1.0, "defaults:scale", "fundamental " << m.seen.scale ); }
  { E m; algo::estimate_essential_matrix const& b = m; b.estimate( none, none, camera_intrinsics_sptr(), camera_intrinsics_sptr(), in ); VM_CHECK( m.seen.scale == 1.0, "defaults:scale", "essential " << m.seen.scale ); }
  // zones of six degrees, from the date line eastwards
  M_geo_map g;
  algo::geo_map const& gm = g;
  double x, y; int z; bool n;
  gm.latlon_to_utm( 1, 2, x, y, z, n );
  VM_CHECK( g.zone == -1, "defaults:zone", g.zone );
  for( int k = 0; k < 200; ++k )
  {
    int zone = static_cast< int >( r.range( 1, 60 ) );
    double in_zone = r.chance( 1, 3 ) ? 0 : r.real( 1e-6, 6 - 1e-6 );
    double lon = -180 + 6.0 * ( zone - 1 ) + in_zone, turns = r.chance( 1, 2 ) ? 0 : static_cast< double >( r.range( -2000, 2000 ) );
    int got = gm.latlon_zone( r.real( -90, 90 ), lon + 360 * turns );
    VM_CHECK( got == zone, "zone", "longitude " << std::setprecision( 17 ) << lon + 360 * turns << " is in zone " << zone << ", not " << got );
    vm::event( "zones" );
  }
  for( double far : { -1e12, 1e12, -1e17, 1e17, -1e300, 1e300 } )
  {
    int got = gm.latlon_zone( 0, far );
    VM_CHECK( got >= 1 && got <= 60, "zone:far", "longitude " << far << " is in zone " << got );
  }
}

// every kind of algorithm has a type name of its own, and its own registry
template < class T > void type( std::map< std::string, int >& names )
{
  ++names[ T::static_type_name() ];
  VM_CHECK( T::registered_names().empty() || T::static_type_name() == "estimate_homography", "types:registry-shared", T::static_type_name() << " lists implementations of another type" );
  VM_CHECK( !T::has_impl_name( "nothing" ) && !T::create( "nothing" ), "types:unknown", T::static_type_name() );
}

void types()
{
  H::register_self();
  std::map< std::string, int > n;
  type< algo::analyze_tracks >( n ); type< algo::bundle_adjust >( n ); type< algo::close_loops >( n ); type< algo::compute_ref_homography >( n );
  type< algo::convert_image >( n ); type< algo::detect_features >( n ); type< algo::draw_tracks >( n ); type< algo::estimate_essential_matrix >( n );
  type< algo::estimate_fundamental_matrix >( n ); type< algo::estimate_homography >( n ); type< algo::estimate_similarity_transform >( n ); type< algo::extract_descriptors >( n );
  type< algo::filter_features >( n ); type< algo::geo_map >( n ); type< algo::image_io >( n ); type< algo::initialize_cameras_landmarks >( n );
  type< algo::match_features >( n ); type< algo::optimize_cameras >( n ); type< algo::track_features >( n ); type< algo::triangulate_landmarks >( n );
  VM_CHECK( n.size() == 20, "types:names", "only " << n.size() << " different type names for 20 types" );
  VM_CHECK( algo::estimate_homography::create( "recorder" ) && algorithm::create( "estimate_homography", "recorder" ), "types:create", "" );
  vm::event( "types" );
}

void body( vm::Rng& r, uint64_t i )
{
  switch( i % 16 )
  {
  case 0: images( r ); types(); bases( r ); break;
  case 1: case 2: case 3: case 4: filtering( r ); break;
  case 5: case 6: case 7: cameras( r ); break;
  case 8: case 9: case 10: case 11: similarity( r ); break;
  default: estimation( r );
  }
}

} // namespace

VM_MAIN( body )
