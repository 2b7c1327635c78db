// I01: camera files hold what was written.
#include "refalg.h"
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/exceptions.h>
#include <memory>

using namespace kwiver::vital;
using namespace ref;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

struct Cam
{
  double f, ax, sk, px, py;
  std::vector< double > d;
  double qx, qy, qz, qw;
  double C[ 3 ];
};

Cam random_cam( vm::Rng& r )
{
  Cam c;
  c.f = r.chance( 1, 6 ) ? 1.0 : std::pow( 10.0, r.real( -2, 6 ) );
  c.ax = r.chance( 1, 3 ) ? 1.0 : r.real( 0.2, 4 );
  c.sk = r.chance( 1, 3 ) ? 0.0 : r.gauss() * c.f * 0.1;
  c.px = r.chance( 1, 6 ) ? 0.0 : r.gauss() * std::pow( 10.0, r.real( -3, 5 ) );
  c.py = r.chance( 1, 6 ) ? 0.0 : r.gauss() * std::pow( 10.0, r.real( -3, 5 ) );
  size_t n = r.pick( std::vector< size_t >{ 0, 0, 1, 2, 3, 4, 5, 5, 6, 8, 8, 12, 14 } );
  for( size_t i = 0; i < n; ++i ) { c.d.push_back( r.chance( 1, 5 ) ? 0.0 : r.gauss() * std::pow( 10.0, r.real( -12, 0 ) ) ); }
  int kind;
  Q q = random_q( r, kind );
  c.qw = static_cast< double >( q[ 0 ] ); c.qx = static_cast< double >( q[ 1 ] ); c.qy = static_cast< double >( q[ 2 ] ); c.qz = static_cast< double >( q[ 3 ] );
  double s = std::pow( 10.0, r.real( -4, 7 ) );   // up to geographic (UTM) coordinates
  for( double& v : c.C ) { v = r.chance( 1, 8 ) ? 0.0 : r.gauss() * s; }
  return c;
}

simple_camera make( Cam const& c, vm::Rng& r )
{
  Eigen::VectorXd d( c.d.size() );
  for( size_t i = 0; i < c.d.size(); ++i ) { d[ static_cast< long >( i ) ] = c.d[ i ]; }
  simple_camera_intrinsics k( c.f, vector_2d( c.px, c.py ), c.ax, c.sk, d );
  rotation_d R( Eigen::Quaterniond( c.qw, c.qx, c.qy, c.qz ) );
  vector_3d ctr( c.C[ 0 ], c.C[ 1 ], c.C[ 2 ] );
  if( r.chance( 1, 2 ) ) { return simple_camera( ctr, R, k ); }
  simple_camera m;
  m.set_rotation( R );
  m.set_center( ctr );
  m.set_intrinsics( std::make_shared< simple_camera_intrinsics >( k ) );
  return m;
}

std::string text( camera const& c )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << c;
  return o.str();
}

bool nearly( double a, double b, double scale ) { return a == b || std::fabs( a - b ) <= 1e-14 * ( std::fabs( a ) + std::fabs( b ) + scale ); }

// a camera read must be the camera written
void same( camera const& w, camera const& g, std::string const& how, vm::Rng& r )
{
  auto ki = w.intrinsics(), kg = g.intrinsics();
  VM_CHECK( kg, how + ":intrinsics", "no intrinsics" );
#define SAME( what, a, b, scale ) VM_CHECK( nearly( a, b, scale ), how + ":" what, what " written " << ( a ) << " read " << ( b ) << " camera\n" << text( w ) )
  SAME( "focal length", ki->focal_length(), kg->focal_length(), 0 );
  SAME( "aspect ratio", ki->aspect_ratio(), kg->aspect_ratio(), 0 );
  SAME( "skew", ki->skew(), kg->skew(), 0 );
  SAME( "principal point x", ki->principal_point()[ 0 ], kg->principal_point()[ 0 ], 0 );
  SAME( "principal point y", ki->principal_point()[ 1 ], kg->principal_point()[ 1 ], 0 );
  std::vector< double > dw = ki->dist_coeffs(), dg = kg->dist_coeffs();
  // the format writes one 0 for "no distortion"
  if( dw.size() == 1 && dw[ 0 ] == 0 ) { dw.clear(); }
  VM_CHECK( dw.size() == dg.size(), how + ":distortion-size", dw.size() << " coefficients written, " << dg.size() << " read, camera\n" << text( w ) );
  for( size_t i = 0; i < dw.size(); ++i ) { SAME( "distortion", dw[ i ], dg[ i ], 0 ); }
  matrix_3x3d Rw( w.rotation() ), Rg( g.rotation() );
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { SAME( "rotation", Rw( i, j ), Rg( i, j ), 1.0 ); } }
  double size = w.center().norm();
  for( int i = 0; i < 3; ++i )
  {
    SAME( "center", w.center()[ i ], g.center()[ i ], size * 4 );
    SAME( "translation", w.translation()[ i ], g.translation()[ i ], size * 4 );
  }
  // projections of points in front of the camera at a distance comparable to its own
  for( int n = 0; n < 3; ++n )
  {
    double depth = ( 1 + size ) * r.real( 0.5, 20 );
    vector_3d p = w.rotation().inverse() * vector_3d( r.real( -0.4, 0.4 ) * depth, r.real( -0.4, 0.4 ) * depth, depth ) + w.center();
    vector_2d a = w.project( p ), b = g.project( p );
    double tol = 1e-11 * ( 1 + std::fabs( ki->focal_length() ) * ( 1 + 1 / ki->aspect_ratio() ) + std::fabs( ki->skew() ) + std::fabs( a[ 0 ] ) + std::fabs( a[ 1 ] ) );
    VM_CHECK( ( a - b ).norm() <= tol, how + ":projection", "point " << p.transpose() << " projects to " << a.transpose() << " with the camera written and "
              << b.transpose() << " with the camera read:\n" << text( w ) );
    vm::event( "projections" );
  }
}

// the numbers of the text, in the order the format gives them: K, R, t, then distortion
std::vector< double > numbers( std::string const& s )
{
  std::vector< double > v;
  std::istringstream i( s );
  std::string t;
  while( i >> t )
  {
    char* e;
    v.push_back( std::strtod( t.c_str(), &e ) );
    VM_CHECK( !*e, "text:not-a-number", "token " << vm::show( t ) << " in " << vm::show( s ) );
  }
  return v;
}

void check_text( camera const& c, std::string const& s )
{
  std::vector< double > v = numbers( s );
  VM_CHECK( v.size() >= 21, "text:count", v.size() << " numbers in " << vm::show( s ) );
  auto k = c.intrinsics();
  double K[] = { k->focal_length(), k->skew(), k->principal_point()[ 0 ], 0, k->focal_length() / k->aspect_ratio(), k->principal_point()[ 1 ], 0, 0, 1 };
  for( size_t i = 0; i < 9; ++i ) { VM_CHECK( nearly( v[ i ], K[ i ], 0 ), "text:K", "element " << i << " of K is " << v[ i ] << " instead of " << K[ i ] << " in\n" << s ); }
  matrix_3x3d R( c.rotation() );
  for( size_t i = 0; i < 9; ++i )
  {
    double e = R( static_cast< int >( i / 3 ), static_cast< int >( i % 3 ) );
    VM_CHECK( nearly( v[ 9 + i ], e, 1 ), "text:R", "element " << i << " of R is " << v[ 9 + i ] << " instead of " << e << " in\n" << s );
  }
  for( size_t i = 0; i < 3; ++i )
  {
    double e = c.translation()[ static_cast< long >( i ) ];
    VM_CHECK( nearly( v[ 18 + i ], e, c.center().norm() ), "text:t", "element " << i << " of t is " << v[ 18 + i ] << " instead of " << e << " in\n" << s );
  }
}

std::string path_of( vm::Rng& r, std::string const& base )
{
  std::string p = base;
  if( r.chance( 1, 3 ) ) { p += "/new folder"; }
  if( r.chance( 1, 6 ) ) { p += "/a/b"; }
  return p + "/" + r.str( "abcXYZ019_-. ", 1, 12 ) + "k" + r.pick( std::vector< std::string >{ ".krtd", "", ".txt", ".KRTD" } );
}

void one_camera( vm::Rng& r )
{
  Cam spec = random_cam( r );
  simple_camera cam = make( spec, r );
  std::string base = vm::dir() + "/c", path = path_of( r, base );
  ::mkdir( base.c_str(), 0755 );
  vm::note( "one camera" );
  if( r.chance( 1, 3 ) )
  {
    // an older and longer file under the same name
    Cam other = random_cam( r );
    other.d.assign( 14, 0.123456789 );
    write_krtd_file( make( other, r ), path );
    vm::event( "overwritten" );
  }
  write_krtd_file( cam, path );
  std::string s = vm::slurp( path );
  VM_CHECK( !s.empty(), "write:nothing", "nothing in the file " << path );
  check_text( cam, s );
  camera_sptr g = read_krtd_file( path );
  VM_CHECK( g, "read:null", "no camera" );
  same( cam, *g, "file", r );
  vm::event( spec.d.empty() ? "no_lens" : "lens" );
  // writing what was read changes nothing any more
  std::string again = base + "/again.krtd";
  write_krtd_file( *g, again );
  same( *g, *read_krtd_file( again ), "second-file", r );
  vm::event( "cameras" );
  std::ostringstream k;
  k << spec.d.size() << "/" << static_cast< int >( std::log10( spec.f ) ) << "/" << ( spec.sk != 0 ) << ( spec.ax != 1 ) << "/" << static_cast< int >( std::log10( 1e-5 + cam.center().norm() ) ) << "/" << std::signbit( spec.qw );
  vm::sig( k.str() );
  // a file written by another program: other line breaks, other number formats
  if( r.chance( 1, 2 ) )
  {
    vm::note( "foreign camera file" );
    auto num = [ & ]( double v )
    {
      char b[ 64 ];
      std::snprintf( b, sizeof b, r.pick( std::vector< char const* >{ "%.17g", "%.17e", "%.20g", "%+.17g" } ), v );
      return std::string( b );
    };
    auto gap = [ & ]() { return r.pick( std::vector< std::string >{ " ", " ", "  ", "\t" } ); };
    auto brk = [ & ]() { return r.pick( std::vector< std::string >{ "\n", "\n", "\n\n", " \n", "\r\n" } ); };
    std::string t;
    matrix_3x3d R( cam.rotation() );
    double K[] = { spec.f, spec.sk, spec.px, 0, spec.f / spec.ax, spec.py, 0, 0, 1 };
    for( int i = 0; i < 9; ++i ) { t += num( K[ i ] ) + ( i % 3 == 2 ? brk() : gap() ); }
    t += brk();
    for( int i = 0; i < 9; ++i ) { t += num( R( i / 3, i % 3 ) ) + ( i % 3 == 2 ? brk() : gap() ); }
    t += brk();
    for( int i = 0; i < 3; ++i ) { t += num( cam.translation()[ i ] ) + ( i == 2 ? brk() : gap() ); }
    t += brk();
    for( size_t i = 0; i < spec.d.size(); ++i ) { t += num( spec.d[ i ] ) + ( i + 1 < spec.d.size() ? gap() : std::string() ); }
    if( spec.d.empty() && r.chance( 1, 2 ) ) { t += "0"; }
    if( r.chance( 1, 2 ) ) { t += brk(); }
    vm::spit( again, t );
    same( cam, *read_krtd_file( again ), "foreign-file", r );
    vm::event( "foreign" );
  }
  if( vm::st().samples.size() < 2 ) { vm::sample( s ); }
  vm::rmtree( base );
}

// several cameras and calibrations one after another in one stream
void streams( vm::Rng& r )
{
  vm::note( "cameras in a stream" );
  size_t n = static_cast< size_t >( r.range( 1, 5 ) );
  std::vector< simple_camera > cams;
  std::vector< bool > lens_only;
  std::ostringstream o;
  for( size_t i = 0; i < n; ++i )
  {
    cams.push_back( make( random_cam( r ), r ) );
    lens_only.push_back( r.chance( 1, 3 ) );
    if( lens_only.back() ) { o << *cams.back().intrinsics(); } else { o << cams.back(); }
    if( r.chance( 1, 3 ) ) { o << "\n"; }
  }
  std::string t = o.str();
  bool cut = r.chance( 1, 3 );
  if( cut ) { while( std::isspace( static_cast< unsigned char >( t.back() ) ) ) { t.pop_back(); } }
  bool more = !cut && r.chance( 1, 2 );
  if( more ) { t += "and more"; }
  std::istringstream i( t );
  for( size_t k = 0; k < n; ++k )
  {
    simple_camera got;
    got.set_center( vector_3d( 1, 2, 3 ) );
    if( lens_only[ k ] )
    {
      simple_camera_intrinsics in;
      i >> in;
      got = simple_camera( cams[ k ].center(), cams[ k ].rotation(), in );
    }
    else { i >> got; }
    same( cams[ k ], got, "stream", r );
    VM_CHECK( !i.fail() && !i.bad(), "stream:failed", "after " << k + 1 << " of " << n << " in\n" << t );
    if( k + 1 < n ) { VM_CHECK( i.good(), "stream:ended", "after " << k + 1 << " of " << n << " in\n" << t ); }
    vm::event( "cameras_from_streams" );
  }
  if( more )
  {
    std::string w;
    i >> w;
    VM_CHECK( w == "and", "stream:rest", vm::show( w ) );
  }
  else
  {
    std::string w;
    VM_CHECK( !( i >> w ), "stream:rest", vm::show( w ) );
  }
}

void camera_directory( vm::Rng& r )
{
  std::string base = vm::dir() + "/m", dir = base + "/cams";
  vm::note( "camera directory" );
  ::mkdir( base.c_str(), 0755 );
  ::mkdir( dir.c_str(), 0755 );
  size_t n = static_cast< size_t >( r.range( 0, 12 ) );
  std::vector< path_t > images;
  std::map< std::string, std::shared_ptr< simple_camera > > on_disk;
  unsigned have = static_cast< unsigned >( r.range( 0, 4 ) );
  for( size_t i = 0; i < n; ++i )
  {
    std::string stem = r.str( "abcdef0123456789_", 1, 4 );
    if( r.chance( 1, 3 ) ) { stem += "." + r.str( "0123456789x", 1, 3 ); }   // frame.0001.png
    if( !images.empty() && r.chance( 1, 8 ) ) { images.push_back( r.pick( images ) ); continue; }   // the same image twice
    std::string ext = r.pick( std::vector< std::string >{ ".png", ".jpg", ".tiff", ".krtd", ".PNG" } );
    std::string folder = r.pick( std::vector< std::string >{ "", "", "images/", "/data/im.d/", "../x/" } );
    images.push_back( folder + stem + ext );
    if( r.below( 4 ) < have )
    {
      auto c = std::make_shared< simple_camera >( make( random_cam( r ), r ) );
      write_krtd_file( *c, dir + "/" + stem + ".krtd" );
      on_disk[ stem ] = c;
    }
  }
  // files nobody asks for
  if( r.chance( 1, 2 ) ) { write_krtd_file( make( random_cam( r ), r ), dir + "/zzzz_unnamed.krtd" ); }
  std::map< frame_id_t, std::shared_ptr< simple_camera > > expected;
  for( size_t i = 0; i < images.size(); ++i )
  {
    std::string name = images[ i ].substr( images[ i ].rfind( '/' ) == std::string::npos ? 0 : images[ i ].rfind( '/' ) + 1 );
    auto it = on_disk.find( name.substr( 0, name.rfind( '.' ) ) );
    if( it != on_disk.end() ) { expected[ static_cast< frame_id_t >( i ) ] = it->second; }
  }
  camera_map_sptr got;
  std::string refused;
  try { got = read_krtd_files( images, r.chance( 1, 3 ) ? dir + "/" : dir ); }
  catch( invalid_data const& e ) { refused = e.what(); }
  std::ostringstream all;
  for( auto const& i : images ) { all << vm::show( i ) << " "; }
  if( expected.empty() )
  {
    VM_CHECK( !got, "map:empty-accepted", "no image has a camera file, but " << got->size() << " cameras were given for " << all.str() );
    vm::event( "none_found" );
  }
  else
  {
    VM_CHECK( got, "map:refused", "camera files of " << expected.size() << " images are there, but: " << refused << " images: " << all.str() );
    auto m = got->cameras();
    VM_CHECK( got->size() == m.size(), "map:size", got->size() << " against " << m.size() );
    for( auto const& e : expected )
    {
      auto it = m.find( e.first );
      VM_CHECK( it != m.end() && it->second, "map:missing", "no camera for image " << e.first << " of " << all.str() );
      same( *e.second, *it->second, "map", r );
    }
    VM_CHECK( m.size() == expected.size(), "map:extra", m.size() << " cameras instead of " << expected.size() << " for " << all.str() );
    vm::event( "maps" );
    if( expected.size() < images.size() ) { vm::event( "some_missing" ); }
    // single camera by image name
    frame_id_t f = expected.rbegin()->first;
    same( *expected.rbegin()->second, *read_krtd_file( images[ static_cast< size_t >( f ) ], dir ), "by-image", r );
  }
  // a directory that is not there
  bool thrown = false;
  try { read_krtd_files( images, base + "/nothing here" ); }
  catch( path_not_exists const& ) { thrown = true; }
  VM_CHECK( thrown, "map:no-directory", "a missing directory was not reported" );
  std::ostringstream k;
  k << "m" << images.size() << "/" << expected.size() << "/" << ( expected.empty() ? -1 : expected.begin()->first );
  vm::sig( k.str() );
  vm::rmtree( base );
}

void body( vm::Rng& r, uint64_t i )
{
  vm::OtherLocale other( r.chance( 1, 8 ) );
  if( i % 4 == 3 ) { camera_directory( r ); }
  else if( i % 4 == 1 && r.chance( 1, 3 ) ) { streams( r ); }
  else { one_camera( r ); }
}

} // namespace

VM_MAIN( body )
