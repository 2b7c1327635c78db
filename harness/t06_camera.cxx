// T06: camera projection, pose and lens model agree with their definitions.
#include "refalg.h"
#include <vital/types/camera.h>
#include <vital/types/camera_intrinsics.h>

using namespace kwiver::vital;
using namespace ref;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

struct V2 { L x, y; };

// reference lens model: k1 k2 p1 p2 k3 k4 k5 k6, radial (rational with 8) and tangential
V2 lens( std::vector< L > const& d, V2 p )
{
  auto c = [ & ]( size_t i ) { return d.size() > i ? d[ i ] : 0.0L; };
  L r2 = p.x * p.x + p.y * p.y;
  L k1 = c( 0 ), k2 = c( 1 ), p1 = 0, p2 = 0, k3 = 0, den = 1;
  if( d.size() >= 4 ) { p1 = c( 2 ); p2 = c( 3 ); }
  if( d.size() >= 5 ) { k3 = c( 4 ); }
  if( d.size() >= 8 ) { den = 1 + r2 * ( c( 5 ) + r2 * ( c( 6 ) + r2 * c( 7 ) ) ); }
  L s = ( 1 + r2 * ( k1 + r2 * ( k2 + r2 * k3 ) ) ) / den;
  return { s * p.x + 2 * p1 * p.x * p.y + p2 * ( r2 + 2 * p.x * p.x ), s * p.y + p1 * ( r2 + 2 * p.y * p.y ) + 2 * p2 * p.x * p.y };
}

// largest deviation of the lens model's derivative from the identity over a disc
L strength( std::vector< L > const& d, L radius )
{
  L worst = 0;
  const L h = 1e-5L;
  for( int i = 0; i <= 4; ++i )
  {
    for( int a = 0; a < 8; ++a )
    {
      L r = radius * i / 4, t = PI * a / 4;
      V2 p{ r * std::cos( t ), r * std::sin( t ) };
      V2 px = lens( d, { p.x + h, p.y } ), mx = lens( d, { p.x - h, p.y } ), py = lens( d, { p.x, p.y + h } ), my = lens( d, { p.x, p.y - h } );
      L j[] = { ( px.x - mx.x ) / ( 2 * h ) - 1, ( px.y - mx.y ) / ( 2 * h ), ( py.x - my.x ) / ( 2 * h ), ( py.y - my.y ) / ( 2 * h ) - 1 };
      for( L v : j ) { worst = std::max( worst, std::fabs( v ) ); }
    }
  }
  return worst;
}

struct Cal
{
  double f, ax, sk, px, py;
  std::vector< L > d;
  V2 map( V2 p ) const
  {
    V2 q = lens( d, p );
    return { q.x * f + q.y * sk + px, q.y * f / ax + py };
  }
  std::string text() const
  {
    std::ostringstream o;
    o << std::setprecision( 17 ) << "K(f=" << f << " aspect=" << ax << " skew=" << sk << " pp=" << px << "," << py << " d=[";
    for( L x : d ) { o << static_cast< double >( x ) << " "; }
    return o.str() + "])";
  }
};

Cal random_cal( vm::Rng& r )
{
  Cal k;
  k.f = r.chance( 1, 6 ) ? 1.0 : r.chance( 1, 10 ) ? r.near( 1 ) : std::pow( 10.0, r.real( -1, 4 ) );
  k.ax = r.chance( 1, 3 ) ? 1.0 : r.chance( 1, 5 ) ? r.near( 1 ) : r.real( 0.3, 3 );
  k.sk = r.chance( 1, 3 ) ? 0.0 : r.gauss() * k.f * ( r.chance( 1, 4 ) ? std::pow( 10.0, r.real( -8, -1 ) ) : 0.1 );
  k.px = r.chance( 1, 6 ) ? 0.0 : r.gauss() * 1000;
  k.py = r.chance( 1, 6 ) ? 0.0 : r.gauss() * 1000;
  size_t n = r.pick( std::vector< size_t >{ 0, 0, 1, 2, 4, 4, 5, 5, 8, 8, 3, 6, 7, 9, 12, 14 } );
  double scale = std::pow( 10.0, r.real( -4, 0 ) ) * 0.5;
  for( size_t i = 0; i < n; ++i )
  {
    double v = r.chance( 1, 5 ) ? 0.0 : r.gauss() * scale * ( i == 2 || i == 3 ? 0.3 : 1 );
    k.d.push_back( v );
  }
  return k;
}

std::shared_ptr< simple_camera_intrinsics > make( vm::Rng& r, Cal const& k )
{
  Eigen::VectorXd d( static_cast< Eigen::Index >( k.d.size() ) );
  for( size_t i = 0; i < k.d.size(); ++i ) { d[ static_cast< Eigen::Index >( i ) ] = static_cast< double >( k.d[ i ] ); }
  vector_2d pp( k.px, k.py );
  std::shared_ptr< simple_camera_intrinsics > in;
  switch( r.below( 4 ) )
  {
  case 0: in = std::make_shared< simple_camera_intrinsics >( k.f, pp, k.ax, k.sk, d ); break;
  case 1:
    in = std::make_shared< simple_camera_intrinsics >();
    in->set_focal_length( k.f );
    in->set_principal_point( pp );
    in->set_aspect_ratio( k.ax );
    in->set_skew( k.sk );
    in->set_dist_coeffs( d );
    break;
  case 2:
    {
      simple_camera_intrinsics base( k.f, pp, k.ax, k.sk, d );
      in = std::make_shared< simple_camera_intrinsics >( static_cast< camera_intrinsics const& >( base ) );
      break;
    }
  default:
    {
      matrix_3x3d K;
      K << k.f, k.sk, k.px, r.gauss() * 5, k.f / k.ax, k.py, r.gauss(), r.gauss(), 1;      // below the diagonal: ignored
      in = std::make_shared< simple_camera_intrinsics >( K, d );
    }
  }
  if( r.chance( 1, 3 ) ) { in = std::dynamic_pointer_cast< simple_camera_intrinsics >( in->clone() ); }
  return in;
}

#define REL( got, want, tol, key, t ) do { L g_ = ( got ), w_ = ( want ); VM_CHECK( std::fabs( g_ - w_ ) <= ( tol ), key, "got " << g_ << " want " << w_ << " " << t ); } while( 0 )

void check_cal( camera_intrinsics const& in, Cal const& k )
{
  std::string t = k.text();
  REL( in.focal_length(), k.f, 0, "focal", t );
  REL( in.aspect_ratio(), k.ax, 1e-15L * k.ax * 4, "aspect", t );
  REL( in.skew(), k.sk, 0, "skew", t );
  REL( in.principal_point().x(), k.px, 0, "principal-x", t );
  REL( in.principal_point().y(), k.py, 0, "principal-y", t );
  std::vector< double > d = in.dist_coeffs();
  VM_CHECK( d.size() == k.d.size(), "coefficients-count", d.size() << " " << t );
  for( size_t i = 0; i < d.size(); ++i ) { REL( d[ i ], k.d[ i ], 0, "coefficients", t ); }
  matrix_3x3d K = in.as_matrix();
  L want[ 3 ][ 3 ] = { { k.f, k.sk, k.px }, { 0, static_cast< L >( k.f ) / k.ax, k.py }, { 0, 0, 1 } };
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { REL( K( i, j ), want[ i ][ j ], 1e-14L * std::fabs( want[ i ][ j ] ), "matrix", t ); } }
}

// an intrinsics type of a caller: its own lens, everything else inherited
struct own_lens : camera_intrinsics
{
  Cal k;
  explicit own_lens( Cal const& c ) : k( c ) { }
  camera_intrinsics_sptr clone() const override { return std::make_shared< own_lens >( *this ); }
  double focal_length() const override { return k.f; }
  vector_2d principal_point() const override { return vector_2d( k.px, k.py ); }
  double aspect_ratio() const override { return k.ax; }
  double skew() const override { return k.sk; }
  vector_2d distort( vector_2d const& p ) const override { return vector_2d( p.x() * 2 + 1, p.y() * 4 - 3 ); }
  vector_2d undistort( vector_2d const& p ) const override { return vector_2d( ( p.x() - 1 ) / 2, ( p.y() + 3 ) / 4 ); }
};

// the least a caller has to write: no lens, all of the rest inherited
struct bare_intrinsics : camera_intrinsics
{
  Cal k;
  explicit bare_intrinsics( Cal const& c ) : k( c ) { k.d.clear(); }
  camera_intrinsics_sptr clone() const override { return std::make_shared< bare_intrinsics >( *this ); }
  double focal_length() const override { return k.f; }
  vector_2d principal_point() const override { return vector_2d( k.px, k.py ); }
  double aspect_ratio() const override { return k.ax; }
  double skew() const override { return k.sk; }
};

void bare_case( vm::Rng& r, Cal const& full )
{
  bare_intrinsics b( full );
  std::string t = b.k.text();
  check_cal( b, b.k );
  check_cal( *b.clone(), b.k );
  check_cal( simple_camera_intrinsics( b ), b.k );
  vector_2d p( r.gauss(), r.gauss() );
  VM_CHECK( b.distort( p ) == p && b.undistort( p ) == p, "bare-lens", p.transpose() << " " << t );
  vector_2d q = b.map( p ), s = simple_camera_intrinsics( b ).map( p );
  V2 want = b.k.map( { p.x(), p.y() } );
  L tx = 1e-14L * ( std::fabs( b.k.f * p.x() ) + std::fabs( b.k.sk * p.y() ) + std::fabs( b.k.px ) ) * 4, ty = 1e-14L * ( std::fabs( b.k.f / b.k.ax * p.y() ) + std::fabs( b.k.py ) ) * 4;
  REL( q.x(), want.x, tx, "bare-map-x", t );
  REL( q.y(), want.y, ty, "bare-map-y", t );
  REL( s.x(), want.x, tx, "bare-copied-map-x", t );
  REL( s.y(), want.y, ty, "bare-copied-map-y", t );
  double w = r.chance( 1, 2 ) ? std::pow( 2.0, r.range( -6, 6 ) ) : -std::pow( 2.0, r.range( -6, 6 ) );
  vector_2d h = b.map( vector_3d( p.x() * w, p.y() * w, w ) );
  VM_CHECK( h == q, "bare-map-homogeneous", h.transpose() << " " << q.transpose() << " " << t );
  std::ostringstream o, o2;
  o << b; o2 << simple_camera_intrinsics( b );
  VM_CHECK( o.str() == o2.str() && !o.str().empty(), "bare-written", o.str() << " and " << o2.str() );
  simple_camera_intrinsics d;
  check_cal( d, Cal{ 1, 1, 0, 0, 0, {} } );
  VM_CHECK( d.map( p ) == p && d.unmap( p ) == p, "default-map", p.transpose() );
  vm::event( "bare_intrinsics" );
}

void lens_case( vm::Rng& r )
{
  Cal k = random_cal( r );
  auto in = make( r, k );
  vm::note( k.text() );
  check_cal( *in, k );
  bare_case( r, k );
  vm::event( k.d.empty() ? "no_lens" : k.d.size() < 4 ? "radial" : k.d.size() < 8 ? "tangential" : "rational" );
  bool standard = k.d.size() < 3 || k.d.size() == 4 || k.d.size() == 5 || k.d.size() == 8;
  for( int i = 0; i < 12; ++i )
  {
    double rad = std::pow( 10.0, r.real( -4, 0.3 ) ), th = r.real( 0, 6.2832 );
    if( r.chance( 1, 8 ) ) { rad = 0; }
    vector_2d p( rad * std::cos( th ), rad * std::sin( th ) );
    if( r.chance( 1, 8 ) ) { p[ r.below( 2 ) ] = 0; }
    V2 lp{ p.x(), p.y() };
    L s = strength( k.d, rad * 1.6L );
    std::string t = k.text() + " at " + vm::str( p.transpose() ) + " strength " + vm::str( static_cast< double >( s ) );
    if( !( s < 1e3L ) ) { continue; }
    L amount = 1 + std::fabs( lp.x ) + std::fabs( lp.y );
    if( standard )
    {
      vector_2d q = in->distort( p );
      V2 want = lens( k.d, lp );
      L tol = 1e-13L * amount * ( 1 + s ) * ( 1 + s );
      REL( q.x(), want.x, tol, "distort-x", t );
      REL( q.y(), want.y, tol, "distort-y", t );
      vector_2d m = in->map( p );
      V2 wm = k.map( lp );
      L mt = tol * ( k.f + std::fabs( k.sk ) + k.f / k.ax ) + 1e-13L * ( std::fabs( k.px ) + std::fabs( k.py ) );
      REL( m.x(), wm.x, mt, "map-x", t );
      REL( m.y(), wm.y, mt, "map-y", t );
      double z = ( r.chance( 1, 2 ) ? 1 : -1 ) * std::pow( 10.0, r.real( -3, 3 ) );
      vector_2d m3_ = in->map( vector_3d( p.x() * z, p.y() * z, z ) );
      REL( m3_.x(), wm.x, 10 * mt, "map-3d-x", t );
      REL( m3_.y(), wm.y, 10 * mt, "map-3d-y", t );
      vm::event( "points_mapped" );
    }
    // the solver of the inverse is iterative: distortions up to the strength of real lenses
    if( s < 0.15L )
    {
      vector_2d q = in->distort( p ), u = in->undistort( q );
      L e = std::max( std::fabs( u.x() - lp.x ), std::fabs( u.y() - lp.y ) );
      VM_CHECK( e <= 2e-11L * amount, "undistort", "off by " << e << " " << t );
      vector_2d back = in->unmap( in->map( p ) );
      L e2 = std::max( std::fabs( back.x() - lp.x ), std::fabs( back.y() - lp.y ) );
      L cond = 1 + ( std::fabs( static_cast< L >( k.px ) ) + std::fabs( static_cast< L >( k.py ) ) ) / k.f * ( 1 + k.ax ) * ( 1 + std::fabs( k.sk ) / k.f );
      VM_CHECK( e2 <= 2e-11L * amount * cond, "unmap", "off by " << e2 << " " << t );
      vector_2d dd = in->distort( in->undistort( p ) );
      L e3 = std::max( std::fabs( dd.x() - lp.x ), std::fabs( dd.y() - lp.y ) );
      VM_CHECK( e3 <= 2e-11L * amount, "distort-of-undistort", "off by " << e3 << " " << t );
      vm::event( "inverses" );
      vm::sig( "lens" + std::to_string( k.d.size() ) + "/" + std::to_string( static_cast< int >( std::log10( static_cast< double >( s ) + 1e-12 ) * 4 ) ) + "/" +
               std::to_string( static_cast< int >( std::log10( rad + 1e-9 ) * 4 ) ) + "/" + std::to_string( static_cast< int >( th ) ) );
    }
  }
}

V3 random_point( vm::Rng& r, double size ) { return { r.gauss() * size, r.gauss() * size, r.gauss() * size }; }
vector_3d ev( V3 const& v ) { return vector_3d( static_cast< double >( v[ 0 ] ), static_cast< double >( v[ 1 ] ), static_cast< double >( v[ 2 ] ) ); }
V3 rounded( V3 const& v ) { return v3( ev( v ) ); }

void pose_case( vm::Rng& r )
{
  Cal k = random_cal( r );
  if( r.chance( 1, 3 ) ) { k.d.clear(); }
  while( k.d.size() == 3 || k.d.size() == 6 || k.d.size() == 7 || k.d.size() > 8 ) { k.d.pop_back(); }
  auto in = make( r, k );
  double world = std::pow( 10.0, r.real( -2, 4 ) );
  V3 c = rounded( random_point( r, world ) );
  if( r.chance( 1, 10 ) ) { c = { 0, 0, 0 }; }
  int kind;
  rotation_d rot_( eq< double >( random_q( r, kind ) ) );
  M3 R = m3( rot_.quaternion() );
  std::string log = k.text() + " c=" + text( c ) + " R=" + text( R );
  simple_camera cam;
  int how = static_cast< int >( r.below( 6 ) );
  log += " built " + std::to_string( how );
  vm::note( log );
  const L E = 1e-12L;
  L size = 1 + norm( c );
  switch( how )
  {
  case 0: cam = simple_camera( ev( c ), rot_, in ); break;
  case 1: cam = simple_camera( ev( c ), rot_, *in ); in->set_focal_length( 17 ); in->set_dist_coeffs( Eigen::VectorXd() ); break;   // clones: later changes do not count
  case 2: cam.set_center( ev( c ) ); cam.set_rotation( rot_ ); cam.set_intrinsics( in ); break;
  case 3:
    {
      simple_camera b( ev( c ), rot_, in );
      cam = simple_camera( static_cast< camera const& >( b ) );
      break;
    }
  case 4:
    {
      simple_camera b( ev( c ), rot_, in );
      camera_sptr cl = b.clone();
      b.set_center( vector_3d( 1, 2, 3 ) );
      b.set_rotation( rotation_d() );
      cam = simple_camera( *cl );
      break;
    }
  default:
    {
      cam.set_rotation( rot_ );
      V3 t = scale( mul( R, c ), -1 );
      cam.set_translation( ev( t ) );
      cam.set_intrinsics( in );
      L d = diff( v3( cam.center() ), c );
      VM_CHECK( d <= E * size, "center-from-translation", "off by " << d << " " << log );
      c = v3( cam.center() );
    }
  }
  if( r.chance( 1, 2 ) )
  {
    Eigen::Matrix3d cv;
    for( int i = 0; i < 3; ++i ) { for( int j = 0; j <= i; ++j ) { cv( i, j ) = cv( j, i ) = r.gauss(); } }
    cam.set_center_covar( covariance_3d( cv ) );
    simple_camera again( static_cast< camera const& >( cam ) );
    VM_CHECK( Eigen::Matrix3d( again.center_covar() ) == cv && Eigen::Matrix3d( cam.get_center_covar() ) == cv, "center-covariance", log );
  }
  VM_CHECK( diff( v3( cam.center() ), c ) == 0 && diff( v3( cam.get_center() ), c ) == 0, "center", text( v3( cam.center() ) ) << " " << log );
  VM_CHECK( diff( m3( Eigen::Matrix3d( cam.rotation() ) ), R ) <= 8e-16L * 4, "rotation", log );
  V3 t = scale( mul( R, c ), -1 );
  L dt = diff( v3( cam.translation() ), t );
  VM_CHECK( dt <= E * size, "translation", "off by " << dt << " " << log );
  check_cal( *cam.intrinsics(), k );
  VM_CHECK( cam.intrinsics() == cam.get_intrinsics(), "intrinsics-accessors", log );
  vm::event( "cameras" );

  matrix_3x4d P = cam.as_matrix();
  for( int i = 0; i < 3; ++i )
  {
    L krow[ 3 ] = { i == 0 ? static_cast< L >( k.f ) : 0, i == 0 ? static_cast< L >( k.sk ) : i == 1 ? static_cast< L >( k.f ) / k.ax : 0,
                    i == 0 ? static_cast< L >( k.px ) : i == 1 ? static_cast< L >( k.py ) : 1 };
    L mag = std::fabs( krow[ 0 ] ) + std::fabs( krow[ 1 ] ) + std::fabs( krow[ 2 ] );
    for( int j = 0; j < 4; ++j )
    {
      L want = 0;
      for( int a = 0; a < 3; ++a ) { want += krow[ a ] * ( j < 3 ? R[ a ][ j ] : t[ a ] ); }
      REL( P( i, j ), want, E * mag * ( j < 3 ? 1 : size ), "projection-matrix", log );
    }
  }
  for( int n = 0; n < 6; ++n )
  {
    // a point at a chosen depth, in front or behind
    L z = ( r.chance( 1, 3 ) ? -1 : 1 ) * world * std::pow( 10.0L, r.real( -2, 1 ) );
    L slope = std::pow( 10.0L, r.real( -3, 0.2 ) ), th = r.real( 0, 6.2832 );
    V3 pc{ z * slope * std::cos( th ), z * slope * std::sin( th ), z };
    V3 X = rounded( add( mul( tr( R ), pc ), c ) );
    pc = mul( R, sub( X, c ) );
    L err = 2e-15L * 8 * ( norm( X ) + norm( c ) + norm( pc ) );
    std::string lt = log + " X=" + text( X );
    L dep = cam.depth( ev( X ) );
    REL( dep, pc[ 2 ], err, "depth", lt );
    if( std::fabs( pc[ 2 ] ) > 2 * err ) { VM_CHECK( ( dep < 0 ) == ( z < 0 ), "depth-sign", dep << " " << lt ); }
    vm::event( z < 0 ? "behind" : "in_front" );
    V2 np{ pc[ 0 ] / pc[ 2 ], pc[ 1 ] / pc[ 2 ] };
    L rel = err / std::fabs( pc[ 2 ] ) * ( 1 + slope ) + 1e-15L;
    L s = strength( k.d, slope * 1.1L + rel );
    if( !( s < 50 ) || rel > 1e-6L ) { continue; }
    V2 want = k.map( np );
    vector_2d got = cam.project( ev( X ) );
    L tol = ( 4 * rel * ( 1 + s ) + 1e-13L * ( 1 + slope ) * ( 1 + s ) * ( 1 + s ) ) * ( k.f + std::fabs( k.sk ) + k.f / k.ax ) + 1e-13L * ( std::fabs( k.px ) + std::fabs( k.py ) );
    REL( got.x(), want.x, tol, "project-x", lt );
    REL( got.y(), want.y, tol, "project-y", lt );
    vm::event( "points_projected" );
    if( k.d.empty() )
    {
      Eigen::Vector3d h = P * Eigen::Vector4d( ev( X )[ 0 ], ev( X )[ 1 ], ev( X )[ 2 ], 1 );
      L ht = tol * 4 + E * 4 * size * ( k.f + std::fabs( k.sk ) + std::fabs( k.px ) + std::fabs( k.py ) + k.f / k.ax ) * ( 1 + norm( X ) / size ) / std::fabs( pc[ 2 ] ) * ( 1 + slope );
      REL( h[ 0 ] / h[ 2 ], want.x, ht * ( 1 + std::fabs( want.x ) / ( k.f + 1 ) ), "matrix-projection-x", lt );
      REL( h[ 1 ] / h[ 2 ], want.y, ht * ( 1 + std::fabs( want.y ) / ( k.f + 1 ) ), "matrix-projection-y", lt );
      vm::event( "matrix_projections" );
    }
    vm::sig( "pose" + std::to_string( how ) + "." + std::to_string( kind ) + "." + std::to_string( k.d.size() ) + ( z < 0 ? "b" : "f" ) + std::to_string( static_cast< int >( th ) ) );
  }
  // default intrinsics in place of none
  {
    simple_camera none;
    VM_CHECK( norm( v3( none.center() ) ) == 0 && diff( m3( Eigen::Matrix3d( none.rotation() ) ), m3( rotation_d().quaternion() ) ) == 0 &&
              none.intrinsics() && none.intrinsics()->as_matrix() == matrix_3x3d( matrix_3x3d::Identity() ) &&
              Eigen::Matrix3d( none.center_covar() ) == Eigen::Matrix3d( Eigen::Matrix3d::Identity() ), "default-camera", none.as_matrix() );
    vm::event( "default_cameras" );
    simple_camera d( ev( c ), rot_ );
    VM_CHECK( d.intrinsics() && d.intrinsics()->focal_length() == 1 && d.intrinsics()->as_matrix() == matrix_3x3d( matrix_3x3d::Identity() ), "default-intrinsics", log );
    simple_camera e( cam );
    e.set_intrinsics( nullptr );
    VM_CHECK( e.intrinsics() && e.intrinsics()->as_matrix() == matrix_3x3d( matrix_3x3d::Identity() ) && cam.intrinsics()->focal_length() == k.f, "null-intrinsics", log );
  }
  if( r.chance( 1, 5 ) )
  {
    auto o = std::make_shared< own_lens >( k );
    simple_camera oc( ev( c ), rot_, o );
    V3 X = rounded( add( mul( tr( R ), V3{ 1, 2, 4 } ), c ) );
    V3 pc = mul( R, sub( X, c ) );
    L nx = pc[ 0 ] / pc[ 2 ] * 2 + 1, ny = pc[ 1 ] / pc[ 2 ] * 4 - 3;
    L tol = 1e-13L * ( 10 + size ) * ( k.f * ( 1 + 1 / k.ax ) + std::fabs( k.sk ) + std::fabs( k.px ) + std::fabs( k.py ) ) * 10;
    vector_2d got = oc.project( ev( X ) );
    REL( got.x(), nx * k.f + ny * k.sk + k.px, tol, "own-lens-x", log );
    REL( got.y(), ny * k.f / k.ax + k.py, tol, "own-lens-y", log );
    vector_2d un = o->unmap( got );
    L ut = 1e-13L * ( 10 + size ) * 100 * ( 1 + ( std::fabs( k.px ) + std::fabs( k.py ) + std::fabs( k.sk ) ) / k.f ) * ( 1 + k.ax ) * ( 1 + 1 / k.ax ) * ( 1 + std::fabs( k.sk ) / k.f );
    REL( un.x(), pc[ 0 ] / pc[ 2 ], ut, "own-lens-unmap-x", log );
    REL( un.y(), pc[ 1 ] / pc[ 2 ], ut, "own-lens-unmap-y", log );
    vm::event( "own_lens" );
  }
  // aiming
  {
    V3 target = rounded( add( c, random_point( r, world * std::pow( 10.0, r.real( -2, 1 ) ) ) ) );
    V3 up{ 0, 0, 1 };
    bool dflt = r.chance( 1, 3 );
    V3 z = sub( target, c );
    // any length of the up direction, and sometimes nearly along the view
    if( !dflt )
    {
      up = random_point( r, 1 );
      if( r.chance( 1, 4 ) && norm( z ) > 0 ) { up = add( scale( z, ( r.chance( 1, 2 ) ? 1 : -1 ) / norm( z ) ), scale( up, std::pow( 10.0, r.real( -5, 0 ) ) ) ); }
      up = rounded( scale( up, std::pow( 10.0, r.real( -6, 6 ) ) ) );
    }
    L dist = norm( z ), un = norm( up );
    if( dist < 1e-9L * size || un < 1e-8L ) { return; }
    L sn = norm( cross( z, up ) ) / ( dist * un );
    if( sn < 1e-6L ) { vm::event( "up_along_view" ); return; }
    if( sn < 1e-3L ) { vm::event( "up_nearly_along_view" ); }
    if( un < 1e-3L || un > 1e3L ) { vm::event( "up_of_other_length" ); }
    if( dflt ) { cam.look_at( ev( target ) ); }
    else { cam.look_at( ev( target ), ev( up ) ); }
    std::string lt = log + " look at " + text( target ) + " up " + text( up );
    M3 N = m3( Eigen::Matrix3d( cam.rotation() ) );
    L e = 1e-14L * ( 10 / sn + size / dist );
    VM_CHECK( diff( v3( cam.center() ), c ) == 0, "look-at-moved", lt );
    VM_CHECK( diff( mul( N, tr( N ) ), ident() ) <= e && std::fabs( det( N ) - 1 ) <= e, "look-at-rotation", text( N ) << lt );
    V3 zc = scale( mul( N, z ), 1 / dist );
    VM_CHECK( diff( zc, ( V3{ 0, 0, 1 } ) ) <= e, "look-at-center", text( zc ) << " " << lt );
    V3 uc = scale( mul( N, up ), 1 / un );
    VM_CHECK( std::fabs( uc[ 0 ] ) <= e, "look-at-roll", text( uc ) << " " << lt );
    VM_CHECK( uc[ 1 ] < 0, "look-at-upside-down", text( uc ) << " " << lt );
    if( k.d.empty() )
    {
      vector_2d p = cam.project( ev( target ) );
      REL( p.x(), k.px, e * ( k.f + std::fabs( k.sk ) ) * 4 + 1e-13L * std::fabs( k.px ), "look-at-projection-x", lt );
      REL( p.y(), k.py, e * k.f / k.ax * 4 + 1e-13L * std::fabs( k.py ), "look-at-projection-y", lt );
    }
    vm::event( "aimed" );
  }
}

void body( vm::Rng& r, uint64_t i )
{
  if( i % 2 ) { lens_case( r ); }
  else { pose_case( r ); }
}

} // namespace
VM_MAIN( body )
