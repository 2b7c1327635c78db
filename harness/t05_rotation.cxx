// T05: rotations and similarity transforms obey their algebra in every representation.
#include "refalg.h"
#include <vital/types/rotation.h>
#include <vital/types/similarity.h>
#include <vital/types/vector.h>
#include <cstring>
#include <new>

using namespace kwiver::vital;
using namespace ref;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

template < class T > struct Tol;
template <> struct Tol< double > { static L e() { return 1e-12L; } };
template <> struct Tol< float > { static L e() { return 2e-5L; } };

template < class T > M3 mat( rotation_< T > const& x ) { return m3( Eigen::Matrix< T, 3, 3 >( x ) ); }
std::string qtext( Q const& q ) { std::ostringstream o; o << std::setprecision( 18 ) << "q(" << q[ 0 ] << "," << q[ 1 ] << "," << q[ 2 ] << "," << q[ 3 ] << ") "; return o.str(); }

#define NEAR( a, b, tol, key, text_ ) do { L d_ = diff( a, b ); VM_CHECK( d_ <= ( tol ), key, "off by " << d_ << " got " << text( a ) << " want " << text( b ) << " " << text_ ); } while( 0 )

template < class T > rotation_< T > gen( vm::Rng& r, std::string& log, int& kind )
{
  Q q = random_q( r, kind );
  log += qtext( q );
  return rotation_< T >( eq< T >( q ) );
}

template < class T > Eigen::Matrix< T, 3, 1 > vec( vm::Rng& r, double size )
{
  return Eigen::Matrix< T, 3, 1 >( static_cast< T >( r.gauss() * size ), static_cast< T >( r.gauss() * size ), static_cast< T >( r.gauss() * size ) );
}

template < class T > void rotations( vm::Rng& r, char const* tn )
{
  const L E = Tol< T >::e();
  std::string log = std::string( tn ) + " ";
  int kind;
  rotation_< T > A = gen< T >( r, log, kind );
  int kind2;
  rotation_< T > B = gen< T >( r, log, kind2 );
  M3 a = m3( A.quaternion() ), b = m3( B.quaternion() );
  vm::sig( std::string( tn ) + std::to_string( kind ) + "." + std::to_string( kind2 ) + "." + std::to_string( A.quaternion().w() < 0 ) + std::to_string( B.quaternion().w() < 0 ) +
           std::to_string( static_cast< int >( between( a, b ) * 5 ) ) + "/" + std::to_string( r.below( 50 ) ) );
  if( kind == 1 ) { vm::event( "half_turns" ); }
  if( kind == 0 ) { vm::event( "identities" ); }

  // matrix
  NEAR( mat( A ), a, E, "to-matrix", log );
  {
    Eigen::Matrix< T, 3, 3 > M( A );
    rotation_< T > back( M );
    NEAR( mat( back ), a, 4 * E, "from-matrix", log );
    NEAR( m3( back.quaternion() ), a, 4 * E, "from-matrix-quaternion", log );
  }
  // angle and axis
  {
    L want = between( ident(), a );
    L ang = A.angle();
    VM_CHECK( std::fabs( ang ) <= PI * ( 1 + 1e-6L ), "angle-range", ang << " " << log );
    VM_CHECK( std::fabs( std::fabs( ang ) - want ) <= 20 * E, "angle", ang << " want " << want << " " << log );
    V3 ax = v3( A.axis() );
    VM_CHECK( std::fabs( norm( ax ) - 1 ) <= 4 * E, "axis-length", norm( ax ) << " " << log );
    NEAR( rot( ang, ax ), a, 20 * E, "angle-axis", log );
    NEAR( mul( a, ax ), ax, 20 * E, "axis-is-fixed", log );
    rotation_< T > again( A.angle(), A.axis() * static_cast< T >( r.chance( 1, 3 ) ? 1 : r.chance( 1, 3 ) ? r.near( 1 ) : r.real( 0.01, 300 ) ) );
    NEAR( mat( again ), a, 20 * E, "from-angle-axis", log );
    if( kind == 0 ) { NEAR( ax, ( V3{ 0, 0, 1 } ), 0, "identity-axis", log ); }
  }
  // Rodrigues vector
  {
    Eigen::Matrix< T, 3, 1 > rv = A.rodrigues();
    NEAR( mat( rotation_< T >( rv ) ), a, 20 * E, "rodrigues-round-trip", log );
    V3 w = v3( rv );
    L n = norm( w );
    VM_CHECK( std::fabs( n - std::fabs( static_cast< L >( A.angle() ) ) ) <= 10 * E, "rodrigues-length", n << " " << log );
    NEAR( n == 0 ? ident() : rot( n, w ), a, 20 * E, "rodrigues-vector", log );
    Eigen::Matrix< T, 3, 1 > x = vec< T >( r, std::pow( 10.0, r.real( -12, 1 ) ) );
    if( r.chance( 1, 10 ) ) { x.setZero(); }
    if( r.chance( 1, 20 ) ) { x = Eigen::Matrix< T, 3, 1 >( std::numeric_limits< T >::min(), 0, 0 ); }
    L m = norm( v3( x ) );
    rotation_< T > rx( x );
    NEAR( mat( rx ), m == 0 ? ident() : rot( m, v3( x ) ), E * ( 4 + 4 * m ), "from-rodrigues", text( v3( x ) ) );
  }
  // yaw, pitch, roll: rotation about z, y, x in turn, from north-east-down to east-north-up
  {
    T y = static_cast< T >( r.chance( 1, 5 ) ? 1.5707963267948966 * static_cast< double >( r.range( -2, 2 ) ) : r.real( -3.14, 3.14 ) );
    T p = static_cast< T >( r.chance( 1, 5 ) ? 0 : r.real( -1.5, 1.5 ) );
    T o = static_cast< T >( r.chance( 1, 5 ) ? 1.5707963267948966 * static_cast< double >( r.range( -2, 2 ) ) : r.real( -3.14, 3.14 ) );
    bool steep = r.chance( 1, 6 );
    if( steep ) { p = static_cast< T >( ( r.chance( 1, 2 ) ? 1 : -1 ) * 1.57079632679489661923 ); }
    rotation_< T > Y( y, p, o );
    M3 ned{ { { 0, 1, 0 }, { 1, 0, 0 }, { 0, 0, -1 } } };
    M3 want = mul( mul( mul( rot( -o, V3{ 1, 0, 0 } ), rot( -p, V3{ 0, 1, 0 } ) ), rot( -y, V3{ 0, 0, 1 } ) ), ned );
    std::string t = log + " ypr " + vm::str( y ) + " " + vm::str( p ) + " " + vm::str( o );
    NEAR( mat( Y ), want, 4 * E, "from-yaw-pitch-roll", t );
    if( !steep )
    {
      T y2, p2, o2;
      Y.get_yaw_pitch_roll( y2, p2, o2 );
      NEAR( mat( rotation_< T >( y2, p2, o2 ) ), want, 200 * E, "yaw-pitch-roll-round-trip", t );
      L c = std::cos( static_cast< L >( p ) );
      VM_CHECK( std::fabs( p2 - p ) * c <= 50 * E, "pitch", p2 << " " << t );
      vm::event( "yaw_pitch_roll" );
    }
    else
    {
      // vertical pitch: yaw and roll are not determined one by one, the rotation is still valid
      T y2, p2, o2;
      Y.get_yaw_pitch_roll( y2, p2, o2 );
      VM_CHECK( std::isfinite( static_cast< double >( y2 ) ) && std::isfinite( static_cast< double >( p2 ) ) && std::isfinite( static_cast< double >( o2 ) ), "vertical-pitch", t );
      VM_CHECK( std::fabs( std::fabs( static_cast< L >( p2 ) ) - PI / 2 ) <= 3e-3L, "vertical-pitch-angle", p2 << " " << t );
      vm::event( "vertical_pitch" );
    }
    T y3, p3, o3;
    A.get_yaw_pitch_roll( y3, p3, o3 );
    L cp = std::cos( static_cast< L >( p3 ) );
    if( cp > 0.02L ) { NEAR( mat( rotation_< T >( y3, p3, o3 ) ), a, 20 * E / ( cp * cp ), "any-to-yaw-pitch-roll", log ); }
  }
  // algebra
  NEAR( mat( A * B ), mul( a, b ), 8 * E, "compose", log );
  NEAR( mat( A.inverse() ), tr( a ), 8 * E, "inverse", log );
  NEAR( mat( A * A.inverse() ), ident(), 8 * E, "inverse-cancels", log );
  double size = std::pow( 10.0, r.real( -3, 3 ) );
  Eigen::Matrix< T, 3, 1 > v = vec< T >( r, size );
  NEAR( v3( A * v ), mul( a, v3( v ) ), 8 * E * static_cast< L >( size * 4 ), "apply", log );
  NEAR( v3( ( A * B ) * v ), v3( A * ( B * v ) ), 16 * E * static_cast< L >( size * 4 ), "apply-composed", log );
  // equality, precision
  {
    rotation_< T > C( A );
    VM_CHECK( C == A && !( C != A ), "copy-equal", log );
    VM_CHECK( ( A == B ) == ( A.quaternion().coeffs() == B.quaternion().coeffs() ) && ( A != B ) == !( A == B ), "equality", log );
    NEAR( mat( rotation_< float >( A ) ), a, Tol< float >::e(), "to-float", log );
    NEAR( mat( rotation_< double >( A ) ), a, 4 * E, "to-double", log );
    // a rotation from the vector of the quaternion's coefficients is that rotation
    Eigen::Matrix< T, 4, 1 > co = A.quaternion().coeffs();
    VM_CHECK( rotation_< T >( co ) == A, "from-coefficients", log );
    std::stringstream s;
    s << std::setprecision( 20 ) << A;
    rotation_< T > D;
    s >> D;
    VM_CHECK( D == A, "stream", s.str() << " " << log );
  }
  // interpolation
  {
    L full = between( a, b );
    NEAR( mat( interpolate_rotation( A, B, T( 0 ) ) ), a, 20 * E, "interpolate-start", log );
    NEAR( mat( interpolate_rotation( A, B, T( 1 ) ) ), b, 20 * E, "interpolate-end", log );
    T f = static_cast< T >( r.unit() );
    M3 m = mat( interpolate_rotation( A, B, f ) );
    VM_CHECK( std::fabs( between( a, m ) - f * full ) <= 60 * E, "interpolate-rate", "f " << f << " of " << full << " gives " << between( a, m ) << " " << log );
    VM_CHECK( std::fabs( between( m, b ) - ( 1 - f ) * full ) <= 60 * E, "interpolate-rest", "f " << f << " of " << full << " leaves " << between( m, b ) << " " << log );
    size_t n = static_cast< size_t >( r.range( 1, 6 ) ), have = r.below( 3 );
    std::vector< rotation_< T > > out( have, A );
    interpolated_rotations( A, B, n, out );
    VM_CHECK( out.size() == have + n, "interpolations-count", out.size() << " " << log );
    for( size_t i = 0; i < have; ++i ) { VM_CHECK( out[ i ] == A, "interpolations-prefix", log ); }
    for( size_t i = 0; i < n; ++i )
    {
      L g = static_cast< L >( i + 1 ) / static_cast< L >( n + 1 );
      M3 k = mat( out[ have + i ] );
      VM_CHECK( std::fabs( between( a, k ) - g * full ) <= 60 * E && std::fabs( between( k, b ) - ( 1 - g ) * full ) <= 60 * E, "interpolations", i << " of " << n << " at " << between( a, k ) << " of " << full << " " << log );
    }
    vm::event( "interpolations" );
  }
  vm::event( "rotations" );
}

template < class T > void similarities( vm::Rng& r, char const* tn )
{
  const L E = Tol< T >::e() * 10;
  std::string log = std::string( tn ) + " similarity ";
  int k1, k2;
  rotation_< T > RA = gen< T >( r, log, k1 ), RB = gen< T >( r, log, k2 );
  auto size_of = [ & ]() { return static_cast< T >( r.chance( 1, 5 ) ? r.near( 1 ) : r.chance( 1, 10 ) ? 1.0 : std::pow( 10.0, r.real( -3, 3 ) ) ); };
  T sa = size_of(), sb = size_of();
  double big = std::pow( 10.0, r.real( -2, 3 ) );
  Eigen::Matrix< T, 3, 1 > ta = vec< T >( r, big ), tb = vec< T >( r, big ), v = vec< T >( r, big );
  log += " s " + vm::str( sa ) + " " + vm::str( sb );
  similarity_< T > A( sa, RA, ta ), B( sb, RB, tb );
  M3 a = m3( RA.quaternion() ), b = m3( RB.quaternion() );
  auto apply = []( L s, M3 const& m, V3 const& t, V3 const& x ) { return add( scale( mul( m, x ), s ), t ); };
  V3 want = apply( sa, a, v3( ta ), v3( v ) );
  L mag = ( 1 + sa ) * static_cast< L >( big ) * 6;
  NEAR( v3( A * v ), want, E * mag, "similarity-apply", log );
  VM_CHECK( A.scale() == sa && A.rotation() == RA && A.translation() == ta, "similarity-parts", log );
  // matrix
  Eigen::Matrix< T, 4, 4 > M( A );
  for( int i = 0; i < 3; ++i )
  {
    for( int j = 0; j < 3; ++j ) { VM_CHECK( std::fabs( M( i, j ) - sa * a[ i ][ j ] ) <= E * sa, "similarity-to-matrix", i << "," << j << " " << log ); }
    VM_CHECK( M( i, 3 ) == ta[ i ], "similarity-to-matrix-translation", log );
    VM_CHECK( M( 3, i ) == 0, "similarity-to-matrix-row", log );
  }
  VM_CHECK( M( 3, 3 ) == 1, "similarity-to-matrix-row", log );
  similarity_< T > back( M );
  {
    // not a similarity: last row other than 0 0 0 1, or no positive determinant; gives the identity
    Eigen::Matrix< T, 4, 4 > bad = M;
    int why = static_cast< int >( r.below( 6 ) );
    if( why < 3 ) { bad( 3, why ) = r.chance( 1, 2 ) ? static_cast< T >( r.gauss() ) : std::numeric_limits< T >::min(); if( bad( 3, why ) == 0 ) { bad( 3, why ) = 1; } }
    else if( why == 3 ) { bad( 3, 3 ) = r.chance( 1, 2 ) ? T( 0 ) : std::nextafter( T( 1 ), T( 2 ) ); }
    else if( why == 4 ) { bad.row( static_cast< int >( r.below( 3 ) ) ).template head< 3 >() *= T( -1 ); }
    else { bad.row( static_cast< int >( r.below( 3 ) ) ).template head< 3 >().setZero(); }
    similarity_< T > none( bad );
    VM_CHECK( none == similarity_< T >(), "matrix-that-is-no-similarity", why << " " << none.scale() << " " << log );
    vm::event( "no_similarity" );
  }
  VM_CHECK( std::fabs( back.scale() - sa ) <= E * sa, "similarity-from-matrix-scale", back.scale() << " " << log );
  NEAR( mat( back.rotation() ), a, E, "similarity-from-matrix-rotation", log );
  VM_CHECK( back.translation() == ta, "similarity-from-matrix-translation", log );
  // composition and inverse
  V3 ab = apply( sa, a, v3( ta ), apply( sb, b, v3( tb ), v3( v ) ) );
  L mag2 = ( 1 + sa ) * ( 1 + sb ) * static_cast< L >( big ) * 20;
  NEAR( v3( ( A * B ) * v ), ab, E * mag2, "similarity-compose", log );
  NEAR( v3( A * ( B * v ) ), ab, E * mag2, "similarity-compose-apply", log );
  similarity_< T > I = A.inverse();
  L mag3 = ( 1 + 1 / static_cast< L >( sa ) ) * mag * 4;
  NEAR( v3( I * ( A * v ) ), v3( v ), E * mag3, "similarity-inverse", log );
  NEAR( v3( A * ( I * v ) ), v3( v ), E * mag3 * ( 1 + sa ), "similarity-inverse-other-side", log );
  // identity, equality, precision, stream
  similarity_< T > id;
  VM_CHECK( id * v == v, "identity-similarity", log );
  VM_CHECK( A == A && !( A != A ) && ( A == B ) == ( sa == sb && RA == RB && ta == tb ), "similarity-equality", log );
  {
    similarity_< T > c1( static_cast< T >( sa * 2 ), RA, ta ), c2( sa, RA, ta + Eigen::Matrix< T, 3, 1 >( 0, 0, static_cast< T >( big * 9 ) ) ), c3( sa, RA, ta );
    VM_CHECK( c1 != A && !( c1 == A ) && c2 != A && c3 == A, "similarity-equality-parts", log );
    similarity_< double > d( A );
    VM_CHECK( d.scale() == static_cast< double >( sa ), "similarity-precision", log );
    NEAR( v3( d.translation() ), v3( ta ), 0, "similarity-precision", log );
    NEAR( mat( d.rotation() ), a, E, "similarity-precision", log );
  }
  {
    std::stringstream s;
    s << std::setprecision( 20 ) << A;
    similarity_< T > c;
    s >> c;
    VM_CHECK( c == A, "similarity-stream", s.str() << log );
  }
  // an invalid matrix: refused, and what is left does not depend on earlier memory
  {
    Eigen::Matrix< T, 4, 4 > bad = M;
    switch( r.below( 4 ) )
    {
    case 0: bad( 3, static_cast< int >( r.below( 3 ) ) ) = static_cast< T >( r.chance( 1, 2 ) ? 1 : 1e-3 ); break;
    case 1: bad( 3, 3 ) = static_cast< T >( r.chance( 1, 2 ) ? 0 : 2 ); break;
    case 2: bad.row( 0 ) *= T( -1 ); break;
    default: bad.setZero(); bad( 3, 3 ) = 1;
    }
    alignas( 16 ) unsigned char m1[ sizeof( similarity_< T > ) ], m2[ sizeof( similarity_< T > ) ];
    std::memset( m1, 0x41, sizeof m1 );
    std::memset( m2, 0xC3, sizeof m2 );
    similarity_< T >* p = new( m1 ) similarity_< T >( bad );
    similarity_< T >* q = new( m2 ) similarity_< T >( bad );
    bool same = *p == *q;
    bool ok = std::isfinite( static_cast< double >( p->scale() ) ) && std::isfinite( static_cast< double >( p->translation().norm() ) );
    L qn = p->rotation().quaternion().norm();
    p->~similarity_< T >();
    q->~similarity_< T >();
    VM_CHECK( same && ok && std::fabs( qn - 1 ) < 1e-3L, "invalid-matrix", "undefined transform " << log );
    vm::event( "invalid_matrix" );
  }
  vm::event( "similarities" );
  vm::sig( std::string( tn ) + "s" + std::to_string( k1 ) + "." + std::to_string( k2 ) + "." + std::to_string( static_cast< int >( std::log10( sa ) * 3 ) ) );
  vm::sample( log );
}

void body( vm::Rng& r, uint64_t i )
{
  rotations< double >( r, "double" );
  rotations< float >( r, "float" );
  if( i % 4 == 0 )
  {
    similarities< double >( r, "double" );
    similarities< float >( r, "float" );
  }
}

}

VM_MAIN( body )
