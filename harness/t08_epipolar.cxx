// T08: essential and fundamental matrices are valid and decompose consistently.
#include "refalg.h"
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>

using namespace kwiver::vital;
using namespace ref;

namespace {

template < class T > struct P;
template <> struct P< double > { static L e() { return 2.3e-16L; } static char const* n() { return "d"; } };
template <> struct P< float > { static L e() { return 1.2e-7L; } static char const* n() { return "f"; } };

L frob( M3 const& m ) { L s = 0; for( auto const& row : m ) { for( L x : row ) { s += x * x; } } return std::sqrt( s ); }
M3 times( M3 m, L s ) { for( auto& row : m ) { for( L& x : row ) { x *= s; } } return m; }
L inner( M3 const& a, M3 const& b ) { L s = 0; for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { s += a[ i ][ j ] * b[ i ][ j ]; } } return s; }
M3 cross_matrix( V3 const& t ) { return { { { 0, -t[ 2 ], t[ 1 ] }, { t[ 2 ], 0, -t[ 0 ] }, { -t[ 1 ], t[ 0 ], 0 } } }; }

template < class T > Eigen::Matrix< T, 3, 3 > em( M3 const& m )
{
  Eigen::Matrix< T, 3, 3 > e;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { e( i, j ) = static_cast< T >( m[ i ][ j ] ); } }
  return e;
}

// eigenvalues (descending) and vectors of a symmetric matrix by Jacobi rotations
void eigen( M3 a, L val[ 3 ], M3& vec )
{
  vec = ident();
  for( int sweep = 0; sweep < 60; ++sweep )
  {
    for( int p = 0; p < 2; ++p )
    {
      for( int q = p + 1; q < 3; ++q )
      {
        if( std::fabs( a[ p ][ q ] ) < 1e-4000L ) { continue; }
        L th = ( a[ q ][ q ] - a[ p ][ p ] ) / ( 2 * a[ p ][ q ] );
        L t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) ), c = 1 / std::sqrt( t * t + 1 ), s = t * c;
        M3 j = ident();
        j[ p ][ p ] = j[ q ][ q ] = c;
        j[ p ][ q ] = s;
        j[ q ][ p ] = -s;
        a = mul( mul( tr( j ), a ), j );
        vec = mul( vec, j );
      }
    }
  }
  int o[ 3 ] = { 0, 1, 2 };
  std::sort( o, o + 3, [ & ]( int x, int y ) { return a[ x ][ x ] > a[ y ][ y ]; } );
  M3 v2;
  for( int k = 0; k < 3; ++k ) { val[ k ] = a[ o[ k ] ][ o[ k ] ]; for( int i = 0; i < 3; ++i ) { v2[ i ][ k ] = vec[ i ][ o[ k ] ]; } }
  vec = v2;
}

// essential: E E^T E = 1/2 tr(E E^T) E, with singular values (1,1,0)
void check_essential( M3 const& e, L tol, std::string const& key, std::string const& log )
{
  VM_CHECK( std::fabs( frob( e ) - std::sqrt( 2.0L ) ) <= tol, key + "-scale", frob( e ) << " " << text( e ) << log );
  M3 eet = mul( e, tr( e ) );
  M3 l = mul( eet, e ), r = times( e, 0.5L * ( eet[ 0 ][ 0 ] + eet[ 1 ][ 1 ] + eet[ 2 ][ 2 ] ) );
  VM_CHECK( diff( l, r ) <= 4 * tol, key + "-singular-values", text( e ) << log );
  VM_CHECK( std::fabs( det( e ) ) <= 4 * tol, key + "-rank", det( e ) << " " << text( e ) << log );
}

template < class T > void check_parts( essential_matrix_< T > const& E, std::string const& log )
{
  L tol = 60 * P< T >::e();
  essential_matrix const& base = E;
  M3 e = m3( base.matrix() );
  VM_CHECK( diff( m3( E.compute_matrix() ), e ) <= P< T >::e(), "matrix-accessors", log );
  check_essential( e, tol, "essential", log );
  V3 t = v3( base.translation() );
  VM_CHECK( std::fabs( norm( t ) - 1 ) <= tol, "translation-length", text( t ) << log );
  M3 R = m3( base.rotation().quaternion() ), W = m3( base.twisted_rotation().quaternion() );
  VM_CHECK( diff( m3( Eigen::Matrix3d( base.rotation() ) ), R ) <= tol && diff( mul( R, tr( R ) ), ident() ) <= tol, "rotation", log );
  VM_CHECK( std::fabs( det( m3( Eigen::Matrix3d( base.twisted_rotation() ) ) ) - 1 ) <= 4 * tol, "twisted-rotation", log );
  VM_CHECK( diff( mul( cross_matrix( t ), R ), e ) <= tol, "recomposed", text( mul( cross_matrix( t ), R ) ) << " want " << text( e ) << log );
  // the twisted pair: rotated half a turn about the translation; gives the negated matrix
  VM_CHECK( diff( W, mul( rot( PI, t ), R ) ) <= tol, "twisted-pair", text( W ) << log );
  VM_CHECK( diff( mul( cross_matrix( t ), W ), times( e, -1 ) ) <= tol, "twisted-recomposed", log );
  VM_CHECK( diff( v3( E.get_translation() ), t ) == 0 && diff( m3( E.get_rotation().quaternion() ), R ) <= P< T >::e() * 4, "accessors", log );
  VM_CHECK( diff( m3( E.compute_twisted_rotation().quaternion() ), W ) <= P< T >::e() * 8, "twisted-accessors", log );
  // the translation spans the left null space
  VM_CHECK( norm( mul( tr( e ), t ) ) <= tol, "epipole", log );
  vm::event( "essential_decomposed" );
}

// an essential matrix of the user's own that leaves the second rotation to the base class
struct Own : public essential_matrix
{
  matrix_3x3d e; rotation_d q; vector_3d t;
  essential_matrix_sptr clone() const override { return std::make_shared< Own >( *this ); }
  matrix_3x3d matrix() const override { return e; }
  rotation_d rotation() const override { return q; }
  vector_3d translation() const override { return t; }
};

template < class T > void essential( vm::Rng& r )
{
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  std::string log = std::string( " " ) + P< T >::n();
  int kind;
  Q q = random_q( r, kind );
  V3 t{ r.gauss(), r.gauss(), r.gauss() };
  if( r.chance( 1, 4 ) ) { t = { 0, 0, 0 }; t[ r.below( 3 ) ] = r.chance( 1, 2 ) ? 1 : -1; }
  t = scale( t, r.chance( 1, 3 ) && norm( t ) > 0 ? ( r.chance( 1, 4 ) ? 1 : static_cast< L >( r.near( 1 ) ) ) / norm( t ) : std::pow( 10.0L, r.real( -3, 3 ) ) );
  // from a pose
  rotation_< T > rt( eq< T >( q ) );
  Eigen::Matrix< T, 3, 1 > tt( static_cast< T >( t[ 0 ] ), static_cast< T >( t[ 1 ] ), static_cast< T >( t[ 2 ] ) );
  V3 tv = v3( tt );
  if( norm( tv ) < 1e-6L ) { return; }
  essential_matrix_< T > A( rt, tt );
  M3 R = m3( rt.quaternion() );
  log += " R=" + text( R ) + " t=" + text( tv );
  vm::note( log );
  V3 unit = scale( tv, 1 / norm( tv ) );
  M3 e = mul( cross_matrix( unit ), R );
  L tol = 60 * P< T >::e();
  VM_CHECK( diff( v3( A.translation() ), unit ) <= tol, "pose-translation", log );
  VM_CHECK( diff( m3( A.rotation().quaternion() ), R ) <= tol, "pose-rotation", log );
  VM_CHECK( diff( m3( A.matrix() ), e ) <= tol, "pose-matrix", log );
  check_parts( A, log );
  vm::event( "from_pose" );
  // from an essential matrix, at any scale and sign
  L s = ( r.chance( 1, 2 ) ? 1 : -1 ) * std::pow( 10.0L, r.real( -3, 3 ) );
  Eigen::Matrix< T, 3, 3 > Em = em< T >( times( e, s ) );
  essential_matrix_< T > B( Em );
  check_parts( B, log + " scaled " + vm::str( static_cast< double >( s ) ) );
  M3 b = m3( B.matrix() );
  L sign = inner( b, e ) < 0 ? -1 : 1;
  VM_CHECK( diff( times( b, sign ), e ) <= 4 * tol, "essential-changed", text( b ) << " want " << text( e ) << log );
  vm::event( "from_essential" );
  // one of the two rotations is the one it was made from
  M3 BR = m3( B.rotation().quaternion() ), BW = m3( B.twisted_rotation().quaternion() );
  VM_CHECK( std::min( diff( BR, R ), diff( BW, R ) ) <= 10 * tol, "pose-lost", text( BR ) << " " << text( BW ) << log );
  // from any matrix: the nearest essential matrix shares its singular vectors
  M3 g;
  for( auto& row : g ) { for( L& x : row ) { x = r.gauss(); } }
  if( r.chance( 1, 3 ) ) { L n = std::pow( 10.0L, r.real( -6, -1 ) ); for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { g[ i ][ j ] = e[ i ][ j ] + n * g[ i ][ j ]; } } vm::event( "nearly_essential" ); }
  Eigen::Matrix< T, 3, 3 > G = em< T >( g );
  g = m3( G );
  std::string gl = std::string( P< T >::n() ) + " from " + text( g );
  vm::note( gl );
  L val[ 3 ];
  M3 V;
  eigen( mul( tr( g ), g ), val, V );
  L s1 = std::sqrt( std::max( 0.0L, val[ 0 ] ) ), s2 = std::sqrt( std::max( 0.0L, val[ 1 ] ) ), s3 = std::sqrt( std::max( 0.0L, val[ 2 ] ) );
  essential_matrix_< T > C( G );
  check_parts( C, gl );
  if( s2 - s3 > 1e-2L * s1 )
  {
    M3 c = m3( C.matrix() );
    // <U diag(1,1,0) V^T, G> = s1 + s2: no essential matrix of that scale reaches more
    L got = std::fabs( inner( c, g ) ), best = s1 + s2;
    VM_CHECK( std::fabs( got - best ) <= 100 * P< T >::e() * s1, "not-the-closest", got << " best " << best << " " << gl << text( c ) );
    vm::event( "from_any_matrix" );
  }
  {
    Own own;
    own.q = rotation_d( eq< double >( q ) );
    own.t = vector_3d( static_cast< double >( unit[ 0 ] ), static_cast< double >( unit[ 1 ] ), static_cast< double >( unit[ 2 ] ) ).normalized();
    M3 OR = m3( own.q.quaternion() );
    own.e = em< double >( mul( cross_matrix( v3( own.t ) ), OR ) );
    essential_matrix const& ob = own;
    M3 OW = m3( ob.twisted_rotation().quaternion() );
    L otol = 60 * P< double >::e();
    VM_CHECK( diff( OW, mul( rot( PI, v3( own.t ) ), OR ) ) <= otol, "twisted-pair-of-the-base", text( OW ) << log );
    VM_CHECK( diff( mul( cross_matrix( v3( own.t ) ), OW ), times( m3( own.e ), -1 ) ) <= otol, "twisted-recomposed-of-the-base", log );
    VM_CHECK( diff( m3( ob.clone()->twisted_rotation().quaternion() ), OW ) <= otol, "twisted-of-the-clone", log );
    // and is a source for the typed one
    essential_matrix_< T > typed( ob );
    VM_CHECK( diff( m3( typed.matrix() ), m3( own.e ) ) <= tol, "conversion-of-another-kind", text( m3( typed.matrix() ) ) << log );
    vm::event( "own_essential_class" );
  }
  // copies and conversions
  {
    essential_matrix_< U > c1( A ), c2( static_cast< essential_matrix const& >( A ) );
    essential_matrix_< T > c3( static_cast< essential_matrix const& >( A ) ), c4( A );
    essential_matrix_sptr c5 = A.clone();
    L loose = 60 * std::max( P< T >::e(), P< U >::e() );
    VM_CHECK( diff( m3( c1.matrix() ), e ) <= loose && diff( m3( c2.matrix() ), e ) <= loose, "conversion", log );
    VM_CHECK( diff( m3( c3.matrix() ), e ) <= tol && diff( m3( c4.matrix() ), e ) <= tol && diff( m3( c5->matrix() ), e ) <= tol, "copy", log );
    VM_CHECK( diff( v3( c5->translation() ), v3( A.translation() ) ) == 0, "clone-translation", log );
    std::ostringstream o, o2;
    o << std::setprecision( 9 ) << A;
    o2 << std::setprecision( 9 ) << static_cast< essential_matrix const& >( A );
    std::istringstream i( o.str() ), i2( o2.str() );
    for( int k = 0; k < 9; ++k )
    {
      double x = NAN, y = NAN;
      i >> x; i2 >> y;
      VM_CHECK( std::fabs( x - e[ k / 3 ][ k % 3 ] ) <= tol + 1e-7L && std::fabs( y - e[ k / 3 ][ k % 3 ] ) <= tol + 1e-7L, "print", o.str() << log );
    }
  }
  vm::sig( std::string( P< T >::n() ) + std::to_string( kind ) + ( s < 0 ? "-" : "+" ) + std::to_string( r.below( 2000 ) ) );
}

template < class T > void fundamental( vm::Rng& r )
{
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  M3 g;
  std::string kind = "general";
  for( auto& row : g ) { for( L& x : row ) { x = r.gauss(); } }
  switch( r.below( 4 ) )
  {
  case 0:     // already of rank two
    kind = "rank2";
    for( int j = 0; j < 3; ++j ) { g[ 2 ][ j ] = 2 * g[ 0 ][ j ] - g[ 1 ][ j ]; }
    break;
  case 1:     // pixel coordinates: very uneven entries
    kind = "pixels";
    for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { g[ i ][ j ] *= ( i < 2 ? 1e-2L : 1 ) * ( j < 2 ? 1e-2L : 1 ); } }
    break;
  default: break;
  }
  g = times( g, std::pow( 10.0L, r.real( -3, 3 ) ) );
  Eigen::Matrix< T, 3, 3 > G = em< T >( g );
  g = m3( G );
  std::string log = std::string( P< T >::n() ) + " " + kind + " " + text( g );
  vm::note( log );
  fundamental_matrix_< T > F( G );
  M3 f = m3( F.matrix() );
  L tol = 60 * P< T >::e();
  L val[ 3 ];
  M3 V;
  VM_CHECK( diff( f, f ) == 0, "not-finite", text( f ) << log );
  VM_CHECK( std::fabs( det( f ) ) <= tol, "rank-two", det( f ) << text( f ) << log );
  eigen( mul( tr( g ), g ), val, V );
  L s1 = std::sqrt( val[ 0 ] ), s2 = std::sqrt( std::max( 0.0L, val[ 1 ] ) ), s3 = std::sqrt( std::max( 0.0L, val[ 2 ] ) );
  L fval[ 3 ];
  M3 FV;
  eigen( mul( tr( f ), f ), fval, FV );
  L gap = ( s2 - s3 ) / s1;
  if( gap > 1e-2L )
  {
    VM_CHECK( fval[ 1 ] > 1e-6L * fval[ 0 ], "rank-below-two", text( f ) << log );
    // closest rank two matrix: G with its smallest singular component removed, up to scale
    V3 v{ V[ 0 ][ 2 ], V[ 1 ][ 2 ], V[ 2 ][ 2 ] };
    M3 want = g;
    V3 gv = mul( g, v );
    for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { want[ i ][ j ] -= gv[ i ] * v[ j ]; } }
    want = times( want, 1 / frob( want ) );
    M3 fn = times( f, 1 / frob( f ) );
    L sign = inner( fn, want ) < 0 ? -1 : 1;
    VM_CHECK( diff( times( fn, sign ), want ) <= tol / gap, "not-the-closest", text( fn ) << " want " << text( want ) << log );
    vm::event( "fundamental_" + kind );
  }
  fundamental_matrix_< U > c1( F ), c2( static_cast< fundamental_matrix const& >( F ) );
  fundamental_matrix_< T > c3( static_cast< fundamental_matrix const& >( F ) ), c4( F );
  fundamental_matrix_sptr c5 = F.clone();
  L loose = 2 * std::max( P< T >::e(), P< U >::e() );
  VM_CHECK( diff( m3( c1.matrix() ), f ) <= loose && diff( m3( c2.matrix() ), f ) <= loose, "fundamental-conversion", log );
  VM_CHECK( diff( m3( c3.matrix() ), f ) == 0 && diff( m3( c4.matrix() ), f ) == 0 && diff( m3( c5->matrix() ), f ) == 0, "fundamental-copy", log );
  std::ostringstream o;
  o << std::setprecision( 9 ) << static_cast< fundamental_matrix const& >( F );
  std::istringstream i( o.str() );
  for( int k = 0; k < 9; ++k )
  {
    double x = NAN;
    i >> x;
    VM_CHECK( std::fabs( x - f[ k / 3 ][ k % 3 ] ) <= 1e-7L, "fundamental-print", o.str() << log );
  }
  // built again from itself: unchanged up to scale
  fundamental_matrix_< T > again( em< T >( f ) );
  M3 f2 = m3( again.matrix() );
  L sg = inner( f2, f ) < 0 ? -1 : 1;
  if( gap > 1e-2L ) { VM_CHECK( diff( times( f2, sg / frob( f2 ) ), times( f, 1 / frob( f ) ) ) <= tol / gap, "fundamental-changed", text( f2 ) << log ); }
  vm::sig( std::string( "F" ) + P< T >::n() + kind + std::to_string( r.below( 2000 ) ) );
}

void body( vm::Rng& r, uint64_t i )
{
  switch( i % 4 )
  {
  case 0: essential< double >( r ); break;
  case 1: essential< float >( r ); break;
  case 2: fundamental< double >( r ); break;
  default: fundamental< float >( r );
  }
}

} // namespace
VM_MAIN( body )
