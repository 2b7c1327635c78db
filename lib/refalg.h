// Long-double reference algebra, written from the definitions; no Eigen arithmetic.
#ifndef REFALG_H
#define REFALG_H
#include "vm.h"
#include <array>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include <algorithm>

namespace ref {

typedef long double L;
typedef std::array< L, 3 > V3;
typedef std::array< std::array< L, 3 >, 3 > M3;
typedef std::array< L, 4 > Q;    // w x y z
const L PI = 3.14159265358979323846264338327950288L;

inline M3 ident() { M3 m{}; for( int i = 0; i < 3; ++i ) { m[ i ][ i ] = 1; } return m; }
inline M3 mul( M3 const& a, M3 const& b )
{
  M3 r{};
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { for( int k = 0; k < 3; ++k ) { r[ i ][ j ] += a[ i ][ k ] * b[ k ][ j ]; } } }
  return r;
}
inline V3 mul( M3 const& a, V3 const& v )
{
  V3 r{};
  for( int i = 0; i < 3; ++i ) { for( int k = 0; k < 3; ++k ) { r[ i ] += a[ i ][ k ] * v[ k ]; } }
  return r;
}
inline M3 tr( M3 const& a ) { M3 r; for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { r[ i ][ j ] = a[ j ][ i ]; } } return r; }
inline L det( M3 const& m )
{
  return m[ 0 ][ 0 ] * ( m[ 1 ][ 1 ] * m[ 2 ][ 2 ] - m[ 1 ][ 2 ] * m[ 2 ][ 1 ] ) - m[ 0 ][ 1 ] * ( m[ 1 ][ 0 ] * m[ 2 ][ 2 ] - m[ 1 ][ 2 ] * m[ 2 ][ 0 ] ) +
         m[ 0 ][ 2 ] * ( m[ 1 ][ 0 ] * m[ 2 ][ 1 ] - m[ 1 ][ 1 ] * m[ 2 ][ 0 ] );
}
inline M3 adj( M3 const& m )
{
  M3 r;
  for( int i = 0; i < 3; ++i )
  {
    for( int j = 0; j < 3; ++j )
    {
      int a = ( i + 1 ) % 3, b = ( i + 2 ) % 3, c = ( j + 1 ) % 3, d = ( j + 2 ) % 3;
      r[ j ][ i ] = m[ a ][ c ] * m[ b ][ d ] - m[ a ][ d ] * m[ b ][ c ];
    }
  }
  return r;
}
inline L dot( V3 const& a, V3 const& b ) { return a[ 0 ] * b[ 0 ] + a[ 1 ] * b[ 1 ] + a[ 2 ] * b[ 2 ]; }
inline L norm( V3 const& a ) { return std::sqrt( dot( a, a ) ); }
inline V3 cross( V3 const& a, V3 const& b ) { return { a[ 1 ] * b[ 2 ] - a[ 2 ] * b[ 1 ], a[ 2 ] * b[ 0 ] - a[ 0 ] * b[ 2 ], a[ 0 ] * b[ 1 ] - a[ 1 ] * b[ 0 ] }; }
inline V3 scale( V3 const& a, L s ) { return { a[ 0 ] * s, a[ 1 ] * s, a[ 2 ] * s }; }
inline V3 add( V3 const& a, V3 const& b ) { return { a[ 0 ] + b[ 0 ], a[ 1 ] + b[ 1 ], a[ 2 ] + b[ 2 ] }; }
inline V3 sub( V3 const& a, V3 const& b ) { return { a[ 0 ] - b[ 0 ], a[ 1 ] - b[ 1 ], a[ 2 ] - b[ 2 ] }; }

// rotation matrix of a unit quaternion
inline M3 rot( Q const& q )
{
  L n = std::sqrt( q[ 0 ] * q[ 0 ] + q[ 1 ] * q[ 1 ] + q[ 2 ] * q[ 2 ] + q[ 3 ] * q[ 3 ] );
  L w = q[ 0 ] / n, x = q[ 1 ] / n, y = q[ 2 ] / n, z = q[ 3 ] / n;
  return { { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - w * z ), 2 * ( x * z + w * y ) },
             { 2 * ( x * y + w * z ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - w * x ) },
             { 2 * ( x * z - w * y ), 2 * ( y * z + w * x ), 1 - 2 * ( x * x + y * y ) } } };
}
// rotation matrix by the axis-angle formula
inline M3 rot( L angle, V3 axis )
{
  L n = norm( axis );
  axis = scale( axis, 1 / n );
  L c = std::cos( angle ), s = std::sin( angle ), t = 1 - c, x = axis[ 0 ], y = axis[ 1 ], z = axis[ 2 ];
  return { { { t * x * x + c, t * x * y - s * z, t * x * z + s * y },
             { t * x * y + s * z, t * y * y + c, t * y * z - s * x },
             { t * x * z - s * y, t * y * z + s * x, t * z * z + c } } };
}
// angle between two rotations, in [0,pi], accurate near 0 and pi
inline L between( M3 const& a, M3 const& b )
{
  M3 d = mul( tr( a ), b );
  V3 v{ d[ 2 ][ 1 ] - d[ 1 ][ 2 ], d[ 0 ][ 2 ] - d[ 2 ][ 0 ], d[ 1 ][ 0 ] - d[ 0 ][ 1 ] };
  return std::atan2( norm( v ), d[ 0 ][ 0 ] + d[ 1 ][ 1 ] + d[ 2 ][ 2 ] - 1 );
}

template < class D > M3 m3( Eigen::MatrixBase< D > const& m )
{
  M3 r;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { r[ i ][ j ] = m( i, j ); } }
  return r;
}
template < class D > V3 v3( Eigen::MatrixBase< D > const& v ) { return { static_cast< L >( v[ 0 ] ), static_cast< L >( v[ 1 ] ), static_cast< L >( v[ 2 ] ) }; }
template < class T > M3 m3( Eigen::Quaternion< T > const& q ) { return rot( Q{ static_cast< L >( q.w() ), static_cast< L >( q.x() ), static_cast< L >( q.y() ), static_cast< L >( q.z() ) } ); }

// largest difference; infinite when anything is not a number
inline L diff( M3 const& a, M3 const& b )
{
  L d = 0;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { L e = std::fabs( a[ i ][ j ] - b[ i ][ j ] ); if( !( e <= 1e300L ) ) { return INFINITY; } if( e > d ) { d = e; } } }
  return d;
}
inline L diff( V3 const& a, V3 const& b )
{
  L d = 0;
  for( int i = 0; i < 3; ++i ) { L e = std::fabs( a[ i ] - b[ i ] ); if( !( e <= 1e300L ) ) { return INFINITY; } if( e > d ) { d = e; } }
  return d;
}
inline std::string text( M3 const& m )
{
  std::ostringstream o;
  o << std::setprecision( 17 ) << "[";
  for( auto const& row : m ) { for( L x : row ) { o << x << " "; } o << "; "; }
  return o.str() + "]";
}
inline std::string text( V3 const& v ) { std::ostringstream o; o << std::setprecision( 17 ) << "(" << v[ 0 ] << ", " << v[ 1 ] << ", " << v[ 2 ] << ")"; return o.str(); }

// a unit quaternion, often a degenerate one; kind tells which
inline Q random_q( vm::Rng& r, int& kind )
{
  kind = static_cast< int >( r.below( 9 ) );
  V3 ax{ r.gauss(), r.gauss(), r.gauss() };
  if( norm( ax ) < 1e-3L ) { ax = { 1, 0, 0 }; }
  if( r.chance( 1, 4 ) ) { ax = { 0, 0, 0 }; ax[ r.below( 3 ) ] = r.chance( 1, 2 ) ? 1 : -1; }
  ax = scale( ax, 1 / norm( ax ) );
  L a;
  switch( kind )
  {
  case 0: return { r.chance( 1, 2 ) ? 1.0L : -1.0L, 0, 0, 0 };                 // identity
  case 1: a = PI; return { 0, ax[ 0 ], ax[ 1 ], ax[ 2 ] };                      // half turn, exactly
  case 2: a = PI * ( 1 + ( r.chance( 1, 2 ) ? 1 : -1 ) * std::pow( 10.0L, -r.real( 3, 16 ) ) ); break;
  case 3: a = std::pow( 10.0L, -r.real( 3, 15 ) ); break;
  case 4: a = PI / 2 * static_cast< L >( r.range( -4, 4 ) ); break;
  default: a = r.real( -6.3, 6.3 );
  }
  Q q{ std::cos( a / 2 ), ax[ 0 ] * std::sin( a / 2 ), ax[ 1 ] * std::sin( a / 2 ), ax[ 2 ] * std::sin( a / 2 ) };
  if( r.chance( 1, 3 ) ) { for( L& x : q ) { x = -x; } }
  return q;
}

template < class T > Eigen::Quaternion< T > eq( Q const& q )
{
  Eigen::Quaternion< T > e( static_cast< T >( q[ 0 ] ), static_cast< T >( q[ 1 ] ), static_cast< T >( q[ 2 ] ), static_cast< T >( q[ 3 ] ) );
  return e;
}

} // namespace ref
#endif
