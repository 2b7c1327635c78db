// T07: homographies map, invert and compose points exactly as their matrices.
#include "refalg.h"
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/exceptions/math.h>

using namespace kwiver::vital;
using namespace ref;

namespace {

template < class T > struct P;
template <> struct P< double > { static L e() { return 2.3e-16L; } static L inf() { return 1e-12L; } static L det() { return 1e-12L; } static char const* n() { return "d"; } };
template <> struct P< float > { static L e() { return 1.2e-7L; } static L inf() { return 1e-5L; } static L det() { return 1e-5L; } static char const* n() { return "f"; } };

L amax( M3 const& m ) { L r = 0; for( auto const& row : m ) { for( L x : row ) { r = std::max( r, std::fabs( x ) ); } } return r; }

// smallest relative distance to singularity, by the adjugate
L cond( M3 const& m )
{
  L d = std::fabs( det( m ) );
  return d == 0 ? INFINITY : 3 * amax( m ) * 3 * amax( adj( m ) ) / d;
}

template < class T > Eigen::Matrix< T, 3, 3 > em( M3 const& m )
{
  Eigen::Matrix< T, 3, 3 > e;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { e( i, j ) = static_cast< T >( m[ i ][ j ] ); } }
  return e;
}

M3 random_matrix( vm::Rng& r, std::string& kind )
{
  M3 m{};
  switch( r.below( 7 ) )
  {
  case 0: kind = "general"; for( auto& row : m ) { for( L& x : row ) { x = r.gauss(); } } break;
  case 1:   // image to image
    kind = "image";
    m = rot( r.real( -3, 3 ), V3{ 0, 0, 1 } );
    for( int i = 0; i < 2; ++i ) { for( int j = 0; j < 2; ++j ) { m[ i ][ j ] *= r.real( 0.3, 3 ); } m[ i ][ 2 ] = r.gauss() * 500; m[ 2 ][ i ] = r.gauss() * 1e-3; }
    break;
  case 2: kind = "affine"; for( int i = 0; i < 2; ++i ) { for( int j = 0; j < 3; ++j ) { m[ i ][ j ] = r.gauss() * ( j == 2 ? 20 : 2 ); } } m[ 2 ][ 2 ] = r.chance( 1, 3 ) ? r.near( 1 ) : 1; if( r.chance( 1, 3 ) ) { kind = "near-affine"; m[ 2 ][ r.below( 2 ) ] = r.near( 0 ); } break;
  case 3: kind = "integer"; for( auto& row : m ) { for( L& x : row ) { x = static_cast< L >( r.range( -4, 4 ) ); } } break;
  case 4:
    kind = "identity"; m = ident();
    if( r.chance( 1, 2 ) ) { kind = "near-identity"; L n = std::pow( 10.0L, r.real( -8, -2 ) ); for( auto& row : m ) { for( L& x : row ) { if( r.chance( 1, 2 ) ) { x += n * r.gauss(); } } } }
    break;
  case 5:   // an axis exchange: zero in the lower right corner
    kind = "corner0";
    m[ 0 ][ r.below( 2 ) ] = r.real( 0.5, 3 ); m[ 0 ][ 2 ] = 2; m[ 1 ][ 1 ] = 1.5; m[ 2 ][ 0 ] = r.real( 0.5, 2 ); m[ 2 ][ 1 ] = r.gauss(); m[ 1 ][ 2 ] = r.gauss();
    break;
  default: kind = "scaled"; for( auto& row : m ) { for( L& x : row ) { x = r.gauss(); } } { L s = std::pow( 10.0L, r.real( -1, 3 ) ); for( auto& row : m ) { for( L& x : row ) { x *= s; } } }
  }
  return m;
}

struct V2 { L x, y, w, mag; };
V2 hmap( M3 const& m, L x, L y )
{
  V3 v = mul( m, V3{ x, y, 1 } );
  L mag = 0;
  for( auto const& row : m ) { mag = std::max( mag, std::fabs( row[ 0 ] * x ) + std::fabs( row[ 1 ] * y ) + std::fabs( row[ 2 ] ) ); }
  return { v[ 0 ] / v[ 2 ], v[ 1 ] / v[ 2 ], v[ 2 ], mag };
}

// matrix b is a up to scale, within tol of its largest element
bool same_up_to_scale( M3 const& a, M3 const& b, L tol )
{
  int bi = 0, bj = 0;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { if( std::fabs( a[ i ][ j ] ) > std::fabs( a[ bi ][ bj ] ) ) { bi = i; bj = j; } } }
  L s = b[ bi ][ bj ] / a[ bi ][ bj ];
  if( !( std::fabs( s ) > 0 ) || !std::isfinite( s ) ) { return false; }
  L d = 0;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j < 3; ++j ) { L e = std::fabs( b[ i ][ j ] / s - a[ i ][ j ] ); if( !( e <= 1e300L ) ) { return false; } d = std::max( d, e ); } }
  return d <= tol * amax( a );
}

enum Got { POINT, INF };
template < class V, class F > Got call( F f, V& out )
{
  try { out = f(); return POINT; }
  catch( point_maps_to_infinity const& ) { return INF; }
}

#define PT( got, want, tol, key, t ) do { L gx_ = ( got )[ 0 ], gy_ = ( got )[ 1 ]; VM_CHECK( std::fabs( gx_ - ( want ).x ) <= ( tol ) && std::fabs( gy_ - ( want ).y ) <= ( tol ), key, \
  "got " << gx_ << "," << gy_ << " want " << ( want ).x << "," << ( want ).y << " tol " << ( tol ) << " " << t ); } while( 0 )

// maps of one point through a homography of precision T whose matrix is m
template < class T > void points( vm::Rng& r, homography_< T > const& h, M3 const& m, std::string const& log )
{
  for( int n = 0; n < 5; ++n )
  {
    L x, y;
    bool at_inf = false;
    if( r.chance( 1, 4 ) )
    {
      // on the line that maps to infinity: solve a x + b y + c = 0, exactly where the numbers allow it
      x = static_cast< L >( r.range( -8, 8 ) );
      if( m[ 2 ][ 1 ] != 0 ) { y = -( m[ 2 ][ 0 ] * x + m[ 2 ][ 2 ] ) / m[ 2 ][ 1 ]; }
      else if( m[ 2 ][ 0 ] != 0 ) { y = static_cast< L >( r.range( -8, 8 ) ); x = -m[ 2 ][ 2 ] / m[ 2 ][ 0 ]; }
      else { y = 0; }
      x = static_cast< T >( x );
      y = static_cast< T >( y );
    }
    else
    {
      L s = r.chance( 1, 3 ) ? 1000 : 3;
      x = static_cast< T >( r.gauss() * s );
      y = static_cast< T >( r.gauss() * s );
      if( r.chance( 1, 6 ) ) { x = y = 0; }
    }
    V2 want = hmap( m, x, y );
    at_inf = want.w == 0;
    std::string t = log + " at " + vm::str( static_cast< double >( x ) ) + "," + vm::str( static_cast< double >( y ) ) + " w=" + vm::str( static_cast< double >( want.w ) );
    // in double, through the interface
    homography const& base = h;
    vector_2d pd;
    Got g = call( [ & ] { return vector_2d( base.map( vector_2d( static_cast< double >( x ), static_cast< double >( y ) ) ) ); }, pd );
    bool rounding_only = std::fabs( want.w ) <= 8 * P< double >::e() * want.mag;
    if( at_inf && m[ 2 ][ 0 ] == std::floor( m[ 2 ][ 0 ] ) && m[ 2 ][ 1 ] == std::floor( m[ 2 ][ 1 ] ) && x == std::floor( x ) && y == std::floor( y ) )
    {
      VM_CHECK( g == INF, "infinity-not-refused", pd.transpose() << " " << t );
      vm::event( "maps_to_infinity" );
    }
    else if( std::fabs( want.w ) > 1.5L * P< double >::inf() + 8 * P< double >::e() * want.mag )
    {
      VM_CHECK( g == POINT, "finite-refused", t );
      L tol = 20 * P< double >::e() * want.mag / std::fabs( want.w ) * ( 1 + std::fabs( want.x ) + std::fabs( want.y ) );
      PT( pd, want, tol, "map", t );
      vm::event( "points_mapped" );
    }
    else if( g == POINT && !rounding_only )
    {
      VM_CHECK( std::isfinite( pd[ 0 ] ) && std::isfinite( pd[ 1 ] ), "map-not-finite", t );
    }
    // in the homography's own precision
    Eigen::Matrix< T, 2, 1 > pt;
    g = call( [ & ] { return Eigen::Matrix< T, 2, 1 >( h.map_point( Eigen::Matrix< T, 2, 1 >( static_cast< T >( x ), static_cast< T >( y ) ) ) ); }, pt );
    if( at_inf && m[ 2 ][ 0 ] == std::floor( m[ 2 ][ 0 ] ) && m[ 2 ][ 1 ] == std::floor( m[ 2 ][ 1 ] ) && x == std::floor( x ) && y == std::floor( y ) )
    {
      VM_CHECK( g == INF, "infinity-not-refused-typed", t );
    }
    else if( std::fabs( want.w ) > 1.5L * P< T >::inf() + 8 * P< T >::e() * want.mag )
    {
      VM_CHECK( g == POINT, "finite-refused-typed", t );
      L tol = 20 * P< T >::e() * want.mag / std::fabs( want.w ) * ( 1 + std::fabs( want.x ) + std::fabs( want.y ) );
      PT( pt, want, tol, "map-typed", t );
    }
  }
}

template < class T > void typed( vm::Rng& r )
{
  std::string kind;
  M3 raw = random_matrix( r, kind );
  Eigen::Matrix< T, 3, 3 > E = em< T >( raw );
  M3 m = m3( E );
  std::string log = std::string( P< T >::n() ) + " " + kind + " " + text( m );
  vm::note( log );
  homography_< T > h( E );
  if( kind == "identity" && r.chance( 1, 2 ) ) { h = homography_< T >(); }
  VM_CHECK( diff( m3( h.matrix() ), m ) == 0 && diff( m3( h.get_matrix() ), m ) == 0, "matrix", log );
  points( r, h, m, log );

  // other precision and copies
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  {
    homography_< U > other( h );
    homography_< U > other2( static_cast< homography const& >( h ) );
    Eigen::Matrix< U, 3, 3 > want = E.template cast< U >();
    VM_CHECK( other.get_matrix() == want && other2.get_matrix() == want, "conversion", log );
    homography_< T > same( static_cast< homography const& >( h ) ), same2( h );
    VM_CHECK( same.get_matrix() == E && same2.get_matrix() == E, "copy", log );
    homography_sptr c = h.clone();
    VM_CHECK( c->matrix() == h.matrix(), "clone", log );
    dynamic_cast< homography_< T >& >( *c ).get_matrix()( 0, 0 ) += 1;
    same2.get_matrix()( 1, 1 ) += 1;
    VM_CHECK( h.get_matrix() == E, "clone-shares", log );
  }
  // printed form
  {
    std::ostringstream a, b;
    a << std::setprecision( 10 ) << h;
    b << std::setprecision( 10 ) << static_cast< homography const& >( h );
    std::istringstream i( a.str() ), j( b.str() );
    for( int k = 0; k < 9; ++k )
    {
      double x = NAN, y = NAN;
      i >> x;
      j >> y;
      L w = m[ k / 3 ][ k % 3 ];
      VM_CHECK( std::fabs( x - w ) <= 1e-6L * std::fabs( w ) && std::fabs( y - w ) <= 1e-6L * std::fabs( w ), "print", a.str() << " | " << b.str() << " " << log );
    }
  }
  // normal form
  {
    homography_sptr n = h.normalize();
    M3 nm = m3( n->matrix() );
    if( m[ 2 ][ 2 ] == 0 ) { VM_CHECK( diff( nm, m ) == 0, "normalize-zero-corner", text( nm ) << log ); vm::event( "zero_corner" ); }
    else if( std::fabs( m[ 2 ][ 2 ] ) > 2 * P< T >::inf() )
    {
      VM_CHECK( nm[ 2 ][ 2 ] == 1, "normalize-corner", text( nm ) << log );
      VM_CHECK( same_up_to_scale( m, nm, 8 * P< T >::e() ), "normalize", text( nm ) << log );
      vm::event( "normalized" );
    }
    VM_CHECK( h.get_matrix() == E, "normalize-modified", log );
    VM_CHECK( dynamic_cast< homography_< T >* >( n.get() ), "normalize-type", log );
  }
  // inverse
  {
    homography_sptr inv;
    bool refused = false;
    try { inv = h.inverse(); }
    catch( non_invertible_matrix const& ) { refused = true; }
    L d = std::fabs( det( m ) );
    L K = cond( m );
    bool integral = kind == "integer" || kind == "identity";
    if( integral && d == 0 ) { VM_CHECK( refused, "singular-not-refused", text( m3( inv->matrix() ) ) << log ); vm::event( "singular_refused" ); }
    if( d > 2 * P< T >::det() && K * P< T >::e() < 1e-3L )
    {
      VM_CHECK( !refused, "invertible-refused", "det " << d << " " << log );
      M3 im = m3( inv->matrix() );
      VM_CHECK( same_up_to_scale( adj( m ), im, 40 * P< T >::e() * K ), "inverse", text( im ) << " det " << det( m ) << " " << log );
      VM_CHECK( diff( mul( im, m ), ident() ) <= 40 * P< T >::e() * K, "inverse-product", text( im ) << log );
      VM_CHECK( h.get_matrix() == E, "inverse-modified", log );
      VM_CHECK( dynamic_cast< homography_< T >* >( inv.get() ), "inverse-type", log );
      vm::event( "inverted" );
      // there and back
      for( int k = 0; k < 3; ++k )
      {
        L x = r.gauss() * 3, y = r.gauss() * 3;
        vector_2d p( static_cast< double >( x ), static_cast< double >( y ) );
        V2 w = hmap( m, p[ 0 ], p[ 1 ] );
        if( std::fabs( w.w ) < 1e-2L * w.mag || std::fabs( w.w ) < 1e-3L || std::fabs( det( m ) ) < 1e-3L ) { continue; }
        V2 b = hmap( im, w.x, w.y );
        if( std::fabs( b.w ) < 1e-9L ) { continue; }
        vector_2d q = inv->map( h.map( p ) );
        L tol = 2000 * P< T >::e() * K * w.mag / std::fabs( w.w ) * ( 1 + std::fabs( w.x ) + std::fabs( w.y ) ) * ( 1 + std::fabs( x ) + std::fabs( y ) );
        V2 want{ p[ 0 ], p[ 1 ], 0, 0 };
        if( tol < 0.1L ) { PT( q, want, tol, "there-and-back", log ); vm::event( "there_and_back" ); }
      }
    }
  }
  // composition
  {
    std::string kind2;
    M3 raw2 = random_matrix( r, kind2 );
    Eigen::Matrix< T, 3, 3 > E2 = em< T >( raw2 );
    M3 m2 = m3( E2 );
    homography_< T > g( E2 );
    homography_< T > hg = h * g;
    L tol = 8 * P< T >::e() * 3 * amax( m ) * amax( m2 );
    VM_CHECK( diff( m3( hg.get_matrix() ), mul( m, m2 ) ) <= tol, "compose", text( m3( hg.get_matrix() ) ) << log << " * " << text( m2 ) );
    vm::event( "composed" );
    vm::sig( log.substr( 0, 1 ) + kind + kind2 + std::to_string( r.below( 400 ) ) );
  }
}

// histories over frame-to-frame homographies
struct Held { f2f_homography h; M3 m; L err; frame_id_t from, to; };

M3 mild( vm::Rng& r )
{
  M3 m = rot( r.real( -3, 3 ), V3{ 0, 0, 1 } );
  L s = r.real( 0.5, 2 );
  for( int i = 0; i < 2; ++i ) { for( int j = 0; j < 2; ++j ) { m[ i ][ j ] *= s; } m[ i ][ 2 ] = r.gauss(); m[ 2 ][ i ] = r.gauss() * 0.1; }
  return m;
}

void check_held( Held const& x, std::string const& log )
{
  VM_CHECK( x.h.from_id() == x.from && x.h.to_id() == x.to, "frames", x.h.from_id() << "->" << x.h.to_id() << " want " << x.from << "->" << x.to << " " << log );
  M3 g = m3( x.h.homography()->matrix() );
  VM_CHECK( diff( g, x.m ) <= x.err * ( 1 + amax( x.m ) ), "frame-matrix", text( g ) << " want " << text( x.m ) << " tol " << x.err << " " << log );
  vm::event( "frame_homographies_checked" );
}

void chains( vm::Rng& r )
{
  std::vector< Held > v;
  std::string log;
  std::vector< frame_id_t > frames{ 0, 1, 2, 3, 100, -1, 9223372036854775807ll };
  std::string sg;
  unsigned steps = static_cast< unsigned >( r.range( 4, 25 ) );
  for( unsigned s = 0; s < steps; ++s )
  {
    unsigned op = static_cast< unsigned >( r.below( v.size() < 2 ? 2 : 9 ) );
    if( v.size() >= 10 && op < 2 ) { op = 7; }
    sg += static_cast< char >( 'a' + op );
    switch( op )
    {
    case 0:
      {
        frame_id_t f = r.pick( frames );
        v.push_back( { f2f_homography( f ), ident(), 0, f, f } );
        log += " id" + std::to_string( f );
        break;
      }
    case 1:
      {
        frame_id_t f = r.pick( frames ), t = r.pick( frames );
        M3 raw = mild( r );
        if( r.chance( 1, 3 ) )
        {
          Eigen::Matrix3f e = em< float >( raw );
          v.push_back( { f2f_homography( e, f, t ), m3( e ), 0, f, t } );
        }
        else if( r.chance( 1, 2 ) )
        {
          Eigen::Matrix3d e = em< double >( raw );
          v.push_back( { f2f_homography( e, f, t ), m3( e ), 0, f, t } );
        }
        else
        {
          auto p = std::make_shared< homography_< double > >( em< double >( raw ) );
          v.push_back( { f2f_homography( homography_sptr( p ), f, t ), m3( p->get_matrix() ), 0, f, t } );
          p->get_matrix()( 0, 0 ) += 5;      // the object keeps its own copy
        }
        log += " new" + std::to_string( f ) + ">" + std::to_string( t );
        break;
      }
    case 2: case 3: case 4:
      {
        Held& a = v[ r.below( v.size() ) ];
        Held& b = v[ r.below( v.size() ) ];
        bool ok = a.from == b.to, done = true;
        log += " mul" + std::to_string( &a - &v[ 0 ] ) + "*" + std::to_string( &b - &v[ 0 ] );
        vm::note( log );
        try
        {
          f2f_homography c = a.h * b.h;
          VM_CHECK( ok, "unchained-composition", a.from << " != " << b.to << " " << log );
          Held n{ c, mul( a.m, b.m ), 1e-14L + 4 * ( a.err + b.err ) * ( 1 + amax( a.m ) ) * ( 1 + amax( b.m ) ), b.from, a.to };
          check_held( n, log );
          if( n.err < 1e-4L && amax( n.m ) < 1e4L ) { v.push_back( n ); }
          vm::event( "chained" );
        }
        catch( invalid_matrix_operation const& ) { done = false; }
        if( !done ) { VM_CHECK( !ok, "chained-composition-refused", log ); vm::event( "unchained_refused" ); }
        break;
      }
    case 5:
      {
        Held& a = v[ r.below( v.size() ) ];
        L K = cond( a.m ), d = std::fabs( det( a.m ) );
        log += " inv" + std::to_string( &a - &v[ 0 ] );
        if( d < 0.01L || K > 1e6L ) { break; }
        f2f_homography c = a.h.inverse();
        M3 im = adj( a.m );
        for( auto& row : im ) { for( L& x : row ) { x /= det( a.m ); } }
        L base = std::dynamic_pointer_cast< homography_< float > >( a.h.homography() ) ? 2e-6L : 1e-14L;
        Held n{ c, im, ( base + a.err * 10 ) * K * 40, a.to, a.from };
        check_held( n, log );
        if( n.err < 1e-4L && amax( n.m ) < 1e4L ) { v.push_back( n ); }
        vm::event( "frame_inverse" );
        break;
      }
    case 6:
      {
        Held const& a = v[ r.below( v.size() ) ];
        Held n = a;            // copy constructed
        v.push_back( n );
        log += " copy";
        break;
      }
    case 7:
      {
        size_t i = r.below( v.size() ), j = r.below( v.size() );
        v[ i ] = v[ j ];       // assigned
        log += " assign" + std::to_string( i ) + "=" + std::to_string( j );
        vm::event( "assigned" );
        break;
      }
    default:
      {
        // change one of them through its homography
        size_t i = r.below( v.size() );
        if( auto p = std::dynamic_pointer_cast< homography_< double > >( v[ i ].h.homography() ) )
        {
          p->get_matrix()( 1, 2 ) += 1;
          v[ i ].m[ 1 ][ 2 ] += 1;
          v[ i ].err += 1e-15L;
          log += " change" + std::to_string( i );
          vm::event( "changed" );
        }
      }
    }
    for( Held const& x : v ) { check_held( x, log ); }
  }
  if( !v.empty() )
  {
    Held const& x = v[ r.below( v.size() ) ];
    std::ostringstream o;
    o << x.h;
    std::istringstream i( o.str() );
    long long f = 0, t = 0;
    std::string arrow;
    i >> f >> arrow >> t;
    VM_CHECK( f == x.from && t == x.to && arrow == "->", "frame-print", o.str() );
    // frame to world
    frame_id_t fr = r.pick( frames );
    auto p = std::make_shared< homography_< double > >( em< double >( x.m ) );
    M3 pm = m3( p->get_matrix() );
    f2w_homography w( homography_sptr( p ), fr ), w2( w ), w3( frame_id_t( 5 ) );
    VM_CHECK( w3.frame_id() == 5 && diff( m3( w3.homography()->matrix() ), ident() ) == 0, "world-identity", log );
    w3 = w;
    p->get_matrix()( 0, 0 ) += 9;
    std::dynamic_pointer_cast< homography_< double > >( w2.homography() )->get_matrix()( 0, 1 ) += 9;
    VM_CHECK( w.frame_id() == fr && w2.frame_id() == fr && w3.frame_id() == fr, "world-frame", log );
    VM_CHECK( diff( m3( w.homography()->matrix() ), pm ) == 0 && diff( m3( w3.homography()->matrix() ), pm ) == 0, "world-matrix", log );
    std::dynamic_pointer_cast< homography_< double > >( w.homography() )->get_matrix()( 0, 1 ) += 9;
    VM_CHECK( diff( m3( w3.homography()->matrix() ), pm ) == 0, "world-assignment-shares", log );
    vm::event( "world_homographies" );
  }
  vm::sig( sg );
}

void body( vm::Rng& r, uint64_t i )
{
  switch( i % 3 )
  {
  case 0: typed< double >( r ); break;
  case 1: typed< float >( r ); break;
  default: chains( r );
  }
}

} // namespace
VM_MAIN( body )
