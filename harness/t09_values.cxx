// T09: covariances, features, landmarks, descriptors, colours survive conversion unchanged.
#include "refalg.h"
#include <new>
#include <vital/types/covariance.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/landmark.h>
#include <vital/types/landmark_map.h>
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/match_set.h>
#include <vital/types/camera_map.h>
#include <vital/types/color.h>
#include <vital/types/geo_lat_lon.h>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

double value( vm::Rng& r )
{
  switch( r.below( 8 ) )
  {
  case 0: return 0;
  case 1: return static_cast< double >( r.range( -100, 100 ) );
  case 2: return r.gauss() * 1e30;
  case 3: return r.gauss() * 1e-30;
  default: return r.gauss() * std::pow( 10.0, r.real( -3, 5 ) );
  }
}

// an object as its default constructor leaves it on memory filled with one byte value
template < class C > struct Made
{
  typename std::aligned_storage< sizeof( C ), alignof( C ) >::type mem;
  C* c;
  explicit Made( int fill ) { std::memset( &mem, fill, sizeof mem ); c = new( &mem ) C; }
  template < class A > Made( int fill, A const& a ) { std::memset( &mem, fill, sizeof mem ); c = new( &mem ) C( a ); }
  ~Made() { c->~C(); }
};

template < unsigned N, class T > void same_cov( covariance_< N, T > const& c, std::vector< T > const& full, std::string const& key, std::string const& log )
{
  for( unsigned i = 0; i < N; ++i )
  {
    for( unsigned j = 0; j < N; ++j )
    {
      T w = full[ i * N + j ], g = c( i, j );
      VM_CHECK( std::memcmp( &w, &g, sizeof w ) == 0 || w == g, key, N << "x" << N << " (" << i << "," << j << ") got " << g << " want " << w << " " << log );
    }
  }
  Eigen::Matrix< T, N, N > m = c;
  for( unsigned i = 0; i < N; ++i ) { for( unsigned j = 0; j < N; ++j ) { VM_CHECK( m( i, j ) == full[ i * N + j ], key + "-matrix", N << " (" << i << "," << j << ") " << log ); } }
}

template < unsigned N, class T > void covariance( vm::Rng& r )
{
  typedef covariance_< N, T > cov;
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  std::string log = std::string( sizeof( T ) == 8 ? "d" : "f" ) + std::to_string( N );
  vm::note( log );
  static_assert( cov::data_size == N * ( N + 1 ) / 2, "size" );
  // from a matrix: its symmetric part
  Eigen::Matrix< T, N, N > m;
  bool symmetric = r.chance( 1, 2 );
  for( unsigned i = 0; i < N; ++i ) { for( unsigned j = 0; j < N; ++j ) { m( i, j ) = static_cast< T >( value( r ) ); } }
  if( symmetric ) { for( unsigned i = 0; i < N; ++i ) { for( unsigned j = 0; j < i; ++j ) { m( i, j ) = m( j, i ); } } }
  if( symmetric && r.chance( 1, 3 ) )     // almost
  {
    symmetric = false;
    for( unsigned i = 0; i < N; ++i ) { for( unsigned j = 0; j < i; ++j ) { m( i, j ) *= static_cast< T >( r.near( 1 ) ); } }
  }
  std::vector< T > full( N * N );
  for( unsigned i = 0; i < N; ++i )
  {
    for( unsigned j = 0; j < N; ++j ) { full[ i * N + j ] = i == j ? m( i, i ) : ( m( std::min( i, j ), std::max( i, j ) ) + m( std::max( i, j ), std::min( i, j ) ) ) / 2; }
  }
  cov c( m );
  same_cov( c, full, "from-matrix", log );
  cov const copy( c );
  cov assigned;
  assigned = c;
  same_cov( copy, full, "copy", log );
  same_cov( assigned, full, "assign", log );
  // write through either side of the diagonal
  for( int k = 0; k < 8; ++k )
  {
    unsigned i = static_cast< unsigned >( r.below( N ) ), j = static_cast< unsigned >( r.below( N ) );
    T v = static_cast< T >( value( r ) );
    c( i, j ) = v;
    full[ i * N + j ] = full[ j * N + i ] = v;
    same_cov( c, full, "element-write", log );
    VM_CHECK( c( i, j ) == copy( i, j ) || c.data() != copy.data(), "alias", log );
  }
  // precision: there and, for values of the smaller precision, back
  {
    Made< covariance_< N, U > > other( static_cast< int >( r.below( 256 ) ), c );
    std::vector< U > want( N * N );
    for( unsigned i = 0; i < N * N; ++i ) { want[ i ] = static_cast< U >( full[ i ] ); }
    same_cov( *other.c, want, "convert", log );
    cov back( *other.c );
    std::vector< T > w2( N * N );
    for( unsigned i = 0; i < N * N; ++i ) { w2[ i ] = static_cast< T >( want[ i ] ); }
    same_cov( back, w2, "convert-back", log );
    vm::event( "covariances_converted" );
  }
  // scalar and default
  T s = static_cast< T >( value( r ) );
  cov sc( s );
  for( unsigned i = 0; i < N; ++i ) { for( unsigned j = 0; j < N; ++j ) { VM_CHECK( sc( i, j ) == ( i == j ? s : T( 0 ) ), "scalar", log << " " << s ); } }
  Made< cov > d1( 0x00 ), d2( 0x5a ), d3( 0xff );
  VM_CHECK( std::memcmp( d1.c->data(), d2.c->data(), sizeof( T ) * cov::data_size ) == 0 && std::memcmp( d1.c->data(), d3.c->data(), sizeof( T ) * cov::data_size ) == 0, "default-undefined", log );
  vm::event( "covariances" );
  vm::sig( log + ( symmetric ? "s" : "g" ) + std::to_string( r.below( 300 ) ) );
}

bool same_color( rgb_color const& a, rgb_color const& b ) { return a.r == b.r && a.g == b.g && a.b == b.b; }
rgb_color random_color( vm::Rng& r ) { return rgb_color( static_cast< unsigned char >( r.below( 256 ) ), static_cast< unsigned char >( r.below( 256 ) ), static_cast< unsigned char >( r.below( 256 ) ) ); }

struct FV { double x, y, mag, scale, angle, c[ 3 ]; rgb_color col; };

template < class T > void check_feature( feature const& f, FV const& v, std::string const& key )
{
  auto R = []( double d ) { return static_cast< double >( static_cast< T >( d ) ); };
  VM_CHECK( f.loc()[ 0 ] == R( v.x ) && f.loc()[ 1 ] == R( v.y ), key, "loc " << f.loc().transpose() << " want " << v.x << "," << v.y );
  VM_CHECK( f.magnitude() == R( v.mag ), key, "magnitude " << f.magnitude() << " want " << v.mag );
  VM_CHECK( f.scale() == R( v.scale ), key, "scale " << f.scale() << " want " << v.scale );
  VM_CHECK( f.angle() == R( v.angle ), key, "angle " << f.angle() << " want " << v.angle );
  VM_CHECK( f.covar()( 0, 0 ) == R( v.c[ 0 ] ) && f.covar()( 0, 1 ) == R( v.c[ 1 ] ) && f.covar()( 1, 1 ) == R( v.c[ 2 ] ), key, "covariance " << f.covar()( 0, 0 ) << " " << f.covar()( 0, 1 ) << " " << f.covar()( 1, 1 ) << " want " << v.c[ 0 ] << " " << v.c[ 1 ] << " " << v.c[ 2 ] );
  VM_CHECK( same_color( f.color(), v.col ), key, "color " << f.color() );
}

template < class T > void check_typed( feature_< T > const& f, FV const& v, std::string const& key )
{
  check_feature< T >( f, v, key );
  VM_CHECK( f.get_loc()[ 0 ] == static_cast< T >( v.x ) && f.get_loc()[ 1 ] == static_cast< T >( v.y ) && f.get_magnitude() == static_cast< T >( v.mag ) && f.get_scale() == static_cast< T >( v.scale ) &&
            f.get_angle() == static_cast< T >( v.angle ) && same_color( f.get_color(), v.col ) && f.get_covar()( 1, 0 ) == static_cast< T >( v.c[ 1 ] ), key + "-typed", "" );
  VM_CHECK( f.data_type() == typeid( T ) && feature_< T >::static_data_type() == typeid( T ), key + "-type", "" );
}

template < class T > void features( vm::Rng& r )
{
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  auto V = [ & ] { return static_cast< double >( static_cast< T >( value( r ) ) ); };
  FV v{ V(), V(), V(), V(), V(), { V(), V(), V() }, random_color( r ) };
  typename std::aligned_storage< sizeof( feature_< T > ), alignof( feature_< T > ) >::type mem;
  std::memset( &mem, 0xa5, sizeof mem );
  feature_< T >* f = new( &mem ) feature_< T >( Eigen::Matrix< T, 2, 1 >( static_cast< T >( v.x ), static_cast< T >( v.y ) ), static_cast< T >( v.mag ), static_cast< T >( v.scale ), static_cast< T >( v.angle ), v.col );
  {
    Made< feature_< T > > d( 0x5a );
    FV dv{ 0, 0, 0, 1, 0, { 1, 0, 1 }, rgb_color( 255, 255, 255 ) };
    check_typed< T >( *d.c, dv, "default-feature" );
    // only what is set changes
    d.c->set_magnitude( static_cast< T >( dv.mag = v.mag ) ); check_typed< T >( *d.c, dv, "set-magnitude" );
    d.c->set_scale( static_cast< T >( dv.scale = v.scale ) ); check_typed< T >( *d.c, dv, "set-scale" );
    d.c->set_angle( static_cast< T >( dv.angle = v.angle ) ); check_typed< T >( *d.c, dv, "set-angle" );
    d.c->set_color( dv.col = v.col ); check_typed< T >( *d.c, dv, "set-color" );
    dv.x = v.x; dv.y = v.y;
    d.c->set_loc( f->get_loc() ); check_typed< T >( *d.c, dv, "set-loc" );
  }
  {
    FV w = v;
    w.c[ 0 ] = w.c[ 2 ] = 1; w.c[ 1 ] = 0;
    check_typed< T >( *f, w, "new-feature" );
    // what is not given
    FV dv{ v.x, v.y, 0, 1, 0, { 1, 0, 1 }, rgb_color( 255, 255, 255 ) };
    feature_< T > one( f->get_loc() );
    check_typed< T >( one, dv, "feature-at" );
    dv.mag = v.mag;
    feature_< T > two( f->get_loc(), static_cast< T >( v.mag ) );
    check_typed< T >( two, dv, "feature-of-magnitude" );
    dv.scale = v.scale;
    feature_< T > three( f->get_loc(), static_cast< T >( v.mag ), static_cast< T >( v.scale ) );
    check_typed< T >( three, dv, "feature-of-scale" );
    dv.angle = v.angle;
    feature_< T > four( f->get_loc(), static_cast< T >( v.mag ), static_cast< T >( v.scale ), static_cast< T >( v.angle ) );
    check_typed< T >( four, dv, "feature-of-angle" );
  }
  Eigen::Matrix< T, 2, 2 > m;
  m << static_cast< T >( v.c[ 0 ] ), static_cast< T >( v.c[ 1 ] ), static_cast< T >( v.c[ 1 ] ), static_cast< T >( v.c[ 2 ] );
  f->set_covar( covariance_< 2, T >( m ) );
  check_typed< T >( *f, v, "set-covariance" );
  feature const& base = *f;
  Made< feature_< T > > same( static_cast< int >( r.below( 256 ) ), base );
  check_typed< T >( *same.c, v, "copy-from-base" );
  Made< feature_< U > > other( static_cast< int >( r.below( 256 ) ), base );
  check_typed< U >( *other.c, v, "convert-feature" );
  feature_< T > copy( *f );
  check_typed< T >( copy, v, "copy-feature" );
  copy.set_loc( Eigen::Matrix< T, 2, 1 >( 1, 2 ) );
  copy.set_color( rgb_color( 1, 2, 3 ) );
  copy.set_covar( covariance_< 2, T >( T( 77 ) ) );
  check_typed< T >( *f, v, "feature-alias" );
  // text form, at full precision
  {
    std::ostringstream a, b;
    a << std::setprecision( 17 ) << *f;
    b << std::setprecision( 17 ) << base;
    for( std::string const& s : { a.str(), b.str() } )
    {
      std::istringstream i( s );
      feature_< T > g;
      i >> g;
      FV w = v;
      w.c[ 0 ] = w.c[ 2 ] = 1; w.c[ 1 ] = 0;       // the covariance is not part of the text
      VM_CHECK( !i.fail(), "feature-text", s );
      check_typed< T >( g, w, "feature-text" );
    }
  }
  f->~feature_< T >();
  vm::event( "features" );
  vm::sig( std::string( "f" ) + ( sizeof( T ) == 8 ? "d" : "f" ) + std::to_string( r.below( 800 ) ) );
}

struct LV { double x[ 3 ], n[ 3 ], scale, c[ 6 ]; rgb_color col; unsigned obs; };

template < class T > void check_landmark( landmark const& l, LV const& v, std::string const& key )
{
  auto R = []( double d ) { return static_cast< double >( static_cast< T >( d ) ); };
  unsigned n = 0;
  for( unsigned i = 0; i < 3; ++i )
  {
    VM_CHECK( l.loc()[ i ] == R( v.x[ i ] ), key, "loc " << i << " " << l.loc()[ i ] << " want " << v.x[ i ] );
    VM_CHECK( l.normal()[ i ] == R( v.n[ i ] ), key, "normal " << i << " " << l.normal()[ i ] << " want " << v.n[ i ] );
    for( unsigned j = 0; j <= i; ++j, ++n ) { VM_CHECK( l.covar()( i, j ) == R( v.c[ n ] ), key, "covariance " << i << j << " " << l.covar()( i, j ) << " want " << v.c[ n ] ); }
  }
  VM_CHECK( l.scale() == R( v.scale ), key, "scale " << l.scale() );
  VM_CHECK( same_color( l.color(), v.col ), key, "color " << l.color() );
  VM_CHECK( l.observations() == v.obs, key, "observations " << l.observations() << " want " << v.obs );
}

template < class T > void check_typed( landmark_< T > const& l, LV const& v, std::string const& key )
{
  check_landmark< T >( l, v, key );
  for( int i = 0; i < 3; ++i ) { VM_CHECK( l.get_loc()[ i ] == static_cast< T >( v.x[ i ] ) && l.get_normal()[ i ] == static_cast< T >( v.n[ i ] ), key + "-typed", i ); }
  VM_CHECK( l.get_scale() == static_cast< T >( v.scale ) && same_color( l.get_color(), v.col ) && l.get_observations() == v.obs && l.get_covar()( 0, 2 ) == static_cast< T >( v.c[ 3 ] ), key + "-typed", "" );
  VM_CHECK( landmark_< T >::data_type() == typeid( T ), key + "-type", "" );
}

template < class T > void landmarks( vm::Rng& r )
{
  typedef typename std::conditional< std::is_same< T, double >::value, float, double >::type U;
  auto V = [ & ] { return static_cast< double >( static_cast< T >( value( r ) ) ); };
  LV v;
  for( double& x : v.x ) { x = V(); }
  for( double& x : v.n ) { x = V(); }
  for( double& x : v.c ) { x = V(); }
  v.scale = V();
  v.col = random_color( r );
  v.obs = r.chance( 1, 5 ) ? 4294967295u : static_cast< unsigned >( r.below( 1000 ) );
  auto vec = []( double const* x ) { return Eigen::Matrix< T, 3, 1 >( static_cast< T >( x[ 0 ] ), static_cast< T >( x[ 1 ] ), static_cast< T >( x[ 2 ] ) ); };
  LV dv{ { 0, 0, 0 }, { 0, 0, 0 }, 1, { 1, 0, 1, 0, 0, 1 }, rgb_color( 255, 255, 255 ), 0 };
  Made< landmark_< T > > d( 0x5a );
  check_typed< T >( *d.c, dv, "default-landmark" );
  {
    landmark_< T > two( vec( v.x ), static_cast< T >( v.scale ) ), one( vec( v.x ) );
    LV w = dv;
    std::copy( v.x, v.x + 3, w.x );
    check_typed< T >( one, w, "new-landmark" );
    w.scale = v.scale;
    check_typed< T >( two, w, "new-landmark" );
  }
  d.c->set_scale( static_cast< T >( dv.scale = v.scale ) ); check_typed< T >( *d.c, dv, "set-scale" );
  d.c->set_observations( dv.obs = v.obs ); check_typed< T >( *d.c, dv, "set-observations" );
  d.c->set_color( dv.col = v.col ); check_typed< T >( *d.c, dv, "set-color" );
  d.c->set_loc( vec( v.x ) ); std::copy( v.x, v.x + 3, dv.x ); check_typed< T >( *d.c, dv, "set-loc" );
  d.c->set_normal( vec( v.n ) ); std::copy( v.n, v.n + 3, dv.n ); check_typed< T >( *d.c, dv, "set-normal" );
  Eigen::Matrix< T, 3, 3 > m;
  unsigned n = 0;
  for( int i = 0; i < 3; ++i ) { for( int j = 0; j <= i; ++j, ++n ) { m( i, j ) = m( j, i ) = static_cast< T >( v.c[ n ] ); } }
  d.c->set_covar( covariance_< 3, T >( m ) );
  check_typed< T >( *d.c, v, "set-covariance" );
  landmark const& base = *d.c;
  Made< landmark_< T > > same( static_cast< int >( r.below( 256 ) ), base );
  check_typed< T >( *same.c, v, "copy-from-base" );
  Made< landmark_< U > > other( static_cast< int >( r.below( 256 ) ), base );
  check_typed< U >( *other.c, v, "convert-landmark" );
  landmark_sptr cl = base.clone();
  check_landmark< T >( *cl, v, "clone-landmark" );
  landmark_< T >& ct = dynamic_cast< landmark_< T >& >( *cl );
  ct.set_loc( Eigen::Matrix< T, 3, 1 >( 1, 2, 3 ) );
  ct.set_covar( covariance_< 3, T >( T( 9 ) ) );
  check_typed< T >( *d.c, v, "landmark-alias" );
  {
    std::ostringstream a, b;
    a << std::setprecision( 17 ) << *d.c;
    b << std::setprecision( 17 ) << base;
    for( std::string const& s : { a.str(), b.str() } )
    {
      std::istringstream i( s );
      landmark_< T > g;
      i >> g;
      LV w = v;
      LV const none{ { 0, 0, 0 }, { 0, 0, 0 }, 1, { 1, 0, 1, 0, 0, 1 }, rgb_color(), 0 };
      std::copy( none.c, none.c + 6, w.c );
      VM_CHECK( !i.fail(), "landmark-text", s );
      check_typed< T >( g, w, "landmark-text" );
    }
  }
  vm::event( "landmarks" );
  vm::sig( std::string( "l" ) + ( sizeof( T ) == 8 ? "d" : "f" ) + std::to_string( r.below( 800 ) ) );
}

template < class T > T element( vm::Rng& r )
{
  switch( r.below( 4 ) )
  {
  case 0: return std::numeric_limits< T >::max();
  case 1: return std::numeric_limits< T >::lowest();
  default: return std::is_floating_point< T >::value ? static_cast< T >( r.gauss() * 100 ) : static_cast< T >( r.u64() );
  }
}

template < class T > void check_descriptor( descriptor const& d, std::vector< T > const& v, std::string const& log )
{
  VM_CHECK( d.size() == v.size() && d.num_bytes() == v.size() * sizeof( T ), "descriptor-size", d.size() << " " << d.num_bytes() << " " << log );
  std::vector< byte > b = d.as_bytes();
  VM_CHECK( b.size() == v.size() * sizeof( T ) && ( v.empty() || std::memcmp( b.data(), v.data(), b.size() ) == 0 ), "descriptor-bytes", log );
  std::vector< double > dd = d.as_double();
  VM_CHECK( dd.size() == v.size(), "descriptor-doubles", log );
  for( size_t i = 0; i < v.size(); ++i ) { VM_CHECK( dd[ i ] == static_cast< double >( v[ i ] ), "descriptor-doubles", i << " " << dd[ i ] << " " << log ); }
}

template < class T, unsigned N > void fixed_one( vm::Rng& r, std::string const& log )
{
  auto d = std::make_shared< descriptor_fixed< T, N > >();
  std::vector< T > v( N );
  for( unsigned i = 0; i < N; ++i ) { d->raw_data()[ i ] = v[ i ] = element< T >( r ); }
  check_descriptor< T >( *d, v, log + " fixed " + std::to_string( N ) );
  descriptor_fixed< T, N > copy( *d );
  copy.raw_data()[ r.below( N ) ] = element< T >( r );
  check_descriptor< T >( *d, v, log + " fixed alias " + std::to_string( N ) );
  descriptor_fixed< T, N > const& k = *d;
  VM_CHECK( k.raw_data() == d->raw_data(), "raw-data", log );
}

template < class T > void descriptors( vm::Rng& r, std::string const& tn )
{
  std::string log = tn;
  vm::note( "descriptors " + tn );
  size_t before = 0;
  for( int n = 0; n < 2; ++n )
  {
    size_t len = r.chance( 1, 8 ) ? 0 : static_cast< size_t >( r.range( 1, r.chance( 1, 5 ) ? 600 : 40 ) );
    descriptor_dynamic< T > d( len );
    std::vector< T > v( len );
    for( size_t i = 0; i < len; ++i ) { d.raw_data()[ i ] = v[ i ] = element< T >( r ); }
    std::string l = log + " dynamic " + std::to_string( len );
    check_descriptor< T >( d, v, l );
    {
      descriptor_dynamic< T > copy( d );
      check_descriptor< T >( copy, v, l + " copy" );
      descriptor_dynamic< T > third( static_cast< size_t >( r.below( 20 ) ) );
      third = copy;
      check_descriptor< T >( third, v, l + " assigned" );
      third = *&third;
      check_descriptor< T >( third, v, l + " self-assigned" );
      if( len )
      {
        T x = element< T >( r );
        copy.raw_data()[ 0 ] = x;
        std::vector< T > v2 = v;
        v2[ 0 ] = x;
        check_descriptor< T >( third, v, l + " alias" );
        check_descriptor< T >( copy, v2, l + " changed copy" );
      }
    }
    check_descriptor< T >( d, v, l + " after copies" );
    vm::sig( tn + std::to_string( len ) );
  }
  switch( r.below( 4 ) )
  {
  case 0: fixed_one< T, 1 >( r, log ); break;
  case 1: fixed_one< T, 7 >( r, log ); break;
  case 2: fixed_one< T, 64 >( r, log ); break;
  default: fixed_one< T, 128 >( r, log );
  }
  (void)before;
  vm::event( "descriptors" );
}

void small( vm::Rng& r )
{
  // colours
  for( int k = 0; k < 10; ++k )
  {
    rgb_color a = random_color( r ), b = r.chance( 1, 2 ) ? a : random_color( r );
    if( r.chance( 1, 2 ) ) { unsigned char* p = r.chance( 1, 3 ) ? &b.r : r.chance( 1, 2 ) ? &b.g : &b.b; *p = static_cast< unsigned char >( *p ^ ( 1u << r.below( 8 ) ) ); }
    bool eq = a.r == b.r && a.g == b.g && a.b == b.b;
    VM_CHECK( ( a == b ) == eq && ( a != b ) == !eq, "color-compare", a << " | " << b );
    std::stringstream s;
    s << a;
    rgb_color c( 1, 2, 3 );
    s >> c;
    VM_CHECK( !s.fail() && c.r == a.r && c.g == a.g && c.b == a.b, "color-text", s.str() );
    rgb_color d;
    VM_CHECK( d.r == 255 && d.g == 255 && d.b == 255, "color-default", d );
    // out of range in any one component: refused, and the color stays
    {
      long v[ 3 ] = { a.r, a.g, a.b };
      unsigned bad = 0;
      for( unsigned n = 0; n < 3; ++n ) { if( r.chance( 1, 3 ) ) { v[ n ] = r.chance( 1, 2 ) ? 256 + static_cast< long >( r.below( r.chance( 1, 2 ) ? 2 : 100000 ) ) : -1 - static_cast< long >( r.below( r.chance( 1, 2 ) ? 2 : 100000 ) ); ++bad; } }
      std::stringstream t( std::to_string( v[ 0 ] ) + " " + std::to_string( v[ 1 ] ) + " " + std::to_string( v[ 2 ] ) );
      rgb_color e( 4, 5, 6 );
      t >> e;
      VM_CHECK( t.fail() == ( bad > 0 ), "color-range", t.str() );
      VM_CHECK( bad ? e == rgb_color( 4, 5, 6 ) : e == a, "color-range", t.str() << " gives " << e );
      if( bad ) { vm::event( "colors_out_of_range" ); }
    }
    vm::event( "colors" );
  }
  // geographic points
  {
    geo_lat_lon e;
    VM_CHECK( e.is_empty() && !e.is_valid(), "geo-empty", e );
    auto deg = [ & ]( bool lat ) { return r.chance( 1, 3 ) ? ( lat ? 90.0 : r.chance( 1, 2 ) ? 360.0 : -180.0 ) * ( r.chance( 1, 2 ) && lat ? -1 : 1 ) : r.chance( 1, 10 ) ? static_cast< double >( NAN ) : r.real( -500, 500 ); };
    double la = deg( true ), lo = deg( false );
    if( r.chance( 1, 3 ) ) { la = std::nextafter( la, r.chance( 1, 2 ) ? 1e9 : -1e9 ); }
    if( r.chance( 1, 3 ) ) { lo = std::nextafter( lo, r.chance( 1, 2 ) ? 1e9 : -1e9 ); }
    if( r.chance( 1, 8 ) ) { la = geo_lat_lon::INVALID; }
    if( r.chance( 1, 8 ) ) { lo = geo_lat_lon::INVALID; }
    geo_lat_lon g( la, lo ), h;
    h.set_latitude( la ).set_longitude( lo );
    for( geo_lat_lon const* p : { &g, &h } )
    {
      VM_CHECK( ( p->get_latitude() == la || la != la ) && ( p->get_longitude() == lo || lo != lo ), "geo-accessors", *p );
      VM_CHECK( p->is_valid() == ( la >= -90 && la <= 90 && lo >= -180 && lo <= 360 ), "geo-valid", *p );
      VM_CHECK( p->is_empty() == ( la == 444.0 && lo == 444.0 ), "geo-is-empty", *p );
    }
    VM_CHECK( ( g == h ) == ( la == la && lo == lo ) && ( g != h ) == !( g == h ), "geo-equal", g << " " << h );
    geo_lat_lon k( la, lo + 1 ), m( la + 1, lo );
    VM_CHECK( !( g == k ) || lo + 1 == lo, "geo-unequal", g << k );
    VM_CHECK( !( g == m ) || la + 1 == la, "geo-unequal", g << m );
    std::ostringstream o;
    o << std::setprecision( 3 ) << g;
    double a = 0, b = 0;
    if( la == la && lo == lo )
    {
      VM_CHECK( std::sscanf( o.str().c_str(), "[ %lf / %lf ]", &a, &b ) == 2 && a == la && b == lo && o.precision() == 3, "geo-text", o.str() );
    }
    vm::event( "geo" );
  }
  // sets and maps hold the very objects they were given, in order
  {
    std::vector< feature_sptr > fs;
    std::vector< descriptor_sptr > ds;
    std::vector< match > ms;
    landmark_map::map_landmark_t lm;
    camera_map::map_camera_t cm;
    size_t n = static_cast< size_t >( r.below( 20 ) );
    for( size_t i = 0; i < n; ++i )
    {
      fs.push_back( r.chance( 1, 10 ) ? feature_sptr() : feature_sptr( new feature_d() ) );
      ds.push_back( r.chance( 1, 10 ) ? descriptor_sptr() : descriptor_sptr( new descriptor_dynamic< float >( 3 ) ) );
      ms.push_back( match( static_cast< unsigned >( r.below( 5 ) ), static_cast< unsigned >( r.u64() ) ) );
      lm[ static_cast< landmark_id_t >( r.u64() ) ] = landmark_sptr( new landmark_f() );
      cm[ static_cast< frame_id_t >( r.u64() ) ] = camera_sptr( new simple_camera() );
    }
    std::shared_ptr< feature_set > sf( new simple_feature_set( fs ) );
    std::shared_ptr< descriptor_set > sd( new simple_descriptor_set( ds ) );
    std::shared_ptr< match_set > sm( new simple_match_set( ms ) );
    std::shared_ptr< landmark_map > sl( new simple_landmark_map( lm ) );
    std::shared_ptr< camera_map > sc( new simple_camera_map( cm ) );
    VM_CHECK( sf->size() == n && sf->features() == fs, "feature-set", n );
    VM_CHECK( sd->size() == n && sd->descriptors() == ds, "descriptor-set", n );
    VM_CHECK( sm->size() == n && sm->matches() == ms, "match-set", n );
    VM_CHECK( sl->size() == lm.size() && sl->landmarks() == lm, "landmark-map", n );
    VM_CHECK( sc->size() == cm.size() && sc->cameras() == cm, "camera-map", n );
    VM_CHECK( simple_feature_set().size() == 0 && simple_descriptor_set().descriptors().empty() && simple_match_set().size() == 0 && simple_landmark_map().size() == 0 && simple_camera_map().cameras().empty(), "empty-sets", "" );
    vm::event( "sets" );
  }
}

void body( vm::Rng& r, uint64_t i )
{
  switch( i % 12 )
  {
  case 0: covariance< 2, double >( r ); covariance< 2, float >( r ); break;
  case 1: covariance< 3, double >( r ); covariance< 3, float >( r ); break;
  case 2: covariance< 1, double >( r ); covariance< 4, float >( r ); covariance< 6, double >( r ); covariance< 9, double >( r ); covariance< 5, float >( r ); break;
  case 3: case 4: features< double >( r ); break;
  case 5: features< float >( r ); break;
  case 6: case 7: landmarks< double >( r ); break;
  case 8: landmarks< float >( r ); break;
  case 9: descriptors< double >( r, "double" ); descriptors< float >( r, "float" ); descriptors< int >( r, "int" ); break;
  case 10: descriptors< unsigned char >( r, "uchar" ); descriptors< short >( r, "short" ); descriptors< unsigned >( r, "unsigned" ); break;
  default: small( r );
  }
}

} // namespace
VM_MAIN( body )
