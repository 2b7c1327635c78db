// X01: threads that use unrelated objects, the process-wide facilities, or read the
// same objects, get what each would get alone and never race (ThreadSanitizer).
#include "vm.h"
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algorithm_plugin_manager.h>
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/common.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/token_expander.h>
#include <vital/config/token_type_env.h>
#include <vital/config/token_type_symtab.h>
#include <vital/config/token_type_sysenv.h>
#include <vital/io/camera_io.h>
#include <vital/io/camera_map_io.h>
#include <vital/io/landmark_map_io.h>
#include <vital/io/track_set_io.h>
#include <vital/logger/logger.h>
#include <vital/registrar.h>
#include <vital/types/descriptor.h>
#include <vital/types/essential_matrix.h>
#include <vital/types/feature.h>
#include <vital/types/fundamental_matrix.h>
#include <vital/types/geo_lat_lon.h>
#include <vital/types/homography.h>
#include <vital/types/homography_f2f.h>
#include <vital/types/landmark.h>
#include <vital/types/image_container.h>
#include <vital/types/similarity.h>
#include <vital/types/timestamp.h>
#include <vital/types/track_set.h>
#include <vital/util/get_paths.h>
#include <vital/util/tokenize.h>
#include <kwiversys/CommandLineArguments.hxx>
#include <kwiversys/Directory.hxx>
#include <kwiversys/RegularExpression.hxx>
#include <kwiversys/SystemTools.hxx>
#include <atomic>
#include <thread>
#include "b_mocks.h"
#include "a03_types.h"

namespace kv = kwiver::vital;
using kwiversys::SystemTools;

static std::atomic< unsigned > registrations( 0 );
extern "C" __attribute__( ( visibility( "default" ) ) ) void a03_called( char const* ) { registrations.fetch_add( 1, std::memory_order_relaxed ); }

namespace {

typedef std::string ( *Fn )( vm::Rng&, std::string const& );

std::string shared_dir;                 // files every thread reads
kv::config_block_sptr shared_config;    // objects every thread reads
kv::track_set_sptr shared_tracks;
kv::camera_sptr shared_camera;
kv::essential_matrix_sptr shared_essential;
kv::homography_sptr shared_homography;
kv::image shared_image;
kwiversys::RegularExpression* shared_regex;

std::string dump( kv::config_block_sptr c )
{
  std::string r = c->get_name() + ";";
  for( auto const& k : c->available_values() ) { r += k + "=" + c->get_value< std::string >( k ) + "#" + c->get_description( k ) + ( c->is_read_only( k ) ? "!" : "" ) + ";"; }
  return r;
}

kv::config_block_sptr make_config( vm::Rng& r )
{
  kv::config_block_sptr c = kv::config_block::empty_config( "c" + r.str( "ab", 0, 3 ) );
  for( unsigned n = static_cast< unsigned >( r.range( 1, 12 ) ); n; --n )
  {
    std::string k = r.str( "ab", 1, 2 ) + ( r.chance( 1, 2 ) ? ":" + r.str( "cd", 1, 2 ) : "" );
    switch( r.below( 3 ) )
    {
    case 0: c->set_value( k, r.str( "abc 1", 0, 20 ), r.str( "xy", 0, 9 ) ); break;
    case 1: c->set_value( k, static_cast< int >( r.range( -1000, 1000 ) ) ); break;
    default: c->set_value( k, r.real( -1, 1 ) );
    }
  }
  return c;
}

std::string config_store( vm::Rng& r, std::string const& )
{
  kv::config_block_sptr c = make_config( r ), d = make_config( r );
  c->merge_config( d );
  kv::config_block_sptr v = c->subblock_view( "a" ), s = c->subblock( "b" );
  v->set_value( "z", "1" );
  s->set_value( "z", "2" );
  std::string t = dump( c ) + dump( v ) + dump( s );
  c->mark_read_only( "a:z" );
  try { c->set_value( "a:z", "3" ); }
  catch( std::exception const& e ) { t += e.what(); }
  try { t += kv::config_block::block_sep + vm::str( c->get_value< int >( "a:z" ) ); c->get_value< int >( "nowhere" ); }
  catch( std::exception const& e ) { t += e.what(); }
  try { t += vm::str( c->get_value< bool >( "a:z" ) ); c->get_value< bool >( "b" ); }
  catch( std::exception const& e ) { t += e.what(); }
  return t + dump( c );
}

std::string conf_text( vm::Rng& r )
{
  std::string t = "# made up\n";
  for( unsigned n = static_cast< unsigned >( r.range( 1, 10 ) ); n; --n )
  {
    switch( r.below( 7 ) )
    {
    case 0: t += "block b" + r.str( "xy", 0, 2 ) + "\n  k = " + r.str( "ab", 1, 9 ) + "\nendblock\n"; break;
    case 1: t += "m := " + r.str( "mn", 1, 5 ) + "\nv" + r.str( "xy", 0, 2 ) + " = <$LOCAL{m}>\n"; break;
    case 2: t += "e = $ENV{X01_VARIABLE}\n"; break;
    case 3: t += "s = $SYSENV{cwd}\n"; break;
    case 4: t += "ro[RO] = " + r.str( "pq", 1, 3 ) + "\n"; break;
    case 5: t += "o" + r.str( "xy", 0, 1 ) + " = " + r.str( "0123456789", 1, 5 ) + " # comment\n"; break;
    default: t += "k" + r.str( "xy", 0, 1 ) + " = " + r.str( "0123456789", 1, 5 ) + "\n";
    }
  }
  if( r.chance( 1, 6 ) ) { t += r.chance( 1, 2 ) ? "endblock\n" : "nonsense\n"; }
  return t;
}

std::string read_conf( std::string const& f, std::string const& path )
{
  try { return dump( kv::read_config_file( f, kv::config_path_list_t( 1, path ) ) ); }
  catch( std::exception const& e ) { return e.what(); }
}

std::string config_read( vm::Rng& r, std::string const& dir )
{
  std::string t = conf_text( r );
  if( r.chance( 1, 3 ) )
  {
    vm::spit( dir + "/other.conf", conf_text( r ) );
    t += "include other.conf\n";
  }
  vm::spit( dir + "/a.conf", t );
  std::string got = read_conf( dir + "/a.conf", dir );
  // the path differs from run to run
  for( size_t p; ( p = got.find( dir ) ) != std::string::npos; ) { got.replace( p, dir.size(), "DIR" ); }
  return got;
}

std::string config_read_shared( vm::Rng& r, std::string const& )
{
  return read_conf( shared_dir + "/conf" + vm::str( r.below( 4 ) ), shared_dir );
}

std::string config_standard( vm::Rng& r, std::string const& )
{
  try { return dump( kv::read_config_file( "conf" + vm::str( r.below( 5 ) ), "application", "1", "/nowhere", r.chance( 1, 2 ) ) ); }
  catch( std::exception const& e ) { return e.what(); }
}

std::string config_write( vm::Rng& r, std::string const& dir )
{
  kv::write_config_file( make_config( r ), dir + "/w.conf" );
  return vm::slurp( dir + "/w.conf" );
}

std::string expand( vm::Rng& r, std::string const& )
{
  kv::token_expander e;
  kv::token_type_symtab* sym = new kv::token_type_symtab;
  sym->add_entry( "foo", r.str( "abc", 0, 9 ) );
  e.add_token_type( sym );
  e.add_token_type( new kv::token_type_env );
  e.add_token_type( new kv::token_type_sysenv );
  return e.expand_token( "$SYMTAB{foo} $ENV{X01_VARIABLE} $ENV{X01_MISSING} $SYSENV{cwd} $SYSENV{numproc} $SYSENV{hostname} $SYSENV{osname} $SYSENV{homedir} $SYSENV{none} $SYMTAB{" + r.str( "fo", 1, 3 ) + "}" );
}

std::string timestamps( vm::Rng& r, std::string const& )
{
  std::string t;
  for( int i = 0; i < 8; ++i )
  {
    kv::timestamp s( r.range( 0, 4000000000LL ) * 1000000 + r.range( 0, 999999 ), r.range( 0, 1000 ) ), u;
    u.set_frame( r.range( 0, 5 ) );
    t += s.pretty_print() + u.pretty_print() + ( s == u ? "=" : "/" ) + ( s < u ? "<" : "." );
  }
  return t;
}

std::string images( vm::Rng& r, std::string const& )
{
  size_t w = static_cast< size_t >( r.range( 1, 30 ) ), h = static_cast< size_t >( r.range( 1, 30 ) ), d = static_cast< size_t >( r.range( 1, 3 ) );
  kv::image a( w, h, d, r.chance( 1, 2 ) ), b, c;
  for( size_t y = 0; y < h; ++y ) { for( size_t x = 0; x < w; ++x ) { for( size_t k = 0; k < d; ++k ) { a( static_cast< unsigned >( x ), static_cast< unsigned >( y ), static_cast< unsigned >( k ) ) = static_cast< kv::image::byte >( r.below( 256 ) ); } } }
  b.copy_from( a );
  c = a;
  kv::simple_image_container sc( b );
  std::string t = vm::str( sc.width() * 10000 + sc.height() * 100 + sc.depth() ) + ( kv::equal_content( a, b ) ? "=" : "/" );
  kv::image m = sc.get_image();
  t.append( reinterpret_cast< char const* >( m.memory()->data() ), m.size() );
  return t;
}

std::vector< kv::track_sptr > make_tracks( vm::Rng& r )
{
  std::vector< kv::track_sptr > v;
  for( unsigned n = static_cast< unsigned >( r.range( 1, 6 ) ); n; --n )
  {
    auto t = std::make_shared< kv::track >();
    t->set_id( n );
    unsigned f = static_cast< unsigned >( r.below( 5 ) );
    for( unsigned k = static_cast< unsigned >( r.range( 1, 8 ) ); k; --k )
    {
      f += static_cast< unsigned >( r.range( 1, 3 ) );
      t->append( kv::track::track_state( f, kv::feature_sptr( new kv::feature_d( kv::vector_2d( r.gauss(), r.gauss() ), r.real( 0, 1 ), 1.0, 0.0, kv::rgb_color( 1, 2, 3 ) ) ), kv::descriptor_sptr() ) );
    }
    v.push_back( t );
  }
  return v;
}

std::string ids( kv::track_set_sptr s )
{
  std::string t = "[";
  for( auto const& k : s->tracks() ) { t += vm::str( k->id() ) + ":" + vm::str( k->size() ) + " "; }
  return t + "]";
}

std::string look_at( kv::track_set_sptr s )
{
  std::string t = ids( s ) + vm::str( s->first_frame() ) + "-" + vm::str( s->last_frame() );
  for( unsigned f = 0; f < 12; ++f ) { t += ids( s->active_tracks( static_cast< int >( f ) ) ) + ids( s->new_tracks( static_cast< int >( f ) ) ) + vm::str( s->percentage_tracked( static_cast< int >( f ), 2 ) ) + vm::str( s->frame_features( static_cast< int >( f ) )->size() ); }
  return t;
}

std::string tracks( vm::Rng& r, std::string const& dir )
{
  kv::track_set_sptr s = std::make_shared< kv::simple_track_set >( make_tracks( r ) );
  kv::write_track_file( s, dir + "/t.txt" );
  return look_at( s ) + vm::slurp( dir + "/t.txt" ) + look_at( kv::read_track_file( dir + "/t.txt" ) );
}

kv::camera_sptr make_camera( vm::Rng& r )
{
  kv::simple_camera_intrinsics k( r.real( 100, 1000 ), kv::vector_2d( r.real( 0, 500 ), r.real( 0, 500 ) ), r.real( 0.5, 2 ), 0.0, Eigen::Vector2d( 0.01, 0.001 ) );
  return kv::camera_sptr( new kv::simple_camera( kv::vector_3d( r.gauss(), r.gauss(), r.gauss() ), kv::rotation_d( kv::vector_3d( r.gauss(), r.gauss(), r.gauss() ) ), k ) );
}

std::string show_camera( kv::camera_sptr c )
{
  std::string t = vm::str( *c ) + vm::str( c->project( kv::vector_3d( 1, 2, 30 ) ).transpose() ) + vm::str( c->rotation() ) + vm::str( c->center().transpose() ) + vm::str( c->translation().transpose() );
  double y, p, o;
  c->rotation().get_yaw_pitch_roll( y, p, o );
  return t + vm::str( y ) + vm::str( p ) + vm::str( o ) + vm::str( c->depth( kv::vector_3d( 1, 2, 3 ) ) ) + vm::str( c->as_matrix() );
}

std::string cameras( vm::Rng& r, std::string const& dir )
{
  kv::camera_sptr c = make_camera( r );
  kv::write_krtd_file( *c, dir + "/c.krtd" );
  std::string t = show_camera( c ) + show_camera( kv::read_krtd_file( dir + "/c.krtd" ) );
  kv::homography_sptr h( new kv::homography_< double >( Eigen::Matrix3d( Eigen::Matrix3d::Identity() * r.real( 1, 2 ) ) ) );
  t += vm::str( h->inverse()->matrix() ) + vm::str( h->map( kv::vector_2d( 1, 2 ) ).transpose() );
  kv::similarity_d s( 2.0, kv::rotation_d( kv::vector_3d( r.gauss(), 0, 1 ) ), kv::vector_3d( 1, r.gauss(), 1 ) );
  return t + vm::str( s * s.inverse() );
}

kv::vector_3d triple( vm::Rng& r ) { double a = r.gauss(), b = r.gauss(), c = r.gauss(); return kv::vector_3d( a, b, c ); }

std::string show_essential( kv::essential_matrix const& e )
{
  return vm::str( e ) + vm::str( e.rotation() ) + vm::str( e.twisted_rotation() ) + vm::str( e.translation().transpose() );
}

template < class T > std::string geometry_of( vm::Rng& r )
{
  typedef Eigen::Matrix< T, 3, 1 > v3;
  typedef Eigen::Matrix< T, 3, 3 > m3;
  kv::rotation_< T > p( v3( triple( r ).cast< T >() ) ), q( v3( triple( r ).cast< T >() ) );
  v3 const t = triple( r ).cast< T >();
  kv::essential_matrix_< T > e( p, t );
  kv::essential_matrix_< T > again( e.matrix().template cast< T >().eval() );
  std::string s = show_essential( e ) + show_essential( again ) + show_essential( *e.clone() );
  m3 any;
  any.col( 0 ) = triple( r ).cast< T >();
  any.col( 1 ) = triple( r ).cast< T >();
  any.col( 2 ) = t;
  kv::fundamental_matrix_< T > f( any );
  s += vm::str( f ) + vm::str( f.clone()->matrix() );
  s += vm::str( kv::interpolate_rotation( p, q, T( 0.25 ) ) ) + vm::str( p * q * p.inverse() ) + vm::str( ( p * t ).transpose() ) + vm::str( p.rodrigues().transpose() ) + vm::str( p.axis().transpose() ) + vm::str( p.angle() );
  std::vector< kv::rotation_< T > > between;
  kv::interpolated_rotations( p, q, 3, between );
  for( auto const& b : between ) { s += vm::str( b ); }
  kv::similarity_< T > a( T( r.real( 0.5, 2 ) ), p, t ), b( ( Eigen::Matrix< T, 4, 4 >( a ) ) );
  s += vm::str( a * b ) + vm::str( b.inverse() ) + vm::str( ( a * t ).transpose() );
  std::istringstream in( vm::str( a ) );
  kv::similarity_< T > c;
  in >> c;
  s += vm::str( c );
  m3 h = m3::Identity() * T( 2 );
  h( 0, 1 ) = T( r.real( -1, 1 ) );
  h( 1, 2 ) = T( r.real( -1, 1 ) );
  kv::homography_< T > x( h );
  s += vm::str( x * x ) + vm::str( x.normalize()->matrix() ) + vm::str( x.inverse()->matrix() ) + vm::str( x.map( kv::vector_2d( 1, 2 ) ).transpose() );
  kv::f2f_homography u( h, 1, 2 ), w( h, 2, 3 );
  s += vm::str( ( w * u ).homography()->matrix() ) + vm::str( u.inverse().from_id() );
  try { u * u; s += "?"; }
  catch( std::exception const& err ) { s += err.what(); }
  return s;
}

std::string geometry( vm::Rng& r, std::string const& ) { return geometry_of< double >( r ) + geometry_of< float >( r ); }

std::string values( vm::Rng& r, std::string const& )
{
  kv::feature_d f( kv::vector_2d( r.gauss(), 1 ), r.real( 0, 1 ), r.real( 1, 2 ), 0.5, kv::rgb_color( 1, 2, 3 ) );
  kv::feature_f g( f );
  std::string s = vm::str( f ) + vm::str( g );
  kv::landmark_d l( triple( r ), r.real( 0.5, 2 ) );
  kv::landmark_f m( l );
  s += vm::str( l ) + vm::str( m ) + vm::str( *l.clone() );
  kv::covariance_3d c( r.real( 1, 2 ) );
  s += vm::str( kv::matrix_3x3d( c ) );
  std::istringstream in( vm::str( f ) + "\n" + vm::str( l ) );
  kv::feature_d f2;
  kv::landmark_d l2;
  in >> f2 >> l2;
  s += vm::str( f2 ) + vm::str( l2 );
  kv::descriptor_fixed< float, 4 > d;
  for( size_t i = 0; i < 4; ++i ) { d.raw_data()[ i ] = static_cast< float >( r.gauss() ); }
  for( double v : d.as_double() ) { s += vm::str( v ); }
  for( unsigned char v : d.as_bytes() ) { s += vm::str( int( v ) ); }
  kv::geo_lat_lon p( r.real( -80, 80 ), r.real( -170, 170 ) );
  s += vm::str( p ) + ( p.is_valid() ? "y" : "n" );
  kv::simple_camera_intrinsics k( r.real( 100, 1000 ), kv::vector_2d( 1, 2 ), 1.5, 0.25, Eigen::Matrix< double, 8, 1 >::Constant( r.real( 0, 0.01 ) ) );
  kv::vector_2d const at( r.real( -0.2, 0.2 ), r.real( -0.2, 0.2 ) );
  return s + vm::str( k.distort( at ).transpose() ) + vm::str( k.undistort( at ).transpose() ) + vm::str( k.map( at ).transpose() ) + vm::str( k.unmap( at ).transpose() ) + vm::str( k.as_matrix() );
}

std::string camera_folders( vm::Rng& r, std::string const& dir )
{
  std::vector< kv::path_t > images;
  for( unsigned n = static_cast< unsigned >( r.range( 1, 4 ) ); n; --n )
  {
    std::string name = "i" + vm::str( n );
    images.push_back( "pictures/" + name + ".png" );
    if( r.chance( 3, 4 ) || n == 1 ) { kv::write_krtd_file( *make_camera( r ), dir + "/folder/" + name + ".krtd" ); }
  }
  std::string s;
  for( auto const& c : kv::read_krtd_files( images, dir + "/folder" )->cameras() ) { s += vm::str( c.first ) + show_camera( c.second ); }
  vm::rmtree( dir + "/folder" );
  return s;
}

std::string landmarks( vm::Rng& r, std::string const& dir )
{
  kv::landmark_map::map_landmark_t m;
  for( int n = static_cast< int >( r.range( 1, 6 ) ); n; --n )
  {
    kv::landmark_d* l = new kv::landmark_d( kv::vector_3d( r.gauss(), r.gauss(), r.gauss() ) );
    l->set_color( kv::rgb_color( 5, 6, 7 ) );
    m[ n ] = kv::landmark_sptr( l );
  }
  kv::write_ply_file( std::make_shared< kv::simple_landmark_map >( m ), dir + "/l.ply" );
  std::string t = vm::slurp( dir + "/l.ply" );
  return t + vm::str( kv::read_ply_file( dir + "/l.ply" )->size() );
}

std::string algorithms( vm::Rng& r, std::string const& )
{
  std::string t;
  for( auto const& n : kv::algorithm::registered_names() ) { t += n + " "; }
  for( auto const& n : kv::algo::convert_image::registered_names() ) { t += n + " "; }
  t += kv::algo::image_io::has_impl_name( "io" ) ? "y" : "n";
  t += kv::algorithm::has_type_name( "image_io" ) ? "y" : "n";
  t += kv::algorithm::has_impl_name( "convert_image", "none" ) ? "y" : "n";
  kv::config_block_sptr c = kv::config_block::empty_config();
  std::string impl = r.chance( 1, 2 ) ? "same" : r.chance( 1, 3 ) ? "none" : "copy";
  c->set_value( "it:type", impl );
  c->set_value( "it:" + impl + ":setting", r.str( "abc", 1, 5 ) );
  kv::algo::convert_image_sptr a;
  t += kv::algo::convert_image::check_nested_algo_configuration( "it", c ) ? "y" : "n";
  kv::algo::convert_image::set_nested_algo_configuration( "it", c, a );
  kv::config_block_sptr d = kv::config_block::empty_config();
  kv::algo::convert_image::get_nested_algo_configuration( "it", d, a );
  t += dump( d );
  if( a )
  {
    kv::image im( 3, 2 );
    im( 0, 0 ) = 7;
    t += vm::str( a->convert( std::make_shared< kv::simple_image_container >( im ) )->width() ) + a->impl_name();
  }
  t += kv::registrar::instance().is_registered< kv::algorithm >( "track_features:tracker" ) ? "y" : "n";
  t += vm::str( kv::algorithm_plugin_manager::instance().registered_module_names().size() );
  t += kv::algo::image_io::create( "io" )->description();
  return t;
}

// a logger of its own (what is shown is L01's matter)
std::string loggers( vm::Rng& r, std::string const& )
{
  std::string n = "x01." + r.str( "abc", 0, 2 );
  kv::logger_handle_t l = kv::get_logger( n );
  LOG_INFO( l, "message " << r.below( 100 ) );
  LOG_DEBUG( l, "message " << r.below( 100 ) );
  return l->get_name() + ( kv::get_logger( n ) == l ? "y" : "n" );
}

std::string paths( vm::Rng&, std::string const& )
{
  return kv::get_executable_path() + " " + kv::get_module_path();
}

#define OK( eh ) ( t += vm::str( ( eh )->error_code ) )
std::string cstr( vital_string_t* s ) { std::string t = s ? std::string( s->str, s->length ) : "(none)"; if( s ) { vital_string_free( s ); } return t; }

std::string c_interface( vm::Rng& r, std::string const& dir )
{
  std::string t;
  vital_error_handle_t* eh = vital_eh_new();
  vital_config_block_t* c = vital_config_block_new_named( r.str( "ab", 1, 4 ).c_str() );
  vital_config_block_set_value( c, "a:b", r.str( "xyz", 0, 9 ).c_str() );
  vital_config_block_set_value( c, "a:c", "yes" );
  vital_config_block_t* v = vital_config_block_subblock_view( c, "a" );
  t += cstr( vital_config_block_get_value( v, "b" ) ) + cstr( vital_config_block_get_name( c ) );
  t += std::string( vital_config_block_block_sep()->str ) + vital_config_block_global_value()->str;
  t += cstr( vital_config_block_get_value( c, "none" ) );
  vital_config_block_file_write( c, ( dir + "/c.conf" ).c_str(), eh );
  OK( eh );
  vital_config_block_t* f = vital_config_block_file_read( ( dir + "/c.conf" ).c_str(), eh );
  OK( eh );
  unsigned n;
  char** keys;
  vital_config_block_available_values( f, &n, &keys );
  for( unsigned i = 0; i < n; ++i ) { t += keys[ i ]; }
  vital_common_free_string_list( n, keys );
  vital_config_block_destroy( v, eh );
  vital_config_block_destroy( c, eh );
  vital_config_block_destroy( f, eh );
  OK( eh );

  vital_image_t* im = vital_image_new_with_dim( 5, 4, 1, false );
  vital_image_container_t* ic = vital_image_container_new_simple( im );
  vital_algorithm_t* a = vital_algorithm_convert_image_create( r.chance( 1, 2 ) ? "same" : "copy" );
  vital_image_container_t* out = vital_algorithm_convert_image_convert( a, ic, eh );
  OK( eh );
  t += vm::str( vital_image_container_width( out ) ) + cstr( vital_algorithm_impl_name( a, eh ) );
  vital_config_block_t* ac = vital_algorithm_get_impl_configuration( a, eh );
  t += cstr( vital_config_block_get_value( ac, "setting" ) );
  vital_config_block_destroy( ac, eh );
  vital_algorithm_convert_image_destroy( a, eh );
  OK( eh );
  vital_image_container_destroy( out, eh );
  vital_image_container_destroy( ic, eh );
  vital_image_destroy( im );

  vital_track_t* ts[ 2 ] = { vital_track_new(), vital_track_new() };
  vital_trackset_t* set = vital_trackset_new( 2, ts );
  t += vm::str( vital_trackset_size( set, eh ) );
  vital_track_destroy( ts[ 0 ], eh );
  vital_track_destroy( ts[ 1 ], eh );
  vital_trackset_destroy( set, eh );

  kv::camera_sptr cam = make_camera( r );
  kv::write_krtd_file( *cam, dir + "/cc.krtd" );
  vital_camera_t* cc = vital_camera_read_krtd_file( ( dir + "/cc.krtd" ).c_str(), eh );
  OK( eh );
  unsigned frame = 3;
  vital_camera_map_t* map = vital_camera_map_new( 1, &frame, &cc );
  t += vm::str( vital_camera_map_size( map, eh ) );
  vital_camera_map_destroy( map, eh );
  vital_camera_destroy( cc, eh );
  OK( eh );
  vital_camera_t* none = vital_camera_read_krtd_file( ( dir + "/none" ).c_str(), eh );
  t += none ? "?" : "refused";
  OK( eh );
  vital_eh_destroy( eh );
  return t;
}

std::string text_tools( vm::Rng& r, std::string const& dir )
{
  std::string t;
  kwiversys::RegularExpression re( "([a-c]+)(x|y)" );
  t += re.find( r.str( "abcxy ", 0, 20 ) ) ? re.match( 1 ) + "/" + re.match( 2 ) : "no match";
  std::string data = r.str( "abcdefgh", 0, 200 );
  t += SystemTools::CollapseFullPath( r.str( "ab./", 0, 12 ), "/base/dir" ) + SystemTools::GetFilenameName( dir + "/x.y" ) + SystemTools::RelativePath( "/a/b", "/a/" + r.str( "bc/", 1, 6 ) );
  t += SystemTools::GetParentDirectory( "/a/b/c" ) + SystemTools::UpperCase( data ) + SystemTools::MakeCidentifier( "1-" + data );
  SystemTools::MakeDirectory( dir + "/m/n" );
  vm::spit( dir + "/m/f.txt", data );
  t += SystemTools::CopyFileAlways( dir + "/m/f.txt", dir + "/m/n/g.txt" ) ? "y" : "n";
  kwiversys::Directory d;
  d.Load( dir + "/m" );
  t += vm::str( d.GetNumberOfFiles() );
  t += SystemTools::RemoveADirectory( dir + "/m" ) ? "y" : "n";
  t += SystemTools::GetEnv( "X01_VARIABLE" );
  std::string opt;
  bool flag = false;
  char const* argv[] = { "prog", "--opt", data.c_str(), "--flag", "rest" };
  kwiversys::CommandLineArguments arg;
  arg.Initialize( 5, argv );
  arg.AddArgument( "--opt", kwiversys::CommandLineArguments::SPACE_ARGUMENT, &opt, "an option" );
  arg.AddArgument( "--flag", kwiversys::CommandLineArguments::NO_ARGUMENT, &flag, "a flag" );
  t += arg.Parse() ? opt + ( flag ? "+" : "-" ) : "refused";
  std::vector< std::string > v;
  kv::tokenize( data, v, "ae" );
  for( auto const& e : v ) { t += e + ","; }
  return t;
}

// the same objects, read by all
std::string shared_objects( vm::Rng& r, std::string const& )
{
  switch( r.below( 6 ) )
  {
  case 5: return show_essential( *shared_essential ) + vm::str( shared_homography->map( kv::vector_2d( 1, 2 ) ).transpose() ) + vm::str( shared_homography->inverse()->matrix() ) + vm::str( shared_homography->normalize()->matrix() );
  case 0: return dump( shared_config ) + dump( shared_config->subblock( "a" ) );
  case 1: return look_at( shared_tracks );
  case 2: return show_camera( shared_camera ) + show_camera( shared_camera->clone() );
  case 3:
  {
    kv::image m = shared_image, n;
    n.copy_from( m );
    return std::string( reinterpret_cast< char const* >( n.first_pixel() ), n.size() );
  }
  default:
  {
    kwiversys::RegularExpression re( *shared_regex );
    return re.find( r.str( "abc", 0, 20 ) ) ? re.match( 0 ) : "no match";
  }
  }
}

struct { char const* name; Fn fn; } const jobs[] =
{
  { "config_store", config_store }, { "config_read", config_read }, { "config_read_shared", config_read_shared }, { "config_standard", config_standard },
  { "config_write", config_write }, { "expand", expand }, { "timestamps", timestamps }, { "images", images }, { "tracks", tracks }, { "cameras", cameras },
  { "landmarks", landmarks }, { "algorithms", algorithms }, { "loggers", loggers }, { "paths", paths }, { "c_interface", c_interface }, { "text_tools", text_tools },
  { "shared_objects", shared_objects }, { "geometry", geometry }, { "values", values }, { "camera_folders", camera_folders }
};
unsigned const n_jobs = sizeof jobs / sizeof *jobs;

struct Item { unsigned job; uint64_t seed; std::string got, want; };

std::string perform( Item const& i, std::string const& dir )
{
  vm::Rng r( i.seed );
  try { return jobs[ i.job ].fn( r, dir ); }
  catch( std::exception const& e ) { return std::string( "exception " ) + e.what(); }
}

void set_up( vm::Rng& r )
{
  shared_dir = vm::dir() + "/shared";
  ::mkdir( shared_dir.c_str(), 0700 );
  for( int i = 0; i < 4; ++i ) { vm::spit( shared_dir + "/conf" + vm::str( i ), conf_text( r ) ); }
  ::setenv( "X01_VARIABLE", "its value", 1 );
  ::setenv( "KWIVER_CONFIG_PATH", shared_dir.c_str(), 1 );
  ::setenv( "KWIVER_PLUGIN_PATH", shared_dir.c_str(), 1 );
  shared_config = make_config( r );
  shared_tracks = std::make_shared< kv::simple_track_set >( make_tracks( r ) );
  shared_camera = make_camera( r );
  shared_essential = kv::essential_matrix_sptr( new kv::essential_matrix_d( kv::rotation_d( triple( r ) ), triple( r ) ) );
  shared_homography = kv::homography_sptr( new kv::homography_< float >( Eigen::Matrix3f( Eigen::Matrix3f::Identity() * 3 ) ) );
  shared_image = kv::image( 20, 10, 3 );
  for( size_t i = 0; i < shared_image.size(); ++i ) { shared_image.first_pixel()[ i ] = static_cast< kv::image::byte >( i ); }
  shared_regex = new kwiversys::RegularExpression( "b+c" );
}

void body( vm::Rng& r, bool fresh )
{
  unsigned threads = static_cast< unsigned >( r.range( 2, 6 ) ), count = static_cast< unsigned >( r.range( 1, fresh ? 4 : 8 ) );
  unsigned style = static_cast< unsigned >( r.below( 3 ) );
  unsigned one_job = static_cast< unsigned >( r.below( n_jobs ) ), other = static_cast< unsigned >( r.below( n_jobs ) );
  std::vector< std::vector< Item > > plan( threads );
  std::string what;
  for( unsigned t = 0; t < threads; ++t )
  {
    for( unsigned i = 0; i < count; ++i )
    {
      // all threads in one facility, in two, or all over
      unsigned j = style == 0 ? one_job : style == 1 ? ( ( t + i ) % 2 ? one_job : other ) : static_cast< unsigned >( r.below( n_jobs ) );
      plan[ t ].push_back( Item{ j, r.chance( 1, 4 ) ? 7 : r.u64(), "", "" } );
      what += static_cast< char >( 'A' + j );
    }
    what += "|";
  }
  vm::note( what );
  std::string base = vm::dir() + "/x";
  ::mkdir( base.c_str(), 0700 );
  std::vector< std::string > dirs;
  for( unsigned t = 0; t < threads; ++t ) { dirs.push_back( base + "/" + vm::str( t ) ); ::mkdir( dirs[ t ].c_str(), 0700 ); }
  std::atomic< unsigned > ready( 0 );
  auto alone = [ & ]() { for( unsigned t = 0; t < threads; ++t ) { for( auto& i : plan[ t ] ) { i.want = perform( i, dirs[ t ] ); } } };
  bool before = !fresh && r.chance( 1, 2 );
  if( before ) { alone(); }
  std::vector< std::thread > ts;
  for( unsigned t = 0; t < threads; ++t )
  {
    ts.push_back( std::thread( [ &, t ]()
    {
      ready.fetch_add( 1, std::memory_order_relaxed );
      while( ready.load( std::memory_order_relaxed ) < threads ) { std::this_thread::yield(); }
      for( auto& i : plan[ t ] ) { i.got = perform( i, dirs[ t ] ); }
    } ) );
  }
  for( auto& t : ts ) { t.join(); }
  if( !before ) { alone(); }
  for( unsigned t = 0; t < threads; ++t )
  {
    for( auto const& i : plan[ t ] )
    {
      VM_CHECK( i.got == i.want, std::string( "different-result:" ) + jobs[ i.job ].name, "among " << what << " got\n" << i.got.substr( 0, 1500 ) << "\nalone\n" << i.want.substr( 0, 1500 ) );
      vm::event( std::string( "job_" ) + jobs[ i.job ].name );
      vm::event( "results_compared" );
    }
  }
  vm::event( fresh ? "fresh_processes" : "warm_cases" );
  vm::event( style == 0 ? "one_facility" : style == 1 ? "two_facilities" : "all_facilities" );
  vm::sig( what );
  if( count <= 2 ) { vm::sample( vm::str( threads ) + " threads: " + what ); }
  vm::rmtree( base );
}

// plugins loaded once whoever comes first, and there for all who have returned
void once( vm::Rng& r )
{
  std::string const& e = vm::st().extra;
  size_t p = e.find( "a03_plugin=" );
  if( p == std::string::npos ) { std::_Exit( 3 ); }
  p += 11;
  std::string const file = e.substr( p, e.find( ',', p ) - p ), dir = shared_dir + "/plugins";
  vm::rmtree( dir );
  ::mkdir( dir.c_str(), 0700 );
  unsigned n = static_cast< unsigned >( r.range( 1, 3 ) );
  for( unsigned i = 0; i < n; ++i )
  {
    std::string m = dir + "/m" + vm::str( i ) + ".so";
    vm::spit( m, vm::slurp( file ) );
    vm::spit( m + ".cfg", "result 0\nimpl 0 name" + vm::str( i ) + " payload\nimpl 1 name" + vm::str( i ) + " other\n" );
  }
  ::setenv( "KWIVER_PLUGIN_PATH", dir.c_str(), 1 );
  unsigned threads = static_cast< unsigned >( r.range( 2, 8 ) );
  std::vector< int > loaded( threads, 0 ), complete( threads, 0 );
  std::vector< kv::algorithm_plugin_manager* > seen( threads );
  std::vector< unsigned > wait( threads );
  for( auto& w : wait ) { w = r.chance( 1, 2 ) ? 0 : static_cast< unsigned >( r.below( 3000 ) ); }
  unsigned const instance_only = static_cast< unsigned >( r.below( 3 ) ) == 0 ? 1 : threads;       // this one only asks for the manager
  std::atomic< unsigned > ready( 0 );
  std::vector< std::thread > ts;
  for( unsigned t = 0; t < threads; ++t )
  {
    ts.push_back( std::thread( [ &, t ]()
    {
      ready.fetch_add( 1, std::memory_order_relaxed );
      while( ready.load( std::memory_order_relaxed ) < threads ) { std::this_thread::yield(); }
      if( wait[ t ] ) { ::usleep( wait[ t ] ); }
      if( t != instance_only )
      {
        loaded[ t ] = kv::algorithm_plugin_manager::load_plugins_once();
        complete[ t ] = kv::algorithm_plugin_manager::instance().registered_module_names().size() == n;
        for( unsigned i = 0; i < n; ++i )
        {
          auto a = a03_def< 0 >::create( "name" + vm::str( i ) );
          auto b = a03_def< 1 >::create( "name" + vm::str( i ) );
          if( !a || !b || a->work( "w" ) != "payload/w/initial" || b->work( "w" ) != "other/w/initial" ) { complete[ t ] = 0; }
        }
        if( a03_def< 0 >::registered_names().size() != n ) { complete[ t ] = 0; }
      }
      else { complete[ t ] = 1; }
      seen[ t ] = &kv::algorithm_plugin_manager::instance();
    } ) );
  }
  for( auto& t : ts ) { t.join(); }
  int total = 0;
  for( unsigned t = 0; t < threads; ++t )
  {
    total += loaded[ t ];
    VM_CHECK( complete[ t ], "once:incomplete", "thread " << t << " of " << threads << " found plugins missing after load_plugins_once()" );
    VM_CHECK( seen[ t ] == seen[ 0 ], "once:instances", "two plugin managers" );
  }
  VM_CHECK( total == 1 && registrations == n, "once:count", total << " of " << threads << " threads loaded, " << registrations << " registrations of " << n << " modules" );
  vm::event( "plugins_loaded_once" );
  vm::sig( "once " + vm::str( threads ) + " " + vm::str( n ) + " " + vm::str( wait[ 0 ] ) + " " + vm::str( wait[ 1 ] ) );
}

void one( vm::Rng& r, uint64_t i )
{
  static bool first = true;
  bool const fresh = i % 3 == 0;
  if( first )
  {
    first = false;
    vm::quiet_stderr();
    set_up( r );
    mocks::register_all();
  }
  if( i % 8 == 5 ) { vm::in_child( [ & ]() { once( r ); }, 120 ); return; }
  if( fresh ) { vm::in_child( [ & ]() { body( r, true ); }, 120 ); }
  else { vm::in_child( [ & ]() { body( r, false ); }, 120 ); }
}

} // namespace

VM_MAIN( one )
