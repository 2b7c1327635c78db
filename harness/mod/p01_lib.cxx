// implementations behind the Python bindings and what they saw, for P01
#include "../b_mocks.h"
#include <vital/bindings/c/helpers/image_container.h>
#include <vital/bindings/c/helpers/track_set.h>
#include <vital/bindings/c/helpers/c_utils.h>
#include <vital/bindings/c/helpers/algorithm.h>
#include <vital/bindings/c/helpers/camera.h>
#include <vital/bindings/c/helpers/camera_map.h>
#include <vital/bindings/c/helpers/track.h>
#include <vital/bindings/c/config_block.h>
#include <vital/config/config_block.h>
#include <vital/types/camera_map.h>
#include <vital/logger/logger.h>
#include <cstring>
#include <sstream>

namespace kvc = kwiver::vital_c;

extern "C" {

void p01_register() { static bool once = ( mocks::register_all(), true ); (void) once; }

// algorithm objects alive besides those registered
long p01_alive() { return mocks::Counted::alive(); }

static void give( std::string const& s, char* out, size_t n ) { std::strncpy( out, s.c_str(), n - 1 ); out[ n - 1 ] = 0; }

// what stands behind a handle
void p01_image_text( void* handle, char* out, size_t n )
{
  kwiver::vital::image const& i = *static_cast< kwiver::vital::image* >( handle );
  std::ostringstream o;
  o << i.width() << "x" << i.height() << "x" << i.depth();
  for( size_t d = 0; d < i.depth(); ++d ) { for( size_t y = 0; y < i.height(); ++y ) { for( size_t x = 0; x < i.width(); ++x ) { o << " " << static_cast< int >( i( x, y, d ) ); } } }
  give( o.str(), out, n );
}

int p01_image_set( void* handle, size_t x, size_t y, size_t d, int v )
{
  kwiver::vital::image& i = *static_cast< kwiver::vital::image* >( handle );
  i( x, y, d ) = static_cast< kwiver::vital::image::byte >( v );
  return 0;
}

void p01_tracks_text( void* handle, char* out, size_t n )
{
  kwiver::vital::track_set_sptr t = kvc::TRACK_SET_SPTR_CACHE.get( static_cast< vital_trackset_t* >( handle ) );
  std::ostringstream o;
  for( auto const& x : t->tracks() ) { o << x->id() << "/" << x->size(); for( auto const& s : *x ) { o << "@" << s.frame_id; if( s.feat ) { o << "(" << s.feat->loc()[ 0 ] << "," << s.feat->loc()[ 1 ] << ")"; } } o << " "; }
  give( o.str(), out, n );
}

// adds a state to a track
void p01_track_add( void* handle, int id, int frame, double x )
{
  kwiver::vital::track_sptr t = kwiver::vital_c::TRACK_SPTR_CACHE.get( static_cast< vital_track_t* >( handle ) );
  t->set_id( id );
  t->append( kwiver::vital::track::track_state( frame, kwiver::vital::feature_sptr( new kwiver::vital::feature_d( kwiver::vital::vector_2d( x, 2 * x ) ) ), kwiver::vital::descriptor_sptr() ) );
}

void p01_cameras_text( void* handle, char* out, size_t n )
{
  kwiver::vital::camera_map_sptr m = kvc::CAM_MAP_SPTR_CACHE.get( static_cast< vital_camera_map_t* >( handle ) );
  std::ostringstream o;
  for( auto const& e : m->cameras() ) { o << e.first << ":" << e.second->center()[ 0 ] << " "; }
  give( o.str(), out, n );
}

void p01_camera_text( void* handle, char* out, size_t n )
{
  kwiver::vital::camera_sptr c = kvc::CAMERA_SPTR_CACHE.get( static_cast< vital_camera_t* >( handle ) );
  std::ostringstream o;
  o << *c;
  give( o.str(), out, n );
}

} // extern "C"
