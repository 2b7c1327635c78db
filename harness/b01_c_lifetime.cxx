// B01: objects held through the C interface live exactly as long as they are referenced.
#include "vm.h"
#include "b_mocks.h"
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/algorithm.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/error_handle.h>
#include <vital/bindings/c/image.h>
#include <vital/bindings/c/image_container.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track.h>
#include <vital/bindings/c/track_set.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <algorithm>

namespace {

typedef std::map< std::string, std::string > Map;

// ---- what an object is --------------------------------------------------
struct Pixels { size_t w, h, d; std::vector< unsigned char > px; size_t at( size_t x, size_t y, size_t c ) const { return ( c * h + y ) * w + x; } };
typedef std::shared_ptr< Pixels > Pixels_p;
struct Cfg { std::shared_ptr< Map > store; std::string prefix; };
struct Algo { int kind; std::string impl, setting; Pixels_p stored; void* stored_handle; };

enum Kind { IMAGE, CONTAINER, CONFIG, CAMERA, CAMERA_MAP, TRACK, TRACKSET, ALGO, KINDS };
char const* const kind_names[] = { "image", "container", "config", "camera", "camera_map", "track", "trackset", "algo" };

struct Obj
{
  Kind kind;
  void* h;
  size_t refs = 1;
  Pixels_p pixels;                                // IMAGE, CONTAINER
  Cfg cfg;                                        // CONFIG
  std::string text;                               // CAMERA, TRACKSET: the file it makes
  std::map< unsigned, std::pair< void*, std::string > > cams;     // CAMERA_MAP
  size_t count = 0;                               // TRACKSET
  Algo algo;                                      // ALGO
};
typedef std::shared_ptr< Obj > Obj_p;

struct World
{
  vm::Rng& r;
  std::vector< Obj_p > objs;
  std::string dir, log, some_file;
  std::vector< unsigned > ops;                      // what this history does
  unsigned serial = 0;
  bool count = true;
  long algos = 0;
  long const others = mocks::Counted::alive();      // registered, or left by a failed history

  explicit World( vm::Rng& r_ ) : r( r_ ), dir( vm::dir() ), some_file( vm::dir() + "/image.file" ) { vm::spit( some_file, "x" );
    static std::vector< std::vector< unsigned > > const focus =
    { { 0, 1, 2, 3, 4, 5, 19, 22, 22, 22, 22, 23 }, { 6, 8, 8, 9, 10, 11, 20, 21 }, { 12, 13, 14, 15, 16 }, { 17, 18, 0, 2, 20, 22, 22 }, { 19, 20, 21, 21, 22 } };
    if( r.chance( 1, 2 ) ) { ops = r.pick( focus ); }
    else { for( unsigned k = 0; k < 24; ++k ) { ops.push_back( k ); } }
  }

  void event( char const* n ) { if( count ) { vm::event( n ); } }

  struct Eh
  {
    vital_error_handle_t* eh;
    char const* what;
    explicit Eh( char const* w ) : eh( vital_eh_new() ), what( w ) { }
    ~Eh() { vital_eh_destroy( eh ); }
    operator vital_error_handle_t*() { return eh; }
    void ok() { VM_CHECK( eh->error_code == 0, "unexpected-error", what << ": " << eh->error_code << " " << ( eh->message ? eh->message : "" ) ); }
    void fails() { VM_CHECK( eh->error_code != 0 && eh->message && *eh->message, "error-not-reported", what ); }
  };

  Obj_p find( Kind k, void* h ) const
  {
    for( auto const& o : objs ) { if( o->kind == k && o->h == h ) { return o; } }
    return Obj_p();
  }

  // any live object of a kind
  Obj_p any( Kind k )
  {
    std::vector< Obj_p > c;
    for( auto const& o : objs ) { if( o->kind == k ) { c.push_back( o ); } }
    return c.empty() ? Obj_p() : r.pick( c );
  }

  Obj_p add( Kind k, void* h )
  {
    VM_CHECK( h, "no-handle", kind_names[ k ] << " after " << log );
    VM_CHECK( !find( k, h ), "handle-reused", kind_names[ k ] << " still alive has this address; after " << log );
    Obj_p o = std::make_shared< Obj >();
    o->kind = k;
    o->h = h;
    objs.push_back( o );
    event( kind_names[ k ] );
    return o;
  }

  template < class T > static T* as( Obj_p const& o ) { return static_cast< T* >( o->h ); }

  // ---- checks -----------------------------------------------------------
  void check_pixels( vital_image_t* im, Pixels const& p, char const* what )
  {
    VM_CHECK( vital_image_width( im ) == p.w && vital_image_height( im ) == p.h && vital_image_depth( im ) == p.d, "image-shape", what << " after " << log );
    for( size_t c = 0; c < p.d; ++c )
    {
      for( size_t y = 0; y < p.h; ++y )
      {
        for( size_t x = 0; x < p.w; ++x )
        {
          if( p.px.size() > 200 && !r.chance( 100, static_cast< unsigned >( p.px.size() ) ) ) { continue; }
          int got = vital_image_get_pixel3( im, static_cast< unsigned >( x ), static_cast< unsigned >( y ), static_cast< unsigned >( c ) );
          VM_CHECK( got == p.px[ p.at( x, y, c ) ], "contents-changed", what << " pixel " << x << "," << y << "," << c << " is " << got << " not " << int( p.px[ p.at( x, y, c ) ] ) << " after " << log );
        }
      }
    }
  }

  Map listing( vital_config_block_t* cb )
  {
    Map m;
    unsigned n = 0;
    char** keys = nullptr;
    vital_config_block_available_values( cb, &n, &keys );
    for( unsigned i = 0; i < n; ++i )
    {
      vital_string_t* v = vital_config_block_get_value( cb, keys[ i ] );
      VM_CHECK( v, "config-value-lost", keys[ i ] << " after " << log );
      m[ keys[ i ] ] = std::string( v->str, v->length );
      vital_string_free( v );
    }
    vital_common_free_string_list( n, keys );
    return m;
  }

  static Map model( Cfg const& c )
  {
    Map m;
    for( auto const& e : *c.store ) { if( e.first.compare( 0, c.prefix.size(), c.prefix ) == 0 ) { m[ e.first.substr( c.prefix.size() ) ] = e.second; } }
    return m;
  }

  void check( Obj_p const& o )
  {
    vm::note( std::string( "checking a " ) + kind_names[ o->kind ] + " after " + log );
    switch( o->kind )
    {
    case IMAGE: check_pixels( as< vital_image_t >( o ), *o->pixels, "image" ); break;
    case CONTAINER:
    {
      vital_image_container_t* c = as< vital_image_container_t >( o );
      VM_CHECK( vital_image_container_width( c ) == o->pixels->w && vital_image_container_height( c ) == o->pixels->h && vital_image_container_depth( c ) == o->pixels->d,
                "image-shape", "container after " << log );
      vital_image_t* im = vital_image_container_get_image( c );
      VM_CHECK( im, "no-handle", "image of a container after " << log );
      check_pixels( im, *o->pixels, "container" );
      vital_image_destroy( im );
      break;
    }
    case CONFIG:
    {
      Map got = listing( as< vital_config_block_t >( o ) ), want = model( o->cfg );
      VM_CHECK( got == want, "contents-changed", "configuration [" << o->cfg.prefix << "] has " << got.size() << " entries, should have " << want.size() << " after " << log );
      break;
    }
    case CAMERA:
    {
      if( !r.chance( 1, 3 ) ) { break; }
      Eh eh( "writing a camera" );
      std::string f = dir + "/check.krtd";
      ::unlink( f.c_str() );
      vital_camera_write_krtd_file( as< vital_camera_t >( o ), f.c_str(), eh );
      eh.ok();
      VM_CHECK( vm::slurp( f ) == o->text, "contents-changed", "camera after " << log );
      break;
    }
    case CAMERA_MAP:
    {
      Eh eh( "size of a camera map" );
      VM_CHECK( vital_camera_map_size( as< vital_camera_map_t >( o ), eh ) == o->cams.size(), "contents-changed", "camera map after " << log );
      eh.ok();
      break;
    }
    case TRACK:
    {
      Eh eh( "size of a track" );
      VM_CHECK( vital_track_size( as< vital_track_t >( o ), eh ) == 0 && vital_track_empty( as< vital_track_t >( o ), eh ), "contents-changed", "track after " << log );
      eh.ok();
      break;
    }
    case TRACKSET:
    {
      Eh eh( "a track set" );
      VM_CHECK( vital_trackset_size( as< vital_trackset_t >( o ), eh ) == o->count, "contents-changed", "track set after " << log );
      eh.ok();
      if( r.chance( 1, 3 ) && !o->text.empty() )
      {
        std::string f = dir + "/check.tracks";
        ::unlink( f.c_str() );
        vital_trackset_write_track_file( as< vital_trackset_t >( o ), f.c_str(), eh );
        eh.ok();
        VM_CHECK( vm::slurp( f ) == o->text, "contents-changed", "track set after " << log << "\n" << vm::slurp( f ).substr( 0, 300 ) << "\nnot\n" << o->text.substr( 0, 300 ) );
      }
      break;
    }
    case ALGO:
    {
      Eh eh( "an algorithm" );
      vital_string_t* s = vital_algorithm_impl_name( as< vital_algorithm_t >( o ), eh );
      eh.ok();
      VM_CHECK( s && o->algo.impl == s->str, "contents-changed", "algorithm after " << log );
      vital_string_free( s );
      vital_config_block_t* c = vital_algorithm_get_impl_configuration( as< vital_algorithm_t >( o ), eh );
      eh.ok();
      s = vital_config_block_get_value( c, "setting" );
      VM_CHECK( s && o->algo.setting == s->str, "contents-changed", "algorithm's setting after " << log );
      vital_string_free( s );
      vital_config_block_destroy( c, eh );
      eh.ok();
      break;
    }
    default: break;
    }
    event( "contents_checked" );
  }

  // ---- giving up a reference ---------------------------------------------
  void destroy_call( Kind k, void* h, Algo const& a, vital_error_handle_t* eh )
  {
    switch( k )
    {
    case IMAGE: vital_image_destroy( static_cast< vital_image_t* >( h ) ); break;
    case CONTAINER: vital_image_container_destroy( static_cast< vital_image_container_t* >( h ), eh ); break;
    case CONFIG: vital_config_block_destroy( static_cast< vital_config_block_t* >( h ), eh ); break;
    case CAMERA: vital_camera_destroy( static_cast< vital_camera_t* >( h ), eh ); break;
    case CAMERA_MAP: vital_camera_map_destroy( static_cast< vital_camera_map_t* >( h ), eh ); break;
    case TRACK: vital_track_destroy( static_cast< vital_track_t* >( h ), eh ); break;
    case TRACKSET: vital_trackset_destroy( static_cast< vital_trackset_t* >( h ), eh ); break;
    default:
      switch( a.kind )
      {
      case 0: vital_algorithm_image_io_destroy( static_cast< vital_algorithm_t* >( h ), eh ); break;
      case 1: vital_algorithm_convert_image_destroy( static_cast< vital_algorithm_t* >( h ), eh ); break;
      default: vital_algorithm_track_features_destroy( static_cast< vital_algorithm_t* >( h ), eh );
      }
    }
  }

  // bytes that must be given back with the last reference to this memory
  size_t weight( Obj_p const& o )
  {
    if( o->pixels ) { return o->pixels->px.size() > 4096 && o->pixels.use_count() == 1 ? o->pixels->px.size() : 0; }
    if( o->kind == CONFIG && o->cfg.store.use_count() == 1 )
    {
      size_t n = 0;
      for( auto const& e : *o->cfg.store ) { n += e.second.size(); }
      return n > 4096 ? n : 0;
    }
    return 0;
  }

  void drop( Obj_p o )
  {
    vm::note( std::string( "dropping a " ) + kind_names[ o->kind ] + " after " + log );
    bool with_eh = r.chance( 3, 4 );
    vital_error_handle_t* eh = with_eh ? vital_eh_new() : nullptr;
    bool last = o->refs == 1;
    size_t w = last ? weight( o ) : 0;
    size_t before = vm::live_bytes();
    destroy_call( o->kind, o->h, o->algo, eh );
    size_t after = vm::live_bytes();
    if( eh )
    {
      int code = eh->error_code;
      vital_eh_destroy( eh );
      VM_CHECK( code == 0, "unexpected-error", "destroying a " << kind_names[ o->kind ] << " after " << log );
    }
    if( w )
    {
      VM_CHECK( before >= after + w, "not-freed", kind_names[ o->kind ] << " of " << w << " bytes gave back " << before - after << " after " << log );
      event( "big_object_freed" );
    }
    if( last )
    {
      if( o->kind == ALGO ) { --algos; check_algos(); }
      objs.erase( std::find( objs.begin(), objs.end(), o ) );
      event( "last_reference_dropped" );
    }
    else { --o->refs; event( "reference_dropped" ); check( o ); }
  }

  void check_algos()
  {
    VM_CHECK( mocks::Counted::alive() == algos + others, "not-freed", mocks::Counted::alive() - others << " algorithms are alive, " << algos << " are referenced, after " << log );
  }

  // ---- operations ----------------------------------------------------------
  void new_image()
  {
    auto p = std::make_shared< Pixels >();
    bool big = r.chance( 1, 4 );
    p->w = static_cast< size_t >( r.range( 0, 9 ) ) * ( big ? 16 : 1 );
    p->h = static_cast< size_t >( r.range( 0, 7 ) ) * ( big ? 8 : 1 );
    p->d = static_cast< size_t >( r.range( 1, 4 ) );
    p->px.resize( p->w * p->h * p->d );
    for( auto& v : p->px ) { v = static_cast< unsigned char >( r.below( 256 ) ); }
    vital_image_t* im;
    if( r.chance( 1, 2 ) )
    {
      bool inter = r.chance( 1, 2 );
      im = vital_image_new_with_dim( p->w, p->h, p->d, inter );
      VM_CHECK( im, "no-handle", "image" );
      paint( im, *p );
    }
    else
    {
      std::vector< unsigned char > raw( p->px );      // planar
      im = vital_image_new_from_data( raw.data(), p->w, p->h, p->d, 1, static_cast< int32_t >( p->w ), static_cast< int32_t >( p->w * p->h ) );
    }
    log += "image ";
    add( IMAGE, im )->pixels = p;
  }

  void paint( vital_image_t* im, Pixels const& p )
  {
    vital_image_byte* f = vital_image_first_pixel( im );
    ptrdiff_t ws = static_cast< ptrdiff_t >( vital_image_w_step( im ) ), hs = static_cast< ptrdiff_t >( vital_image_h_step( im ) ), ds = static_cast< ptrdiff_t >( vital_image_d_step( im ) );
    for( size_t c = 0; c < p.d; ++c ) { for( size_t y = 0; y < p.h; ++y ) { for( size_t x = 0; x < p.w; ++x ) {
      f[ static_cast< ptrdiff_t >( x ) * ws + static_cast< ptrdiff_t >( y ) * hs + static_cast< ptrdiff_t >( c ) * ds ] = p.px[ p.at( x, y, c ) ];
    } } }
  }

  Obj_p container( void* h, Pixels_p const& p )
  {
    Obj_p o = find( CONTAINER, h );
    if( o )
    {
      VM_CHECK( o->pixels == p, "wrong-object", "container after " << log );
      ++o->refs;
      event( "handle_shared" );
      return o;
    }
    o = add( CONTAINER, h );
    o->pixels = p;
    return o;
  }

  void step()
  {
    switch( r.pick( ops ) )
    {
    case 0: new_image(); break;
    case 1:
      if( Obj_p o = any( IMAGE ) )
      {
        log += "image-of-image ";
        Pixels_p p = o->pixels;
        add( IMAGE, vital_image_new_from_image( as< vital_image_t >( o ) ) )->pixels = p;
      }
      break;
    case 2:
      if( Obj_p o = any( IMAGE ) )
      {
        log += "container ";
        Pixels_p p = o->pixels;
        add( CONTAINER, vital_image_container_new_simple( as< vital_image_t >( o ) ) )->pixels = p;
      }
      break;
    case 3:
      if( Obj_p o = any( CONTAINER ) )
      {
        log += "get-image ";
        Pixels_p p = o->pixels;
        add( IMAGE, vital_image_container_get_image( as< vital_image_container_t >( o ) ) )->pixels = p;
      }
      break;
    case 4:
      if( Obj_p o = any( IMAGE ) )
      {
        if( o->pixels->px.empty() ) { break; }
        log += "write ";
        for( int i = 0; i < 3; ++i ) { o->pixels->px[ r.below( o->pixels->px.size() ) ] ^= static_cast< unsigned char >( r.range( 1, 255 ) ); }
        paint( as< vital_image_t >( o ), *o->pixels );
        for( auto const& q : std::vector< Obj_p >( objs ) ) { if( q->pixels == o->pixels ) { check( q ); event( "sharing_seen" ); } }
      }
      break;
    case 5:
      if( Obj_p o = any( CONTAINER ) )
      {
        // the same object once more, through the C++ bridge
        log += "bridge ";
        kwiver::vital::image_container_sptr sp = vital_image_container_to_sptr( as< vital_image_container_t >( o ) );
        VM_CHECK( sp, "no-handle", "bridge" );
        container( vital_image_container_from_sptr( sp ), o->pixels );
      }
      break;
    case 6: case 7:
    {
      log += "config ";
      Obj_p o = add( CONFIG, r.chance( 1, 2 ) ? vital_config_block_new() : vital_config_block_new_named( "named" ) );
      o->cfg.store = std::make_shared< Map >();
      if( r.chance( 1, 2 ) ) { set_value( o ); }
      break;
    }
    case 8:
      if( Obj_p o = any( CONFIG ) ) { log += "set "; set_value( o ); }
      break;
    case 9:
      if( Obj_p o = any( CONFIG ) )
      {
        std::string k( 1, r.pick( "ab" ) );
        bool view = r.chance( 1, 2 );
        log += view ? "view " : "subblock ";
        Cfg from = o->cfg;
        void* h = view ? vital_config_block_subblock_view( as< vital_config_block_t >( o ), k.c_str() ) : vital_config_block_subblock( as< vital_config_block_t >( o ), k.c_str() );
        Obj_p n = add( CONFIG, h );
        n->cfg = from;
        n->cfg.prefix += k + ":";
        if( !view )
        {
          auto copy = std::make_shared< Map >( model( n->cfg ) );
          n->cfg.store = copy;
          n->cfg.prefix.clear();
        }
        event( view ? "config_view" : "config_copy" );
      }
      break;
    case 10:
    {
      Obj_p a = any( CONFIG ), b = any( CONFIG );
      if( a && b && a->cfg.store != b->cfg.store )
      {
        log += "merge ";
        vital_config_block_merge_config( as< vital_config_block_t >( a ), as< vital_config_block_t >( b ) );
        for( auto const& e : model( b->cfg ) ) { ( *a->cfg.store )[ a->cfg.prefix + e.first ] = e.second; }
      }
      break;
    }
    case 11:
      if( Obj_p o = any( CONFIG ) )
      {
        Map m = model( o->cfg );
        if( m.empty() ) { break; }
        log += "unset ";
        auto it = m.begin();
        std::advance( it, static_cast< long >( r.below( m.size() ) ) );
        vital_config_block_unset_value( as< vital_config_block_t >( o ), it->first.c_str() );
        o->cfg.store->erase( o->cfg.prefix + it->first );
      }
      break;
    case 12: case 13:
    {
      log += "camera ";
      std::string f = dir + "/in.krtd";
      vm::spit( f, vm::str( 100 + serial ) + " 0 320\n0 " + vm::str( 100 + serial ) + " 240\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n" + vm::str( serial ) + " 2 3\n\n0.25 -0.125\n" );
      ++serial;
      std::string g = dir + "/canon.krtd";
      { kwiver::vital::camera_sptr c = kwiver::vital::read_krtd_file( f ); kwiver::vital::write_krtd_file( *c, g ); }
      std::string text = vm::slurp( g );
      ::unlink( g.c_str() );
      Eh eh( "reading a camera" );
      void* h = vital_camera_read_krtd_file( f.c_str(), eh );
      eh.ok();
      add( CAMERA, h )->text = text;
      break;
    }
    case 14:
    {
      log += "camera-map ";
      std::map< unsigned, std::pair< void*, std::string > > m;
      std::vector< unsigned > frames;
      std::vector< vital_camera_t* > cams;
      size_t n = r.below( 5 );
      for( size_t i = 0; i < n; ++i )
      {
        Obj_p c = any( CAMERA );
        if( !c ) { break; }
        unsigned fr = static_cast< unsigned >( r.below( 6 ) );
        frames.push_back( fr );
        cams.push_back( as< vital_camera_t >( c ) );
        m[ fr ] = { c->h, c->text };
      }
      bool null_array = frames.empty() && r.chance( 1, 2 );
      Obj_p o = add( CAMERA_MAP, vital_camera_map_new( null_array ? 3 : frames.size(), null_array ? nullptr : frames.data(), null_array ? nullptr : cams.data() ) );
      o->cams = m;
      break;
    }
    case 15: case 16:
      if( Obj_p o = any( CAMERA_MAP ) )
      {
        log += "get-map ";
        size_t n = 99;
        unsigned* frames = nullptr;
        vital_camera_t** cams = nullptr;
        Eh eh( "cameras of a map" );
        vital_camera_map_get_map( as< vital_camera_map_t >( o ), &n, &frames, &cams, eh );
        eh.ok();
        VM_CHECK( n == o->cams.size(), "wrong-map", n << " cameras instead of " << o->cams.size() << " after " << log );
        std::set< unsigned > seen;
        std::vector< Obj_p > got;
        for( size_t i = 0; i < n; ++i )
        {
          VM_CHECK( o->cams.count( frames[ i ] ) && seen.insert( frames[ i ] ).second, "wrong-map", "frame " << frames[ i ] << " after " << log );
          auto const& want = o->cams[ frames[ i ] ];
          VM_CHECK( cams[ i ] == want.first, "not-shared", "camera of frame " << frames[ i ] << " is another object, after " << log );
          Obj_p c = find( CAMERA, cams[ i ] );
          if( c ) { ++c->refs; event( "handle_shared" ); }
          else { c = add( CAMERA, cams[ i ] ); c->text = want.second; event( "camera_revived_from_map" ); }
          got.push_back( c );
        }
        vital_free_pointer( frames );
        vital_free_pointer( cams );
        for( auto const& c : got ) { check( c ); }
      }
      break;
    case 17: log += "track "; add( TRACK, vital_track_new() ); break;
    case 18:
    {
      if( r.chance( 1, 2 ) )
      {
        log += "trackset ";
        std::vector< vital_track_t* > t;
        size_t n = r.below( 5 );
        for( size_t i = 0; i < n; ++i ) { if( Obj_p o = any( TRACK ) ) { t.push_back( as< vital_track_t >( o ) ); } }
        size_t count_ = t.size();
        // "may be freed after calling"
        vital_track_t** arr = static_cast< vital_track_t** >( std::malloc( sizeof( vital_track_t* ) * ( t.size() + 1 ) ) );
        std::copy( t.begin(), t.end(), arr );
        void* h = vital_trackset_new( t.size(), arr );
        std::free( arr );
        add( TRACKSET, h )->count = count_;
      }
      else
      {
        log += "trackset-file ";
        std::string f = dir + "/in.tracks", text;
        size_t n = static_cast< size_t >( r.range( 1, r.chance( 1, 4 ) ? 60 : 4 ) );
        for( size_t i = 0; i < n; ++i ) { text += vm::str( i + 1 ) + " " + vm::str( serial % 1000 ) + " 1.5 2 1 0.5 0.25 10 20 30\n"; }
        ++serial;
        vm::spit( f, text );
        std::string g = dir + "/canon.tracks";
        kwiver::vital::write_track_file( kwiver::vital::read_track_file( f ), g );
        text = vm::slurp( g );
        ::unlink( g.c_str() );
        if( r.chance( 1, 2 ) )
        {
          Eh eh( "reading tracks" );
          void* h = vital_trackset_new_from_file( f.c_str(), eh );
          eh.ok();
          Obj_p o = add( TRACKSET, h );
          o->count = n;
          o->text = text;
        }
        else
        {
          Obj_p o;
          {
            kwiver::vital::track_set_sptr sp = kwiver::vital::read_track_file( f );
            o = add( TRACKSET, vital_trackset_from_sptr( &sp ) );
            o->count = n;
            o->text = text;
            if( r.chance( 1, 2 ) )
            {
              void* again = vital_trackset_from_sptr( &sp );
              VM_CHECK( again == o->h, "not-shared", "track set adopted twice" );
              ++o->refs;
              event( "handle_shared" );
              // many handles, more than a small counter holds
              if( r.chance( 1, 3 ) )
              {
                size_t many = r.chance( 1, 12 ) ? 65530 + r.below( 12 ) : 250 + r.below( 12 );
                for( size_t i = 0; i < many; ++i )
                {
                  VM_CHECK( vital_trackset_from_sptr( &sp ) == o->h, "not-shared", "track set adopted again" );
                }
                o->refs += many;
                event( "many_handles" );
              }
            }
          }
          if( o->refs > 2 )
          {
            // most of them are given up again
            for( size_t keep = r.range( 1, 3 ), n = o->refs; n > keep; --n )
            {
              Eh eh( "giving up one of many handles" );
              vital_trackset_destroy( as< vital_trackset_t >( o ), eh );
              eh.ok();
              --o->refs;
            }
          }
          check( o );
        }
      }
      break;
    }
    case 19: case 20:
    {
      int k = static_cast< int >( r.below( 4 ) );
      char const* impl = k == 0 ? "io" : k == 1 ? "same" : k == 2 ? "copy" : "tracker";
      log += std::string( impl ) + " ";
      void* h = k == 0 ? vital_algorithm_image_io_create( impl ) : k == 3 ? vital_algorithm_track_features_create( impl ) : vital_algorithm_convert_image_create( impl );
      Obj_p o = add( ALGO, h );
      o->algo = Algo{ k == 0 ? 0 : k == 3 ? 2 : 1, impl, "initial", Pixels_p(), nullptr };
      ++algos;
      break;
    }
    case 21:
      if( Obj_p o = any( ALGO ) )
      {
        Eh eh( "an algorithm" );
        vital_algorithm_t* a = as< vital_algorithm_t >( o );
        switch( r.below( 3 ) )
        {
        case 0:
        {
          log += "clone ";
          void* h = o->algo.kind == 0 ? vital_algorithm_image_io_clone( a, eh ) : o->algo.kind == 1 ? vital_algorithm_convert_image_clone( a, eh ) : vital_algorithm_track_features_clone( a, eh );
          eh.ok();
          Algo copy = o->algo;
          add( ALGO, h )->algo = copy;
          ++algos;
          event( "algo_cloned" );
          break;
        }
        case 1:
        {
          // the implementation named in the configuration takes the place of the old object
          char const* impl = o->algo.kind == 0 ? "io" : o->algo.kind == 2 ? "tracker" : r.chance( 1, 2 ) ? "same" : "copy";
          std::string value = r.chance( 1, 5 ) ? "explode" : "configured" + vm::str( serial++ );
          vital_config_block_t* c = vital_config_block_new();
          vital_config_block_set_value( c, "x:type", r.chance( 1, 6 ) ? "unheard-of" : impl );
          vital_config_block_set_value( c, ( std::string( "x:" ) + impl + ":setting" ).c_str(), value.c_str() );
          vital_string_t* tv = vital_config_block_get_value( c, "x:type" );
          bool known = std::string( tv->str ) == impl;
          vital_string_free( tv );
          bool fresh = r.chance( 1, 3 );
          vital_algorithm_t* p = fresh ? nullptr : a;
          log += fresh ? "configure-new " : "configure ";
          if( o->algo.kind == 0 ) { vital_algorithm_image_io_set_type_config( "x", c, &p, eh ); }
          else if( o->algo.kind == 1 ) { vital_algorithm_convert_image_set_type_config( "x", c, &p, eh ); }
          else { vital_algorithm_track_features_set_type_config( "x", c, &p, eh ); }
          Eh eh2( "destroying a configuration" );
          vital_config_block_destroy( c, eh2 );
          eh2.ok();
          if( !known )
          {
            eh.ok();
            VM_CHECK( p == ( fresh ? nullptr : a ), "handle-changed", "by an unknown implementation, after " << log );
          }
          else if( value == "explode" )
          {
            eh.fails();
            VM_CHECK( p == ( fresh ? nullptr : a ), "handle-changed", "by a refused configuration, after " << log );
            event( "configure_refused" );
          }
          else
          {
            eh.ok();
            VM_CHECK( p && ( fresh || p != a || true ), "no-handle", "configured algorithm" );
            Algo na{ o->algo.kind, impl, value, Pixels_p(), nullptr };
            if( !fresh )
            {
              VM_CHECK( o->refs == 1, "harness", "" );
              objs.erase( std::find( objs.begin(), objs.end(), o ) );
              --algos;
            }
            add( ALGO, p )->algo = na;
            ++algos;
            event( "algo_replaced" );
          }
          break;
        }
        default:
        {
          log += "set-impl ";
          std::string value = "set" + vm::str( serial++ );
          vital_config_block_t* c = vital_config_block_new();
          vital_config_block_set_value( c, "setting", value.c_str() );
          vital_algorithm_set_impl_configuration( a, c, eh );
          eh.ok();
          o->algo.setting = value;
          vital_config_block_destroy( c, eh );
          eh.ok();
        }
        }
        check_algos();
      }
      break;
    case 22:
      if( Obj_p o = any( ALGO ) )
      {
        Eh eh( "using an algorithm" );
        vital_algorithm_t* a = as< vital_algorithm_t >( o );
        Obj_p c = any( CONTAINER );
        if( o->algo.kind == 1 )
        {
          if( !c ) { break; }
          log += o->algo.impl + "-convert ";
          Pixels_p p = c->pixels;
          void* h = vital_algorithm_convert_image_convert( a, as< vital_image_container_t >( c ), eh );
          eh.ok();
          if( o->algo.impl == "same" ) { VM_CHECK( h == c->h, "not-shared", "identity conversion gives another object" ); container( h, p ); }
          else { container( h, std::make_shared< Pixels >( *p ) ); }
          event( "converted" );
        }
        else if( o->algo.kind == 0 )
        {
          if( r.chance( 1, 2 ) )
          {
            if( !c ) { break; }
            log += "save ";
            vital_algorithm_image_io_save( a, some_file.c_str(), as< vital_image_container_t >( c ), eh );
            eh.ok();
            o->algo.stored = c->pixels;
            o->algo.stored_handle = c->h;
            event( "saved" );
          }
          else
          {
            log += "load ";
            void* h = vital_algorithm_image_io_load( a, some_file.c_str(), eh );
            if( !o->algo.stored ) { VM_CHECK( !h, "null-object-stored", "after " << log ); eh.fails(); event( "null_result" ); break; }
            eh.ok();
            VM_CHECK( h == o->algo.stored_handle, "not-shared", "loaded container is another object, after " << log );
            event( find( CONTAINER, h ) ? "loaded_while_held" : "loaded_after_release" );
            check( container( h, o->algo.stored ) );
          }
        }
        else
        {
          Obj_p t = any( TRACKSET );
          if( !c || !t ) { break; }
          bool mask = r.chance( 1, 2 ), same = r.chance( 1, 3 );
          log += same ? "track-same " : "track ";
          vital_config_block_t* cb = vital_config_block_new();
          std::string value = same ? "same" : "extend";
          vital_config_block_set_value( cb, "setting", value.c_str() );
          vital_algorithm_set_impl_configuration( a, cb, eh );
          eh.ok();
          o->algo.setting = value;
          vital_config_block_destroy( cb, eh );
          void* h = mask ? vital_algorithm_track_features_track_with_mask( a, as< vital_trackset_t >( t ), 7, as< vital_image_container_t >( c ), as< vital_image_container_t >( c ), eh )
                         : vital_algorithm_track_features_track( a, as< vital_trackset_t >( t ), 7, as< vital_image_container_t >( c ), eh );
          eh.ok();
          if( same ) { VM_CHECK( h == t->h, "not-shared", "track set" ); ++t->refs; event( "handle_shared" ); }
          else { size_t n = t->count; add( TRACKSET, h )->count = n + 1; }
          event( "tracked" );
        }
      }
      break;
    default:
    {
      // a handle that was never given out
      long fake[ 8 ] = { 0 };
      Kind k = static_cast< Kind >( r.range( CONTAINER, ALGO ) );
      Eh eh( "using what is no handle" );
      log += "fake ";
      switch( k )
      {
      case CAMERA: vital_camera_write_krtd_file( reinterpret_cast< vital_camera_t* >( fake ), ( dir + "/fake" ).c_str(), eh ); break;
      case CAMERA_MAP: vital_camera_map_size( reinterpret_cast< vital_camera_map_t* >( fake ), eh ); break;
      case TRACK: vital_track_size( reinterpret_cast< vital_track_t* >( fake ), eh ); break;
      case TRACKSET: vital_trackset_size( reinterpret_cast< vital_trackset_t* >( fake ), eh ); break;
      case ALGO: vital_algorithm_impl_name( reinterpret_cast< vital_algorithm_t* >( fake ), eh ); break;
      case CONFIG: vital_config_block_get_value_bool( reinterpret_cast< vital_config_block_t* >( fake ), "x", eh ); break;
      default: vital_algorithm_image_io_load( reinterpret_cast< vital_algorithm_t* >( fake ), some_file.c_str(), eh );
      }
      eh.fails();
      event( "fake_handles" );
    }
    }
  }

  void set_value( Obj_p const& o )
  {
    std::string k = r.chance( 1, 2 ) ? std::string() : std::string( 1, r.pick( "ab" ) ) + ":";
    if( r.chance( 1, 4 ) ) { k += "b:"; }
    k += "k" + vm::str( r.below( 4 ) );
    std::string v = r.chance( 1, 5 ) ? r.str( "xyz", 5000, 20000 ) : "v" + vm::str( serial++ );
    vital_config_block_set_value( as< vital_config_block_t >( o ), k.c_str(), v.c_str() );
    ( *o->cfg.store )[ o->cfg.prefix + k ] = v;
  }

  void history( unsigned steps )
  {
    for( unsigned s = 0; s < steps; ++s )
    {
      vm::note( log );
      step();
      if( !objs.empty() && r.chance( 1, 3 ) ) { check( r.pick( objs ) ); }
      if( !objs.empty() && ( objs.size() > 25 || r.chance( 1, 3 ) ) ) { drop( r.pick( objs ) ); }
      if( log.size() > 700 ) { log = "..." + log.substr( log.size() - 500 ); }
    }
    vm::sig( vm::hash( log ) );
    while( !objs.empty() )
    {
      drop( r.pick( objs ) );
      if( !objs.empty() && r.chance( 1, 3 ) ) { check( r.pick( objs ) ); }
    }
    check_algos();
  }
};

void one( vm::Rng& r, uint64_t i )
{
  static bool first = true;
  if( first )
  {
    first = false;
    vm::quiet_stderr();
    mocks::register_all();
    // statics and loggers come to life before anything is weighed
    for( unsigned k = 0; k < 40; ++k )
    {
      vm::Rng w( 1000 + k );
      World world( w );
      world.count = false;
      try { world.history( 120 ); } catch( vm::CaseFail const& ) { }
    }
    vm::st().violations.clear();
    vm::st().perkey.clear();
  }
  std::string log;
  size_t before = vm::live_bytes();
  {
    World w( r );
    w.count = false;
    // replayed once for what is made only once, then weighed
    w.history( static_cast< unsigned >( 40 + i % 60 ) );
    log = w.log;
  }
  vm::Rng again( vm::mix( vm::st().seed ) ^ vm::mix( i + 5 ) );
  {
    World w( again );
    w.history( static_cast< unsigned >( 40 + i % 60 ) );
    log = w.log;
  }
  (void)before;
  vm::Rng third( vm::mix( vm::st().seed ) ^ vm::mix( i + 5 ) );
  size_t b2 = vm::live_bytes();
  {
    World w( third );
    w.count = false;
    w.history( static_cast< unsigned >( 40 + i % 60 ) );
  }
  size_t after = vm::live_bytes();
  VM_CHECK( after <= b2, "leak", after - b2 << " bytes are left of a history whose handles were all given up: " << log );
  vm::event( "balanced_histories" );
  vm::sample( log );
}

} // namespace

VM_MAIN( one )
