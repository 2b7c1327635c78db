// algorithm implementations behind the C interface, counting their instances
#ifndef B_MOCKS_H
#define B_MOCKS_H
#include <atomic>
#include <vital/algo/algorithm.txx>
#include <vital/algo/convert_image.h>
#include <vital/algo/image_io.h>
#include <vital/algo/track_features.h>
#include <vital/types/image_container.h>
#include <vital/types/track_set.h>
#include <vital/registrar.h>

namespace mocks {

namespace kv = kwiver::vital;

struct Counted
{
  static std::atomic< long >& alive() { static std::atomic< long > n( 0 ); return n; }
  Counted() { ++alive(); }
  Counted( Counted const& ) { ++alive(); }
  ~Counted() { --alive(); }
};

template < class Impl, class Def > struct Base : public kv::algorithm_impl< Impl, Def >, public Counted
{
  std::string setting = "initial";
  virtual kv::config_block_sptr get_configuration() const
  {
    kv::config_block_sptr c = kv::algorithm::get_configuration();
    c->set_value( "setting", setting, "what it does" );
    return c;
  }
  virtual void set_configuration( kv::config_block_sptr c )
  {
    std::string s = c->get_value< std::string >( "setting", setting );
    if( s == "explode" ) { throw std::runtime_error( "the implementation refuses" ); }
    if( s == "literal" ) { throw "a literal was thrown"; }
    if( s == "number" ) { throw 42; }
    setting = s;
  }
  virtual bool check_configuration( kv::config_block_sptr c ) const { return c->get_value< std::string >( "setting", "good" ) != "bad"; }
};

// keeps the last container it was given
struct Io : public Base< Io, kv::algo::image_io >
{
  mutable kv::image_container_sptr last;
  mutable std::string file;
  std::string impl_name() const { return "io"; }
  kv::image_container_sptr load_( std::string const& f ) const { file = f; if( setting == "throws" ) { throw std::runtime_error( "cannot load " + f ); } return last; }
  void save_( std::string const& f, kv::image_container_sptr d ) const { file = f; if( setting == "throws" ) { throw std::runtime_error( "cannot save " + f ); } last = d; }
};

// gives back the same container, or one with its own memory
struct Same : public Base< Same, kv::algo::convert_image >
{
  std::string impl_name() const { return "same"; }
  kv::image_container_sptr convert( kv::image_container_sptr i ) const { if( setting == "throws" ) { throw std::runtime_error( "cannot convert" ); } return i; }
};

struct Copy : public Base< Copy, kv::algo::convert_image >
{
  std::string impl_name() const { return "copy"; }
  kv::image_container_sptr convert( kv::image_container_sptr i ) const
  {
    if( setting == "nothing" ) { return kv::image_container_sptr(); }
    kv::image m;
    m.copy_from( i->get_image() );
    return std::make_shared< kv::simple_image_container >( m );
  }
};

// the same set, or a set of the same tracks and one more holding the frame
struct Tracker : public Base< Tracker, kv::algo::track_features >
{
  mutable unsigned frame = 0;
  mutable kv::image_container_sptr image, mask;
  bool keep = false;
  std::string impl_name() const { return "tracker"; }
  kv::track_set_sptr track( kv::track_set_sptr prev, unsigned f, kv::image_container_sptr i, kv::image_container_sptr m ) const
  {
    frame = f;
    if( setting == "throws" ) { throw std::runtime_error( "cannot track" ); }
    if( setting == "same" ) { return prev; }
    std::vector< kv::track_sptr > t = prev->tracks();
    auto n = std::make_shared< kv::track >();
    n->set_id( 1000000 + f );
    n->append( kv::track::track_state( f, kv::feature_sptr( new kv::feature_d( kv::vector_2d( static_cast< double >( i ? i->width() : 0 ), m ? static_cast< double >( m->width() ) : -1.0 ) ) ), kv::descriptor_sptr() ) );
    t.push_back( n );
    return std::make_shared< kv::simple_track_set >( t );
  }
};

inline void register_all()
{
  kv::registrar& reg = kv::registrar::instance();
  kv::algo::image_io::register_instance( reg, std::make_shared< Io >() );
  kv::algo::convert_image::register_instance( reg, std::make_shared< Same >() );
  kv::algo::convert_image::register_instance( reg, std::make_shared< Copy >() );
  kv::algo::track_features::register_instance( reg, std::make_shared< Tracker >() );
}
enum { REGISTERED = 4 };

} // namespace
#endif
