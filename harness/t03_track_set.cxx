// T03: track-set queries agree with their definition over the member tracks.
#include "vm.h"
#include <vital/types/track_set.h>
#include <memory>
#include <limits>
#include <algorithm>

using namespace kwiver::vital;

namespace {

struct Once { Once() { vm::quiet_stderr(); } } once;

struct St { frame_id_t f; feature_sptr feat; descriptor_sptr desc; };
struct Tr { track_sptr t; std::vector< St > s; track_id_t id; };

// a set that only implements what it must
class lazy_set : public track_set
{
public:
  std::vector< track_sptr > d;
  virtual std::vector< track_sptr > tracks() const { return d; }
};

St const* at( Tr const& t, frame_id_t f )
{
  for( auto const& s : t.s ) { if( s.f == f ) { return &s; } }
  return nullptr;
}

std::string names( std::vector< track_sptr > const& v )
{
  std::string s = "{";
  for( auto const& t : v ) { s += t ? std::to_string( t->id() ) + "(" + std::to_string( t->size() ) + ") " : "null "; }
  return s + "}";
}

void body( vm::Rng& r, uint64_t )
{
  std::vector< Tr > ts;
  std::string log = "tracks:";
  long n = r.chance( 1, 12 ) ? 0 : r.range( 1, 12 );
  frame_id_t base = r.chance( 1, 2 ) ? 0 : r.range( 1, 50 );
  if( r.chance( 1, 20 ) ) { base = ( 1ll << 40 ); }
  long span = r.range( 0, 25 );
  for( long i = 0; i < n; ++i )
  {
    Tr t;
    t.t.reset( new track() );
    t.id = r.chance( 1, 6 ) ? static_cast< track_id_t >( r.below( 3 ) ) : i + 100;
    if( r.chance( 1, 12 ) ) { t.id = -static_cast< track_id_t >( i ) - 1; }
    t.t->set_id( t.id );
    log += "\n " + std::to_string( t.id ) + ":";
    if( !r.chance( 1, 8 ) )
    {
      frame_id_t f = base + r.range( 0, span );
      long len = r.range( 1, 8 );
      for( long k = 0; k < len; ++k )
      {
        St s{ f, r.chance( 5, 6 ) ? feature_sptr( new feature_< float >() ) : feature_sptr(), r.chance( 5, 6 ) ? descriptor_sptr( new descriptor_fixed< double, 2 >() ) : descriptor_sptr() };
        if( !t.t->append( track::track_state( s.f, s.feat, s.desc ) ) ) { VM_FAIL( "append", log ); }
        t.s.push_back( s );
        log += " " + std::to_string( f );
        f += r.chance( 3, 4 ) ? 1 : r.range( 2, 5 );
      }
    }
    else { vm::event( "empty_members" ); }
    ts.push_back( t );
  }
  if( r.chance( 1, 12 ) && !ts.empty() ) { ts.push_back( ts[ r.below( ts.size() ) ] ); log += "\n (one twice)"; }

  std::vector< track_sptr > v;
  for( auto const& t : ts ) { v.push_back( t.t ); }
  std::shared_ptr< track_set > set;
  if( r.chance( 1, 2 ) ) { set.reset( new simple_track_set( v ) ); }
  else
  {
    std::shared_ptr< lazy_set > l( new lazy_set );
    l->d = v;
    set = l;
  }
  track_set const& cs = *set;

  // ---- whole-set queries
  std::set< frame_id_t > frames;
  std::set< track_id_t > ids;
  for( auto const& t : ts ) { ids.insert( t.id ); for( auto const& s : t.s ) { frames.insert( s.f ); } }
  VM_CHECK( cs.size() == v.size() && cs.empty() == v.empty() && cs.tracks() == v, "members", log );
  VM_CHECK( cs.all_frame_ids() == frames, "all-frame-ids", log );
  VM_CHECK( cs.all_track_ids() == ids, "all-track-ids", log );
  frame_id_t last = 0;
  if( !frames.empty() )
  {
    last = *frames.rbegin();
    VM_CHECK( cs.first_frame() == *frames.begin(), "first-frame", cs.first_frame() << " want " << *frames.begin() << log );
    VM_CHECK( cs.last_frame() == last, "last-frame", cs.last_frame() << " want " << last << log );
  }
  else { vm::event( "no_frames" ); (void) cs.first_frame(); (void) cs.last_frame(); }
  for( track_id_t id = -15; id < 130; id += 1 )
  {
    track_sptr want;
    for( auto const& t : ts ) { if( t.id == id ) { want = t.t; break; } }
    track_sptr got = cs.get_track( id );
    VM_CHECK( ( !got && !want ) || ( got && want && got->id() == id && std::find( v.begin(), v.end(), got ) != v.end() ), "get-track", id << log );
  }

  // ---- per-frame queries
  std::vector< frame_id_t > offs;
  for( frame_id_t f : frames ) { offs.push_back( f ); offs.push_back( f + 1 ); if( f ) { offs.push_back( f - 1 ); } }
  for( frame_id_t o : { -1, -2, -3, -5, -10, -30 } ) { offs.push_back( o ); }
  offs.push_back( -last - 1 );
  offs.push_back( -last - 2 );
  offs.push_back( 0 );
  offs.push_back( r.range( 0, 90 ) );
  offs.push_back( -r.range( 1, 90 ) );
  offs.push_back( std::numeric_limits< frame_id_t >::min() );
  offs.push_back( std::numeric_limits< frame_id_t >::max() );
  std::sort( offs.begin(), offs.end() );
  offs.erase( std::unique( offs.begin(), offs.end() ), offs.end() );

  // the frame an offset stands for; nothing when it lies before frame 0
  auto resolve = [ & ]( frame_id_t o, frame_id_t& f ) -> bool
  {
    if( o >= 0 ) { f = o; return true; }
    if( o < -last - 1 ) { return false; }
    f = last + 1 + o;
    return true;
  };

  std::string shape = std::to_string( ts.size() ) + "/";
  for( frame_id_t o : offs )
  {
    frame_id_t f = 0;
    bool valid = resolve( o, f );
    std::vector< track_sptr > act, inact, nw, term;
    std::vector< feature_sptr > feats;
    std::vector< descriptor_sptr > descs;
    for( auto const& t : ts )
    {
      St const* s = valid ? at( t, f ) : nullptr;
      ( s ? act : inact ).push_back( t.t );
      if( s ) { feats.push_back( s->feat ); descs.push_back( s->desc ); }
      if( s && s == &t.s.front() ) { nw.push_back( t.t ); }
      if( s && s == &t.s.back() ) { term.push_back( t.t ); }
    }
    std::string q = " offset " + std::to_string( o ) + ( valid ? " frame " + std::to_string( f ) : " before the start" ) + "\n";
    auto cmp = [ & ]( char const* what, std::vector< track_sptr > const& got, std::vector< track_sptr > const& want )
    {
      VM_CHECK( got == want, what, names( got ) << " want " << names( want ) << q << log );
      if( !want.empty() && want.size() < ts.size() ) { vm::event( what ); }
    };
    cmp( "active", set->active_tracks( o )->tracks(), act );
    cmp( "inactive", set->inactive_tracks( o )->tracks(), inact );
    cmp( "new", set->new_tracks( o )->tracks(), nw );
    cmp( "terminated", set->terminated_tracks( o )->tracks(), term );
    VM_CHECK( cs.frame_features( o )->features() == feats, "frame-features", q << log );
    VM_CHECK( cs.frame_descriptors( o )->descriptors() == descs, "frame-descriptors", q << log );
    if( !valid ) { vm::event( "offset_before_start" ); }
    else if( o < 0 ) { vm::event( "offset_from_end" ); }
    shape += std::to_string( act.size() ) + "." + std::to_string( nw.size() ) + "." + std::to_string( term.size() ) + " ";

    for( int k = 0; k < 3; ++k )
    {
      frame_id_t o2 = offs[ r.below( offs.size() ) ], f2 = 0;
      bool valid2 = resolve( o2, f2 );
      unsigned either = 0, both = 0;
      for( auto const& t : ts )
      {
        bool a = valid && at( t, f ), b = valid2 && at( t, f2 );
        either += a || b;
        both += a && b;
      }
      double want = either ? static_cast< double >( both ) / either : 0.0;
      double got = set->percentage_tracked( o, o2 );
      VM_CHECK( got >= 0.0 && got <= 1.0 && std::fabs( got - want ) < 1e-12, "percentage", got << " want " << want << " second offset " << o2 << q << log );
      if( both && both < either ) { vm::event( "percentage_between" ); }
    }
  }
  // defaults are those of the last frame
  VM_CHECK( set->active_tracks()->tracks() == set->active_tracks( -1 )->tracks() && set->inactive_tracks()->tracks() == set->inactive_tracks( -1 )->tracks() &&
            set->new_tracks()->tracks() == set->new_tracks( -1 )->tracks() && set->terminated_tracks()->tracks() == set->terminated_tracks( -1 )->tracks() &&
            set->percentage_tracked() == set->percentage_tracked( -2, -1 ), "defaults", log );
  std::vector< feature_sptr > lf;
  std::vector< descriptor_sptr > ld;
  for( auto const& t : ts ) { if( !frames.empty() ) { if( St const* s = at( t, last ) ) { lf.push_back( s->feat ); ld.push_back( s->desc ); } } }
  VM_CHECK( cs.last_frame_features()->features() == lf && cs.last_frame_features()->size() == lf.size(), "last-frame-features", log );
  VM_CHECK( cs.last_frame_descriptors()->descriptors() == ld && cs.last_frame_descriptors()->size() == ld.size(), "last-frame-descriptors", log );
  VM_CHECK( cs.frame_features()->features() == lf && cs.frame_descriptors()->descriptors() == ld, "default-frame-features", log );
  vm::event( "sets" );
  vm::sig( shape );
  vm::sample( log );
}

}

VM_MAIN( body )
