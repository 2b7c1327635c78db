// T02: a track keeps its states in strictly increasing frame order.
#include "vm.h"
#include <vital/types/track.h>
#include <memory>
#include <limits>
#include <algorithm>

using namespace kwiver::vital;

namespace {

struct S { frame_id_t f; feature_sptr feat; descriptor_sptr desc; };
typedef std::vector< S > model_t;

frame_id_t frame( vm::Rng& r, int mode )
{
  switch( mode )
  {
  case 0: return r.range( -6, 20 );
  case 1: return r.range( 0, 60 );
  case 2:
    switch( r.below( 6 ) )
    {
    case 0: return std::numeric_limits< frame_id_t >::min() + static_cast< frame_id_t >( r.below( 3 ) );
    case 1: return std::numeric_limits< frame_id_t >::max() - static_cast< frame_id_t >( r.below( 3 ) );
    case 2: return static_cast< frame_id_t >( r.below( 4 ) ) + ( 1ll << 32 );
    case 3: return ( 1ll << 31 ) - 2 + static_cast< frame_id_t >( r.below( 4 ) );
    case 4: return -static_cast< frame_id_t >( r.below( 5 ) );
    default: return static_cast< frame_id_t >( r.u64() );
    }
  default: return -static_cast< frame_id_t >( r.below( 40 ) ) - 3;
  }
}

std::string text( model_t const& m )
{
  std::string s = "[";
  for( auto const& x : m ) { s += std::to_string( x.f ) + " "; }
  return s + "]";
}

void verify( track const& t, model_t const& m, track_id_t id, std::vector< frame_id_t > const& probes, std::string const& log )
{
  VM_CHECK( t.id() == id, "id", t.id() << " want " << id << log );
  VM_CHECK( t.size() == m.size() && t.empty() == m.empty(), "size", t.size() << " want " << text( m ) << log );
  VM_CHECK( static_cast< size_t >( t.end() - t.begin() ) == m.size(), "iteration", log );
  size_t i = 0;
  for( auto it = t.begin(); it != t.end(); ++it, ++i )
  {
    VM_CHECK( it->frame_id == m[ i ].f && it->feat == m[ i ].feat && it->desc == m[ i ].desc, "content", "state " << i << " is " << it->frame_id << " want " << text( m ) << log );
    if( i ) { VM_CHECK( m[ i - 1 ].f < it->frame_id, "order", text( m ) << log ); }
  }
  if( !m.empty() )
  {
    VM_CHECK( t.first_frame() == m.front().f && t.last_frame() == m.back().f, "frame-range", t.first_frame() << ".." << t.last_frame() << " want " << text( m ) << log );
  }
  std::set< frame_id_t > ids;
  for( auto const& x : m ) { ids.insert( x.f ); }
  VM_CHECK( t.all_frame_ids() == ids, "all-frame-ids", text( m ) << log );
  for( frame_id_t p : probes )
  {
    auto it = t.find( p );
    auto w = std::find_if( m.begin(), m.end(), [ p ]( S const& s ) { return s.f == p; } );
    if( w == m.end() ) { VM_CHECK( it == t.end(), "found-missing-frame", p << " in " << text( m ) << log ); vm::event( "lookups_absent" ); }
    else
    {
      VM_CHECK( it != t.end() && it - t.begin() == w - m.begin() && it->frame_id == p, "lookup", p << " in " << text( m ) << log );
      vm::event( "lookups_present" );
    }
  }
}

void body( vm::Rng& r, uint64_t )
{
  struct H { std::unique_ptr< track > t; model_t m; track_id_t id; };
  std::vector< H > hs;
  std::string log, shape;
  int mode = static_cast< int >( r.below( 4 ) );
  int ops = static_cast< int >( r.range( 3, 40 ) );
  size_t before = vm::live_bytes();
  (void) before;
  for( int i = 0; i < ops; ++i )
  {
    unsigned what = hs.empty() ? 0 : static_cast< unsigned >( r.below( 10 ) );
    if( hs.size() > 5 && what < 2 ) { what = 9; }
    std::string step = "\n" + std::to_string( i ) + ": ";
    auto state = [ & ]( frame_id_t f ) { return S{ f, r.chance( 3, 4 ) ? feature_sptr( new feature_< double >( vector_2d( static_cast< double >( f ), i ) ) ) : feature_sptr(),
                                                   r.chance( 1, 2 ) ? descriptor_sptr( new descriptor_fixed< int, 3 >() ) : descriptor_sptr() }; };
    size_t k = hs.empty() ? 0 : r.below( hs.size() );
    switch( what )
    {
    case 0:
    {
      H h;
      h.id = 0;
      if( r.chance( 1, 2 ) ) { h.t.reset( new track() ); step += "new"; }
      else
      {
        S s = state( frame( r, mode ) );
        h.t.reset( new track( track::track_state( s.f, s.feat, s.desc ) ) );
        h.m.push_back( s );
        step += "new at " + std::to_string( s.f );
      }
      hs.push_back( std::move( h ) );
      k = hs.size() - 1;
      shape += "n";
      break;
    }
    case 1:
    {
      H h;
      h.t.reset( new track( *hs[ k ].t ) );
      h.m = hs[ k ].m;
      h.id = hs[ k ].id;
      step += "copy of " + std::to_string( k );
      if( r.chance( 1, 4 ) && hs.size() > 1 )
      {
        // assignment
        size_t d = r.below( hs.size() );
        *hs[ d ].t = *h.t;
        hs[ d ].m = h.m;
        hs[ d ].id = h.id;
        k = d;
        vm::event( "assigned" );
      }
      else { hs.push_back( std::move( h ) ); k = hs.size() - 1; }
      shape += "c";
      break;
    }
    case 2:
      hs[ k ].id = frame( r, static_cast< int >( r.below( 4 ) ) );
      hs[ k ].t->set_id( hs[ k ].id );
      step += "set id";
      shape += "i";
      break;
    case 3: case 4: case 5: case 6:
    {
      model_t& m = hs[ k ].m;
      frame_id_t f = frame( r, mode );
      if( !m.empty() )
      {
        frame_id_t l = m.back().f;
        switch( r.below( 5 ) )
        {
        case 0: f = l; break;
        case 1: if( l < std::numeric_limits< frame_id_t >::max() ) { f = l + 1; } break;
        case 2: if( l > std::numeric_limits< frame_id_t >::min() ) { f = l - 1; } break;
        case 3: if( l < 1000000 && l > -1000000 ) { f = l + r.range( 1, 4 ); } break;
        default: ;
        }
      }
      S s = state( f );
      bool want = m.empty() || m.back().f < f;
      step += "append state " + std::to_string( f ) + " to " + std::to_string( k ) + text( m );
      bool got = hs[ k ].t->append( track::track_state( s.f, s.feat, s.desc ) );
      VM_CHECK( got == want, "append-answer", "got " << got << log << step );
      if( want ) { m.push_back( s ); }
      vm::event( want ? "append_accepted" : "append_refused" );
      shape += want ? "a" : "A";
      break;
    }
    case 7: case 8:
    {
      size_t o = r.below( hs.size() );
      model_t& m = hs[ k ].m;
      model_t src = hs[ o ].m;
      bool want = m.empty() || src.empty() || m.back().f < src.front().f;
      step += "append track " + std::to_string( o ) + text( src ) + " to " + std::to_string( k ) + text( m );
      bool got = hs[ k ].t->append( *hs[ o ].t );
      VM_CHECK( got == want, "append-track-answer", "got " << got << log << step );
      if( want ) { m.insert( m.end(), src.begin(), src.end() ); }
      vm::event( want ? ( src.empty() || m.size() == src.size() ? "append_track_trivial" : "append_track_accepted" ) : "append_track_refused" );
      shape += want ? "t" : "T";
      break;
    }
    default:
      step += "drop " + std::to_string( k );
      hs.erase( hs.begin() + static_cast< long >( k ) );
      shape += "x";
    }
    log += step;
    for( auto const& h : hs )
    {
      std::vector< frame_id_t > probes;
      for( auto const& s : h.m )
      {
        probes.push_back( s.f );
        if( s.f < std::numeric_limits< frame_id_t >::max() ) { probes.push_back( s.f + 1 ); }
        if( s.f > std::numeric_limits< frame_id_t >::min() ) { probes.push_back( s.f - 1 ); }
      }
      probes.push_back( 0 );
      probes.push_back( frame( r, mode ) );
      probes.push_back( std::numeric_limits< frame_id_t >::max() );
      probes.push_back( std::numeric_limits< frame_id_t >::min() );
      verify( *h.t, h.m, h.id, probes, log );
    }
  }
  vm::sig( shape );
  vm::sample( log );
}

}

VM_MAIN( body )
