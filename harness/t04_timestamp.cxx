// T04: timestamps order consistently and print what they hold.
#include "vm.h"
#include <vital/types/timestamp.h>
#include <ctime>
#include <limits>

using namespace kwiver::vital;

namespace {

struct M { bool ht = false, hf = false; int64_t t = 0, f = 0; int dom = 0; };

std::string show( M const& m )
{
  return "{t " + ( m.ht ? std::to_string( m.t ) : "-" ) + ", f " + ( m.hf ? std::to_string( m.f ) : "-" ) + ", d " + std::to_string( m.dom ) + "}";
}

int64_t num( vm::Rng& r )
{
  switch( r.below( 7 ) )
  {
  case 0: return static_cast< int64_t >( r.below( 4 ) );
  case 1: return -static_cast< int64_t >( r.below( 4 ) );
  case 2: return std::numeric_limits< int64_t >::max() - static_cast< int64_t >( r.below( 2 ) );
  case 3: return std::numeric_limits< int64_t >::min() + static_cast< int64_t >( r.below( 2 ) );
  case 4: return 1400000000000000ll + static_cast< int64_t >( r.below( 3 ) );
  case 5: return ( 1ll << 32 ) + static_cast< int64_t >( r.below( 3 ) );
  default: return static_cast< int64_t >( r.u64() );
  }
}

void verify( timestamp const& ts, M const& m, std::string const& log )
{
  VM_CHECK( ts.has_valid_time() == m.ht && ts.has_valid_frame() == m.hf && ts.is_valid() == ( m.ht && m.hf ), "validity", show( m ) << log );
  if( m.ht ) { VM_CHECK( ts.get_time_usec() == m.t, "time", ts.get_time_usec() << " want " << show( m ) << log ); }
  if( m.hf ) { VM_CHECK( ts.get_frame() == m.f, "frame", ts.get_frame() << " want " << show( m ) << log ); }
  VM_CHECK( ts.get_time_domain_index() == m.dom, "domain", ts.get_time_domain_index() << " want " << show( m ) << log );
  if( m.ht )
  {
    double want = static_cast< double >( static_cast< long double >( m.t ) / 1000000.0L );
    VM_CHECK( std::fabs( ts.get_time_seconds() - want ) <= 1e-15 * std::fabs( want ) * 4, "seconds", ts.get_time_seconds() << " want " << want << log );
  }
  std::string p = ts.pretty_print();
  std::string head = "ts(f: " + ( m.hf ? std::to_string( m.f ) : std::string( "<inv>" ) ) + ", t: " + ( m.ht ? std::to_string( m.t ) : std::string( "<inv>" ) );
  std::string tail = ", d: " + std::to_string( m.dom ) + ")";
  VM_CHECK( p.compare( 0, head.size(), head ) == 0 && p.size() >= head.size() + tail.size() && p.compare( p.size() - tail.size(), tail.size(), tail ) == 0, "printed", p << " want " << head << "..." << tail << log );
  std::string mid = p.substr( head.size(), p.size() - head.size() - tail.size() );
  if( !m.ht ) { VM_CHECK( mid.empty(), "printed-extra", p << log ); }
  else if( m.t >= 0 && m.t < ( 1ll << 50 ) && m.t % 1000000 > 1 && m.t % 1000000 < 999999 )
  {
    std::time_t s = m.t / 1000000;
    struct tm g;
    gmtime_r( &s, &g );
    char b[ 64 ];
    std::strftime( b, sizeof b, " (%a %b %e %H:%M:%S %Y)", &g );
    VM_CHECK( mid == b, "printed-date", p << " want " << b << log );
    vm::event( "dates_compared" );
  }
  VM_CHECK( vm::str( ts ) == p, "stream-operator", p << log );
}

struct Rel { bool lt, gt, eq, ne; };
Rel rel( timestamp const& a, timestamp const& b ) { return { a < b, a > b, a == b, a != b }; }

void body( vm::Rng& r, uint64_t )
{
  std::string log, shape;
  std::vector< timestamp > ts;
  std::vector< M > ms;
  long n = r.range( 2, 6 );
  for( long i = 0; i < n; ++i )
  {
    M m;
    timestamp t;
    if( r.chance( 1, 3 ) )
    {
      m.ht = m.hf = true;
      m.t = num( r ); m.f = num( r );
      t = timestamp( m.t, m.f );
      log += "\nnew " + show( m );
    }
    else if( i && r.chance( 1, 3 ) ) { t = timestamp( ts.back() ); m = ms.back(); log += "\ncopy"; }
    else { log += "\nempty"; }
    verify( t, m, log );
    for( long k = r.range( 0, 6 ); k > 0; --k )
    {
      timestamp* ret = &t;
      switch( r.below( 7 ) )
      {
      case 0: case 1: m.t = num( r ); m.ht = true; ret = &t.set_time_usec( m.t ); log += "\n time " + std::to_string( m.t ); shape += "t"; break;
      case 2: case 3: m.f = num( r ); m.hf = true; ret = &t.set_frame( m.f ); log += "\n frame " + std::to_string( m.f ); shape += "f"; break;
      case 4: m.dom = static_cast< int >( r.range( -1, 2 ) ); ret = &t.set_time_domain_index( m.dom ); log += "\n domain " + std::to_string( m.dom ); shape += "d"; break;
      case 5: m.ht = m.hf = false; ret = &t.set_invalid(); log += "\n invalid"; shape += "i"; vm::event( "invalidated" ); break;
      default:
        {
          double s = r.chance( 1, 2 ) ? r.real( -1e6, 2e9 ) : static_cast< double >( r.range( -1000, 1000000000 ) ) / 8;
          ret = &t.set_time_seconds( s );
          m.ht = true;
          m.t = t.get_time_usec();
          VM_CHECK( std::fabs( static_cast< double >( static_cast< long double >( m.t ) - static_cast< long double >( s ) * 1e6L ) ) <= 1.0, "set-seconds", s << " became " << m.t << log );
          VM_CHECK( std::fabs( t.get_time_seconds() - s ) <= 1.1e-6, "seconds-round-trip", s << " became " << t.get_time_seconds() << log );
          log += "\n seconds";
          shape += "s";
        }
      }
      VM_CHECK( ret == &t, "returned-object", log );
      verify( t, m, log );
    }
    // small values make comparable pairs frequent
    if( r.chance( 1, 2 ) )
    {
      m = M();
      t.set_invalid();
      t.set_time_domain_index( m.dom = static_cast< int >( r.below( 2 ) ) );
      if( r.chance( 2, 3 ) ) { t.set_time_usec( m.t = static_cast< int64_t >( r.below( 4 ) ) ); m.ht = true; }
      if( r.chance( 2, 3 ) ) { t.set_frame( m.f = static_cast< int64_t >( r.below( 4 ) ) ); m.hf = true; }
      log += "\n now " + show( m );
      verify( t, m, log );
    }
    ts.push_back( t );
    ms.push_back( m );
  }
  for( size_t a = 0; a < ts.size(); ++a )
  {
    for( size_t b = 0; b < ts.size(); ++b )
    {
      Rel x = rel( ts[ a ], ts[ b ] );
      int part = ms[ a ].dom != ms[ b ].dom ? 0 : ms[ a ].ht && ms[ b ].ht ? 1 : ms[ a ].hf && ms[ b ].hf ? 2 : 0;
      std::string pair = show( ms[ a ] ) + " " + show( ms[ b ] ) + " lt " + std::to_string( x.lt ) + " gt " + std::to_string( x.gt ) + " eq " + std::to_string( x.eq ) + " ne " + std::to_string( x.ne );
      if( !part )
      {
        VM_CHECK( !x.lt && !x.gt && !x.eq && !x.ne, "order-of-incomparable", pair );
        vm::event( ms[ a ].dom != ms[ b ].dom ? "different_domains" : "nothing_comparable" );
        continue;
      }
      int64_t p = part == 1 ? ms[ a ].t : ms[ a ].f, q = part == 1 ? ms[ b ].t : ms[ b ].f;
      VM_CHECK( x.lt == ( p < q ) && x.gt == ( p > q ) && x.eq == ( p == q ) && x.ne == ( p != q ), "order", pair );
      vm::event( part == 1 ? "ordered_by_time" : "ordered_by_frame" );
      shape += part == 1 ? ( p < q ? '<' : p == q ? '=' : '>' ) : ( p < q ? 'l' : p == q ? 'e' : 'g' );
    }
  }
  vm::sig( shape );
  vm::sample( log );
}

}

VM_MAIN( body )
