// C02: typed values stored in a configuration come back the same; texts that do
// not spell a value are refused, with the default given exactly then.
#include "vm.h"
#include <vital/config/config_block.h>
#include <vital/io/eigen_io.h>
#include <vital/types/vector.h>
#include <vital/types/timestamp.h>
#include <vital/types/timestamp_config.h>
#include <limits>
#include <type_traits>
#include <cerrno>

using namespace kwiver::vital;

namespace {

std::string trimmed( std::string s )
{
  char const* ws = " \t\n\v\f\r";
  size_t a = s.find_first_not_of( ws );
  if( a == std::string::npos ) { return ""; }
  return s.substr( a, s.find_last_not_of( ws ) - a + 1 );
}

// a configuration, and a handle through which the value is read
struct Way
{
  config_block_sptr set_in, get_in;
  std::string set_key, get_key, name;
  bool merge = false;
  config_block_sptr merge_into;
};

Way pick_way( vm::Rng& r )
{
  Way w;
  config_block_sptr root = config_block::empty_config( "t" );
  w.set_in = w.get_in = root;
  w.set_key = w.get_key = "blk:in:key";
  switch( r.below( 5 ) )
  {
  case 0: w.name = "plain"; break;
  case 1: w.name = "read-through-view"; w.get_in = root->subblock_view( "blk" ); w.get_key = "in:key"; break;
  case 2: w.name = "set-through-nested-view"; w.set_in = root->subblock_view( "blk" )->subblock_view( "in" ); w.set_key = "key"; break;
  case 3: w.name = "copy"; w.get_in = nullptr; w.get_key = "in:key"; break;
  default: w.name = "merge"; w.get_in = nullptr; w.merge = true; break;
  }
  return w;
}

void finish( Way& w )
{
  if( w.get_in ) { return; }
  if( w.merge )
  {
    w.get_in = config_block::empty_config();
    w.get_in->set_value( w.set_key, "earlier value" );
    w.get_in->merge_config( w.set_in );
  }
  else { w.get_in = w.set_in->subblock( "blk" ); }
}

template < class T > bool same( T const& a, T const& b ) { return a == b; }
template <> bool same( double const& a, double const& b ) { return vm::same_bits( a, b ); }
template <> bool same( float const& a, float const& b ) { return std::memcmp( &a, &b, sizeof a ) == 0; }
template <> bool same( long double const& a, long double const& b ) { return a == b && std::signbit( a ) == std::signbit( b ); }
template < int N > bool same_vec( Eigen::Matrix< double, N, 1 > const& a, Eigen::Matrix< double, N, 1 > const& b )
{
  for( int i = 0; i < N; ++i ) { if( !vm::same_bits( a( i ), b( i ) ) ) { return false; } }
  return true;
}
template <> bool same( vector_2d const& a, vector_2d const& b ) { return same_vec< 2 >( a, b ); }
template <> bool same( vector_3d const& a, vector_3d const& b ) { return same_vec< 3 >( a, b ); }
template <> bool same( vector_4d const& a, vector_4d const& b ) { return same_vec< 4 >( a, b ); }
template <> bool same( timestamp const& a, timestamp const& b )
{
  return a.has_valid_time() == b.has_valid_time() && a.has_valid_frame() == b.has_valid_frame()
         && a.get_time_usec() == b.get_time_usec() && a.get_frame() == b.get_frame() && a.get_time_domain_index() == b.get_time_domain_index();
}

template < class T > T gen_int( vm::Rng& r )
{
  switch( r.below( 5 ) )
  {
  case 0: return std::numeric_limits< T >::max();
  case 1: return std::numeric_limits< T >::min();
  case 2: return static_cast< T >( r.range( 0, 20 ) );
  case 3: return static_cast< T >( T( 1 ) << r.below( sizeof( T ) * 8 - 1 ) );
  default: return static_cast< T >( r.u64() );
  }
}

template < class T > T gen_real( vm::Rng& r )
{
  switch( r.below( 8 ) )
  {
  case 0: return std::numeric_limits< T >::max();
  case 1: return std::numeric_limits< T >::min();
  case 2: return std::numeric_limits< T >::denorm_min() * static_cast< T >( r.range( 1, 1000 ) );
  case 3: return static_cast< T >( -0.0 );
  case 4: return static_cast< T >( r.range( -1000, 1000 ) ) / static_cast< T >( 8 );
  case 5: return static_cast< T >( 1 ) / static_cast< T >( r.range( 3, 1000 ) );
  case 6: return static_cast< T >( std::ldexp( static_cast< long double >( r.unit() - 0.5 ), static_cast< int >( r.range( -120, 120 ) ) ) );
  default:
    if( sizeof( T ) == 8 )
    {
      double d; uint64_t b = r.u64();
      std::memcpy( &d, &b, 8 );
      if( std::isfinite( d ) ) { return static_cast< T >( d ); }
    }
    else if( sizeof( T ) == 4 )
    {
      float f; uint32_t b = static_cast< uint32_t >( r.u64() );
      std::memcpy( &f, &b, 4 );
      if( std::isfinite( f ) ) { return static_cast< T >( f ); }
    }
    return static_cast< T >( r.gauss() );
  }
}

template < class T > std::string shown( T const& v ) { return vm::str( v ); }
template <> std::string shown( timestamp const& v ) { return vm::str( v.get_time_usec() ) + " " + vm::str( v.get_frame() ); }

template < class T > void round_trip( vm::Rng& r, T const& v, T const& other, char const* type )
{
  Way w = pick_way( r );
  vm::note( std::string( type ) + " " + w.name + " " + shown( v ) );
  if( r.chance( 1, 2 ) ) { w.set_in->set_value( w.set_key, v ); } else { w.set_in->set_value( w.set_key, v, "described" ); }
  finish( w );
  T got = w.get_in->get_value< T >( w.get_key );
  VM_CHECK( same( got, v ), std::string( "round-trip-" ) + type, w.name << ": stored " << shown( v ) << " got " << shown( got ) );
  T got2 = w.get_in->get_value< T >( w.get_key, other );
  VM_CHECK( same( got2, v ), std::string( "round-trip-default-given-" ) + type, w.name << ": stored " << shown( v ) << " got " << shown( got2 ) );
  // overwriting replaces the value completely
  w.get_in->set_value( w.get_key, other );
  VM_CHECK( same( w.get_in->get_value< T >( w.get_key ), other ), std::string( "overwrite-" ) + type, shown( other ) );
  w.get_in->unset_value( w.get_key );
  VM_CHECK( same( w.get_in->get_value< T >( w.get_key, other ), other ), std::string( "default-" ) + type, shown( other ) );
  bool missing = false;
  try { w.get_in->get_value< T >( w.get_key ); } catch( no_such_configuration_value_exception const& ) { missing = true; }
  VM_CHECK( missing, std::string( "missing-" ) + type, "" );
  vm::event( "round_trips" );
  vm::sig( std::string( type ) + w.name + shown( v ) );
}

// what the text spells: none -> must be refused; whole -> must be this value;
// part -> the text goes on after a spelling: refused, or the leading value
enum Spelling { NONE, WHOLE, PART };

template < class T > void expect_text( vm::Rng& r, std::string const& text, Spelling sp, T const& value, T const& def, char const* type )
{
  Way w = pick_way( r );
  vm::note( std::string( type ) + " " + w.name + " text " + vm::show( text ) );
  w.set_in->set_value( w.set_key, text );
  finish( w );
  int outcome = 0;   // 1 value, 2 bad cast, 3 other
  T got = def;
  std::string what;
  try { got = w.get_in->get_value< T >( w.get_key ); outcome = 1; }
  catch( bad_config_block_cast_exception const& e ) { outcome = 2; what = e.what(); }
  catch( std::exception const& e ) { outcome = 3; what = vm::demangle( typeid( e ).name() ); }
  std::string k = std::string( type );
  VM_CHECK( outcome != 3, "bad-cast-kind-" + k, vm::show( text ) << " raised " << what );
  if( sp == NONE ) { VM_CHECK( outcome == 2, "accepted-" + k, vm::show( text ) << " read as " << shown( got ) ); }
  if( sp == WHOLE ) { VM_CHECK( outcome == 1 && same( got, value ), "text-value-" + k, vm::show( text ) << " read as " << ( outcome == 1 ? shown( got ) : what ) ); }
  if( sp == PART && outcome == 1 ) { VM_CHECK( same( got, value ), "text-prefix-" + k, vm::show( text ) << " read as " << shown( got ) ); }
  if( outcome == 2 )
  {
    VM_CHECK( what.find( trimmed( text ) ) != std::string::npos && what.find( w.get_key ) != std::string::npos, "bad-cast-message-" + k, vm::show( what ) );
  }
  T d = w.get_in->get_value< T >( w.get_key, def );
  VM_CHECK( same( d, outcome == 1 ? got : def ), "default-on-bad-cast-" + k, vm::show( text ) << " gave " << shown( d ) );
  VM_CHECK( w.get_in->get_value< std::string >( w.get_key ) == trimmed( text ), "text-changed-" + k, vm::show( text ) );
  vm::event( outcome == 1 ? "text_accepted" : "text_refused" );
  vm::sig( k + w.name + text );
}

template < class T > void int_text( vm::Rng& r, char const* type )
{
  static_assert( sizeof( T ) > 1, "" );
  T def = static_cast< T >( 42 );
  std::string t;
  switch( r.below( 8 ) )
  {
  case 0: t = ""; break;
  case 1: t = r.str( "abcxyz!?-+.,", 1, 4 ); break;
  case 2: t = ( std::is_signed< T >::value && r.chance( 1, 2 ) ? "-" : r.chance( 1, 4 ) ? "+" : "" ) + r.str( "0123456789", 1, sizeof( T ) * 3 ); break;
  case 3: t = r.str( "0123456789", 20, 40 ); break;   // mostly out of range
  case 4: t = r.str( "0123456789", 1, 3 ) + r.str( " xyz.-", 1, 3 ) + r.str( "0123456789", 0, 3 ); break;
  case 7: t = r.str( "123456789", 1, 3 ) + ( r.chance( 1, 2 ) ? "." : "," ) + r.str( "0123456789", 3, 3 ); vm::event( "grouped_digits" ); break;
  default: t = r.str( "0123456789+-. abcdefx", 1, 8 );
  }
  std::string s = trimmed( t );
  // own reading: optional sign, decimal digits
  size_t i = 0;
  bool neg = false;
  if( i < s.size() && ( s[ i ] == '-' || s[ i ] == '+' ) ) { neg = s[ i ] == '-'; ++i; }
  size_t d0 = i;
  __int128 v = 0;
  bool over = false;
  while( i < s.size() && s[ i ] >= '0' && s[ i ] <= '9' )
  {
    if( v < ( static_cast< __int128 >( 1 ) << 100 ) ) { v = v * 10 + ( s[ i ] - '0' ); } else { over = true; }
    ++i;
  }
  if( neg ) { v = -v; }
  if( i == d0 ) { expect_text< T >( r, t, NONE, 0, def, type ); return; }
  if( !std::is_signed< T >::value && neg ) { return; }   // wrapped or refused: not specified
  over = over || v > static_cast< __int128 >( std::numeric_limits< T >::max() ) || v < static_cast< __int128 >( std::numeric_limits< T >::min() );
  expect_text< T >( r, t, over ? NONE : i == s.size() ? WHOLE : PART, over ? T( 0 ) : static_cast< T >( v ), def, type );
}

template < class T > T strto( char const* p, char** e );
template <> double strto( char const* p, char** e ) { return std::strtod( p, e ); }
template <> float strto( char const* p, char** e ) { return std::strtof( p, e ); }

template < class T > void real_text( vm::Rng& r, char const* type )
{
  std::string t;
  switch( r.below( 6 ) )
  {
  case 0: t = ""; break;
  case 1: t = r.str( "abcgz!?,", 1, 4 ); break;
  case 2: t = std::string( r.chance( 1, 2 ) ? "-" : "" ) + r.str( "0123456789", 1, 25 ) + "." + r.str( "0123456789", 1, 30 ); break;
  case 3: t = r.str( "0123456789", 1, 3 ) + "e" + ( r.chance( 1, 2 ) ? "-" : "" ) + r.str( "0123456789", 1, 2 ); break;
  case 4: t = r.str( "123456789", 1, 1 ) + "e" + vm::str( r.range( 400, 9999 ) ); break;  // out of range
  default: t = r.str( "-.", 1, 2 ) + r.str( "abcg", 1, 2 );
  }
  std::string s = trimmed( t );
  bool plain = !s.empty() && s.find_first_not_of( "0123456789.e-" ) == std::string::npos;
  char* e = nullptr;
  T v = plain ? strto< T >( s.c_str(), &e ) : T( 0 );
  bool whole = plain && e == s.c_str() + s.size() && std::isfinite( v );
  expect_text< T >( r, t, whole ? WHOLE : NONE, v, static_cast< T >( 42.5 ), type );
}

std::string random_case( vm::Rng& r, std::string s )
{
  for( auto& c : s ) { if( r.chance( 1, 2 ) ) { c = static_cast< char >( std::toupper( c ) ); } }
  return s;
}

void bool_text( vm::Rng& r )
{
  static std::vector< std::string > const good = { "true", "false", "yes", "no", "1", "0" };
  static std::vector< std::string > const bad = { "", "t", "f", "y", "n", "on", "off", "2", "-1", "10", "01", "truee", "tru", "true false", "nope", "yes!", "0.0", "oui", "00", "noo", "fals" };
  std::string t, low;
  if( r.chance( 1, 2 ) ) { low = r.pick( good ); t = r.str( " \t", 0, 2 ) + random_case( r, low ) + r.str( " \t", 0, 2 ); }
  else if( r.chance( 1, 2 ) ) { t = random_case( r, r.pick( bad ) ); }
  else { t = r.str( "truefalsyno10", 1, 6 ); low = t; for( auto& c : low ) { c = static_cast< char >( std::tolower( c ) ); } }
  bool is_good = false, v = false;
  for( size_t i = 0; i < good.size(); ++i ) { if( low == good[ i ] ) { is_good = true; v = i % 2 == 0; } }
  expect_text< bool >( r, t, is_good ? WHOLE : NONE, v, r.chance( 1, 2 ), "bool" );
}

void time_text( vm::Rng& r )
{
  std::string a = r.chance( 3, 4 ) ? vm::str( static_cast< long >( r.u64() >> 3 ) ) : r.str( "xyz", 0, 3 );
  std::string b = r.chance( 3, 4 ) ? vm::str( r.range( -100000, 100000 ) ) : r.str( "xyz", 0, 3 );
  bool good = !a.empty() && !b.empty() && a.find_first_of( "xyz" ) == std::string::npos && b.find_first_of( "xyz" ) == std::string::npos;
  if( good && r.chance( 1, 6 ) )   // a number grouped as some locales do is not a time
  {
    a = r.str( "123456789", 1, 3 ) + ( r.chance( 1, 2 ) ? "." : "," ) + r.str( "0123456789", 3, 3 );
    good = false;
    vm::event( "grouped_digits" );
  }
  timestamp want;
  if( good ) { want.set_time_usec( std::strtoll( a.c_str(), nullptr, 10 ) ).set_frame( std::strtoll( b.c_str(), nullptr, 10 ) ); }
  timestamp def( 123, 456 );
  expect_text< timestamp >( r, a + r.str( " \t", 1, 3 ) + b, good ? WHOLE : NONE, want, def, "timestamp" );
}

template < int N > void vec_text( vm::Rng& r, char const* type )
{
  typedef Eigen::Matrix< double, N, 1 > V;
  V def = V::Constant( 7.25 ), want = V::Zero();
  std::string t;
  long n = r.chance( 1, 2 ) ? N : r.range( 0, N + 1 );
  bool bad = n < N;
  for( long i = 0; i < n; ++i )
  {
    double v = static_cast< double >( r.range( -1000, 1000 ) ) / 16;
    bool word = r.chance( 1, 10 );
    if( i < N ) { want( i ) = v; bad = bad || word; }
    t += ( i ? r.str( " \t", 1, 2 ) : "" ) + ( word ? std::string( "abc" ) : vm::str( v ) );
  }
  expect_text< V >( r, t, bad ? NONE : n == N ? WHOLE : PART, want, def, type );
}

template < class V > V gen_vec( vm::Rng& r ) { V v; for( int i = 0; i < v.size(); ++i ) { v( i ) = gen_real< double >( r ); } return v; }

std::string gen_string( vm::Rng& r )
{
  std::string s;
  size_t n = r.chance( 1, 20 ) ? r.below( 5000 ) : r.below( 40 );
  for( size_t i = 0; i < n; ++i ) { s += r.chance( 1, 4 ) ? static_cast< char >( r.range( 1, 255 ) ) : static_cast< char >( r.range( 32, 126 ) ); }
  return trimmed( s );
}

// a type of the application, whose reader and writer can fail
struct Odd
{
  int v = 0;
  bool operator==( Odd const& o ) const { return v == o.v; }
};
int odd_mode;                    // how the writer fails: 0 not, 1 failbit, 2 badbit, 3 throws
struct odd_failure : std::runtime_error { using std::runtime_error::runtime_error; };
std::ostream& operator<<( std::ostream& s, Odd const& o )
{
  s << "<" << o.v;
  if( odd_mode == 1 ) { s.setstate( std::ios::failbit ); }
  if( odd_mode == 2 ) { s.setstate( std::ios::badbit ); }
  if( odd_mode == 3 ) { throw odd_failure( "this odd value has no text" ); }
  return s << ">";
}
std::istream& operator>>( std::istream& s, Odd& o )
{
  char a = 0, b = 0;
  int v = 0;
  s >> a >> v >> b;
  if( s && v % 7 == 0 ) { throw odd_failure( "sevenfold values are not read" ); }
  if( a != '<' || b != '>' ) { s.setstate( std::ios::failbit ); }
  if( s ) { o.v = v; }
  return s;
}

void own_type( vm::Rng& r )
{
  config_block_sptr c = config_block::empty_config( "t" ), view = c->subblock_view( "blk" );
  Odd a, def;
  a.v = static_cast< int >( r.range( -100000, 100000 ) );
  def.v = 123456;
  odd_mode = static_cast< int >( r.below( 4 ) );
  bool had = r.chance( 1, 2 );
  if( had ) { c->set_value( "blk:key", "earlier", "about it" ); }
  vm::note( "own type " + vm::str( a.v ) + " writer " + vm::str( odd_mode ) );
  bool refused = false;
  try { if( r.chance( 1, 2 ) ) { view->set_value( "key", a ); } else { c->set_value( "blk:key", a ); } }
  catch( config_block_exception const& e )
  {
    refused = true;
    VM_CHECK( odd_mode != 3 || std::string( e.what() ).find( "this odd value has no text" ) != std::string::npos, "own-reason-lost", e.what() );
  }
  VM_CHECK( refused == ( odd_mode != 0 ), "own-writer", ( refused ? "refused" : "accepted" ) << " with a writer of kind " << odd_mode );
  if( refused )
  {
    // nothing has changed
    VM_CHECK( c->has_value( "blk:key" ) == had, "own-refused-but-stored", "" );
    if( had ) { VM_CHECK( c->get_value< std::string >( "blk:key" ) == "earlier" && c->get_description( "blk:key" ) == "about it", "own-refused-but-stored", c->get_value< std::string >( "blk:key" ) ); }
    vm::event( "own_writer_fails" );
    odd_mode = 0;
    return;
  }
  bool got = true;
  Odd b;
  try { b = view->get_value< Odd >( "key" ); }
  catch( bad_config_block_cast_exception const& e )
  {
    got = false;
    VM_CHECK( e.m_value == "<" + std::to_string( a.v ) + ">" && e.m_reason.find( "sevenfold" ) != std::string::npos, "own-reason-lost", e.what() );
    vm::event( "own_reader_fails" );
  }
  VM_CHECK( got == ( a.v % 7 != 0 ), "own-reader", a.v << ( got ? " accepted" : " refused" ) );
  if( got ) { VM_CHECK( b == a, "own-changed", b.v << " of " << a.v ); vm::event( "own_types" ); }
  Odd d = c->get_value< Odd >( "blk:key", def ), e = c->get_value< Odd >( "blk:none", def );
  VM_CHECK( d == ( got ? a : def ) && e == def, "own-default", d.v << " " << e.v );
  vm::sig( vm::mix( static_cast< uint64_t >( a.v ) + 12345678 ) );
}

void one( vm::Rng& r, uint64_t )
{
  if( r.chance( 1, 8 ) ) { own_type( r ); }
  vm::OtherLocale other( r.chance( 1, 8 ) );
  for( int k = 0; k < 12; ++k )
  {
    switch( r.below( 27 ) )
    {
    case 0: { bool v = r.chance( 1, 2 ); round_trip< bool >( r, v, !v, "bool" ); break; }
    case 1: round_trip< short >( r, gen_int< short >( r ), 3, "short" ); break;
    case 2: round_trip< unsigned short >( r, gen_int< unsigned short >( r ), 3, "ushort" ); break;
    case 3: round_trip< int >( r, gen_int< int >( r ), 3, "int" ); break;
    case 4: round_trip< unsigned >( r, gen_int< unsigned >( r ), 3, "unsigned" ); break;
    case 5: round_trip< long >( r, gen_int< long >( r ), 3, "long" ); break;
    case 6: round_trip< unsigned long >( r, gen_int< unsigned long >( r ), 3, "ulong" ); break;
    case 7: round_trip< long long >( r, gen_int< long long >( r ), 3, "llong" ); break;
    case 8: round_trip< float >( r, gen_real< float >( r ), 3.5f, "float" ); break;
    case 9: case 10: round_trip< double >( r, gen_real< double >( r ), 3.5, "double" ); break;
    case 11: round_trip< long double >( r, gen_real< long double >( r ), 3.5L, "long-double" ); break;
    case 12: case 13: round_trip< std::string >( r, gen_string( r ), "other", "string" ); break;
    case 14: round_trip< char >( r, static_cast< char >( r.range( 33, 126 ) ), 'z', "char" ); break;
    case 15: round_trip< vector_2d >( r, gen_vec< vector_2d >( r ), vector_2d( 1, 2 ), "vector2" ); break;
    case 16: round_trip< vector_3d >( r, gen_vec< vector_3d >( r ), vector_3d( 1, 2, 3 ), "vector3" ); break;
    case 17: round_trip< vector_4d >( r, gen_vec< vector_4d >( r ), vector_4d( 1, 2, 3, 4 ), "vector4" ); break;
    case 18:
      round_trip< timestamp >( r, timestamp( gen_int< timestamp::time_t >( r ), gen_int< timestamp::frame_t >( r ) ), timestamp( 5, 6 ), "timestamp" ); break;
    case 19: bool_text( r ); break;
    case 20: int_text< int >( r, "int" ); break;
    case 21: int_text< unsigned >( r, "unsigned" ); break;
    case 22: int_text< long >( r, "long" ); break;
    case 23: int_text< short >( r, "short" ); break;
    case 24: real_text< double >( r, "double" ); break;
    case 25: if( r.chance( 1, 2 ) ) { time_text( r ); } else { real_text< float >( r, "float" ); } break;
    default: if( r.chance( 1, 2 ) ) { vec_text< 2 >( r, "vector2" ); } else { vec_text< 3 >( r, "vector3" ); }
    }
  }
  if( r.chance( 1, 400 ) ) { vm::sample( vm::st().sh->note ); }
}

} // namespace

VM_MAIN( one )
