// K03: Base64, MD5 and character encodings are exact.
#include "vm.h"
#include <kwsys/Base64.h>
#include <kwsys/MD5.h>
#include <kwsys/Encoding.h>
#include <kwsys/Encoding.hxx>
#include <cmath>
#include <clocale>
#include <memory>

typedef std::string Str;
typedef std::vector< unsigned char > Bytes;
using kwsys::Encoding;

namespace {

// a heap block of exactly n bytes
struct Block
{
  explicit Block( size_t n ) : p( static_cast< unsigned char* >( std::malloc( n ? n : 1 ) ) ), size( n ) { std::memset( p, 0xEE, n ? n : 1 ); }
  explicit Block( Bytes const& b ) : Block( b.size() ) { if( !b.empty() ) { std::memcpy( p, b.data(), b.size() ); } }
  explicit Block( Str const& b ) : Block( b.size() ) { if( !b.empty() ) { std::memcpy( p, b.data(), b.size() ); } }
  ~Block() { std::free( p ); }
  Block( Block const& ) = delete;
  unsigned char* p;
  size_t size;
};

Str hex( Bytes const& b )
{
  Str r;
  for( size_t i = 0; i < b.size() && i < 40; ++i ) { char c[ 4 ]; std::snprintf( c, sizeof c, "%02x", b[ i ] ); r += c; }
  return r + ( b.size() > 40 ? "... of " + std::to_string( b.size() ) : Str() );
}

Bytes random_bytes( vm::Rng& r, size_t n )
{
  Bytes b( n );
  int kind = static_cast< int >( r.below( 4 ) );
  for( auto& c : b ) { c = kind == 0 ? 0 : kind == 1 ? 0xFF : static_cast< unsigned char >( r.u64() ); }
  return b;
}

size_t length( vm::Rng& r ) { return r.chance( 1, 2 ) ? r.below( 20 ) : r.chance( 1, 10 ) ? r.below( 5000 ) : r.below( 200 ); }

// ---- Base64 after RFC 4648 -------------------------------------------------------
char digit( unsigned v ) { return static_cast< char >( v < 26 ? 'A' + v : v < 52 ? 'a' + v - 26 : v < 62 ? '0' + v - 52 : v == 62 ? '+' : '/' ); }

Str reference64( Bytes const& b )
{
  Str bits, r;
  for( unsigned char c : b ) { for( int k = 7; k >= 0; --k ) { bits += ( c >> k ) & 1 ? '1' : '0'; } }
  while( bits.size() % 6 ) { bits += '0'; }
  for( size_t i = 0; i < bits.size(); i += 6 )
  {
    unsigned v = 0;
    for( size_t k = 0; k < 6; ++k ) { v = v * 2 + ( bits[ i + k ] == '1' ); }
    r += digit( v );
  }
  while( r.size() % 4 ) { r += '='; }
  return r;
}

Bytes decode( Block const& in, size_t want, size_t room, size_t max_input )
{
  Block out( room );
  size_t n = kwsysBase64_Decode( in.p, want, out.p, max_input );
  VM_CHECK( n <= room, "base64:count", n << " bytes decoded into " << room );
  return Bytes( out.p, out.p + n );
}

void base64( vm::Rng& r )
{
  Bytes b = random_bytes( r, length( r ) );
  int mark = r.chance( 1, 2 );
  vm::note( "base64 " + hex( b ) );
  Str want = reference64( b );
  bool extra = mark && b.size() % 3 == 0;
  if( extra ) { want += "===="; }
  Block in( b ), out( want.size() );
  size_t n = kwsysBase64_Encode( in.p, in.size, out.p, mark );
  Str got( reinterpret_cast< char* >( out.p ), std::min( n, out.size ) );
  VM_CHECK( n == want.size() && got == want, "base64:encode", hex( b ) << " becomes " << vm::show( got ) << " of length " << n );
  VM_CHECK( Bytes( in.p, in.p + in.size ) == b, "base64:input", hex( b ) );
  Block text( got );
  // as many bytes as there were
  Bytes d = decode( text, b.size(), b.size(), 0 );
  VM_CHECK( d == b, "base64:decode", vm::show( got ) << " becomes " << hex( d ) );
  // promised more than there is, the end is seen all the same
  if( extra || b.size() % 3 )
  {
    size_t more = b.size() + static_cast< size_t >( r.range( 1, 9 ) );
    d = decode( text, more, more, 0 );
    VM_CHECK( d == b, "base64:decode-more", vm::show( got ) << " becomes " << hex( d ) << " where " << more << " bytes were promised" );
    vm::event( "more promised" );
  }
  // the first few
  size_t few = r.below( b.size() + 1 );
  d = decode( text, few, few, 0 );
  VM_CHECK( d == Bytes( b.begin(), b.begin() + static_cast< long >( few ) ), "base64:decode-some", vm::show( got ) << " becomes " << hex( d ) );
  // all there is
  if( text.size )
  {
    d = decode( text, r.below( 3 ) * 100, text.size / 4 * 3, text.size );
    VM_CHECK( d == b, extra ? "base64:end-mark" : "base64:decode-all", vm::show( got ) << " becomes " << hex( d ) << " instead of " << hex( b ) );
  }
  // with something behind it, when the end is marked
  if( got.size() && got[ got.size() - 1 ] == '=' )
  {
    Block more( got + reference64( random_bytes( r, 3 * ( 1 + r.below( 4 ) ) ) ) );
    d = decode( more, 0, more.size / 4 * 3, more.size );
    VM_CHECK( d == b, "base64:stop", vm::show( got ) << " becomes " << hex( d ) << " with something behind" );
    vm::event( "text_behind_mark" );
  }
  vm::event( extra ? "marked" : b.size() % 3 ? "padded" : "unpadded" );
  // one group
  unsigned char g[ 4 ], three[ 3 ];
  for( size_t k = 1; k <= 3 && k <= b.size(); ++k )
  {
    Bytes part( b.begin(), b.begin() + static_cast< long >( k ) );
    Block pin( part ), pout( 4 );
    ( k == 1 ? kwsysBase64_Encode1 : k == 2 ? kwsysBase64_Encode2 : kwsysBase64_Encode3 )( pin.p, pout.p );
    std::memcpy( g, pout.p, 4 );
    VM_CHECK( Str( reinterpret_cast< char* >( g ), 4 ) == reference64( part ), "base64:group", hex( part ) );
    int m = kwsysBase64_Decode3( pout.p, three );
    VM_CHECK( m == static_cast< int >( k ) && std::memcmp( three, part.data(), k ) == 0, "base64:group", hex( part ) << " decodes to " << m );
  }
}

// anything at all as the text
void base64_hostile( vm::Rng& r )
{
  Str t = r.str( r.chance( 1, 2 ) ? "ABab09+/=" : r.chance( 1, 2 ) ? "AZaz=\n -_\x80\xff" : "Ab=", 1, 30 );
  vm::note( "hostile base64 " + vm::show( t ) );
  Block in( t );
  // what comes before the first group that is not one
  Bytes whole;
  size_t k = 0;
  bool clean = true;
  auto value = []( char c ){ for( unsigned v = 0; v < 64; ++v ) { if( digit( v ) == c ) { return static_cast< int >( v ); } } return -1; };
  for( ; k + 4 <= t.size() && clean; k += 4 )
  {
    int v[ 4 ];
    for( int m = 0; m < 4; ++m ) { v[ m ] = value( t[ k + static_cast< size_t >( m ) ] ); clean = clean && v[ m ] >= 0; }
    if( clean )
    {
      whole.push_back( static_cast< unsigned char >( v[ 0 ] << 2 | v[ 1 ] >> 4 ) );
      whole.push_back( static_cast< unsigned char >( v[ 1 ] << 4 | v[ 2 ] >> 2 ) );
      whole.push_back( static_cast< unsigned char >( v[ 2 ] << 6 | v[ 3 ] ) );
    }
  }
  Bytes d = decode( in, 0, ( t.size() + 3 ) / 4 * 3, t.size() );
  VM_CHECK( d.size() >= whole.size() && d.size() <= whole.size() + 2 && std::equal( whole.begin(), whole.end(), d.begin() ), "base64:prefix", vm::show( t ) << " becomes " << hex( d ) );
  if( t.size() >= 4 )
  {
    size_t want = r.below( t.size() / 4 * 3 + 1 );
    Bytes e = decode( in, want, want, 0 );
    VM_CHECK( e.size() <= want && e.size() >= std::min( want, whole.size() ) && std::equal( whole.begin(), whole.begin() + static_cast< long >( std::min( want, whole.size() ) ), e.begin() ), "base64:prefix", vm::show( t ) << " becomes " << hex( e ) );
    unsigned char three[ 3 ];
    Block four( t.substr( 0, 4 ) );
    int m = kwsysBase64_Decode3( four.p, three );
    VM_CHECK( m >= 0 && m <= 3, "base64:group", vm::show( t ) );
    bool bad = false;
    for( int i = 0; i < 4; ++i ) { bad = bad || ( value( t[ static_cast< size_t >( i ) ] ) < 0 && t[ static_cast< size_t >( i ) ] != '=' ); }
    VM_CHECK( !bad || m == 0, "base64:invalid", vm::show( t ) << " decodes to " << m );
  }
  vm::event( t.size() % 4 ? "truncated_text" : "hostile_text" );
}

// ---- MD5 after RFC 1321 ------------------------------------------------------------
struct Md5
{
  uint32_t s[ 4 ] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
  uint32_t k[ 64 ];
  uint64_t total = 0;
  Str pending;
  Md5() { for( int i = 0; i < 64; ++i ) { k[ i ] = static_cast< uint32_t >( std::floor( std::fabs( std::sin( i + 1.0 ) ) * 4294967296.0 ) ); } }
  void block( unsigned char const* p )
  {
    static int const rot[ 4 ][ 4 ] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
    uint32_t x[ 16 ];
    for( int i = 0; i < 16; ++i ) { x[ i ] = p[ 4 * i ] | static_cast< uint32_t >( p[ 4 * i + 1 ] ) << 8 | static_cast< uint32_t >( p[ 4 * i + 2 ] ) << 16 | static_cast< uint32_t >( p[ 4 * i + 3 ] ) << 24; }
    uint32_t a = s[ 0 ], b = s[ 1 ], c = s[ 2 ], d = s[ 3 ];
    for( int i = 0; i < 64; ++i )
    {
      uint32_t f; int g;
      switch( i / 16 )
      {
      case 0: f = ( b & c ) | ( ~b & d ); g = i; break;
      case 1: f = ( b & d ) | ( c & ~d ); g = ( 5 * i + 1 ) % 16; break;
      case 2: f = b ^ c ^ d; g = ( 3 * i + 5 ) % 16; break;
      default: f = c ^ ( b | ~d ); g = 7 * i % 16; break;
      }
      uint32_t t = a + f + k[ i ] + x[ g ];
      int n = rot[ i / 16 ][ i % 4 ];
      a = d; d = c; c = b;
      b += t << n | t >> ( 32 - n );
    }
    s[ 0 ] += a; s[ 1 ] += b; s[ 2 ] += c; s[ 3 ] += d;
  }
  void add( unsigned char const* p, size_t n )
  {
    total += n;
    if( pending.empty() ) { for( ; n >= 64; n -= 64, p += 64 ) { block( p ); } }
    pending.append( reinterpret_cast< char const* >( p ), n );
    while( pending.size() >= 64 ) { block( reinterpret_cast< unsigned char const* >( pending.data() ) ); pending.erase( 0, 64 ); }
  }
  Str finish()
  {
    uint64_t bits = total * 8;
    Str pad( 1, '\x80' );
    while( ( pending.size() + pad.size() ) % 64 != 56 ) { pad += '\0'; }
    for( int i = 0; i < 8; ++i ) { pad += static_cast< char >( bits >> ( 8 * i ) ); }
    add( reinterpret_cast< unsigned char const* >( pad.data() ), pad.size() );
    Str r;
    for( uint32_t v : s ) { for( int i = 0; i < 4; ++i ) { char h[ 4 ]; std::snprintf( h, sizeof h, "%02x", ( v >> ( 8 * i ) ) & 0xFF ); r += h; } }
    return r;
  }
};

struct Kw
{
  kwsysMD5* m = kwsysMD5_New();
  Kw() { kwsysMD5_Initialize( m ); }
  ~Kw() { kwsysMD5_Delete( m ); }
  Kw( Kw const& ) = delete;
  Str hex_digest() { Block b( 32 ); kwsysMD5_FinalizeHex( m, reinterpret_cast< char* >( b.p ) ); return Str( reinterpret_cast< char* >( b.p ), 32 ); }
};

void md5( vm::Rng& r )
{
  size_t n = r.chance( 1, 2 ) ? static_cast< size_t >( r.range( 0, 5 ) * 64 + r.range( 0, 70 ) ) : length( r );
  Bytes b = random_bytes( r, n );
  vm::note( "md5 " + hex( b ) );
  Md5 ref;
  ref.add( b.data(), b.size() );
  Str want = ref.finish();
  Kw a;
  size_t at = 0, pieces = 0;
  while( at < n || ( !pieces && r.chance( 1, 2 ) ) )
  {
    size_t k = std::min( n - at, r.chance( 1, 4 ) ? r.below( 3 ) : r.chance( 1, 3 ) ? static_cast< size_t >( 62 + r.below( 5 ) ) : r.below( 200 ) );
    Block part( Bytes( b.begin() + static_cast< long >( at ), b.begin() + static_cast< long >( at + k ) ) );
    kwsysMD5_Append( a.m, part.p, static_cast< int >( k ) );
    at += k;
    ++pieces;
  }
  Str got;
  bool binary = r.chance( 1, 2 );
  if( binary )
  {
    Block d( 16 ), h( 32 );
    kwsysMD5_Finalize( a.m, d.p );
    kwsysMD5_DigestToHex( d.p, reinterpret_cast< char* >( h.p ) );
    got.assign( reinterpret_cast< char* >( h.p ), 32 );
  }
  else { got = a.hex_digest(); }
  VM_CHECK( got == want, "md5", hex( b ) << " in " << pieces << " pieces has " << got << " instead of " << want );
  // used again
  kwsysMD5_Initialize( a.m );
  Block all( b );
  kwsysMD5_Append( a.m, all.p, static_cast< int >( n ) );
  VM_CHECK( a.hex_digest() == want, "md5:again", hex( b ) );
  // up to the zero byte
  Str text( b.begin(), b.end() );
  text = text.c_str();
  Block z( text + Str( 1, '\0' ) );
  Kw c;
  kwsysMD5_Append( c.m, z.p, -1 );
  Md5 ref2;
  ref2.add( z.p, text.size() );
  VM_CHECK( c.hex_digest() == ref2.finish(), "md5:text", vm::show( text ) );
  if( pieces > 1 ) { vm::event( "md5_in_pieces" ); }
  if( n % 64 >= 55 ) { vm::event( "md5_two_pad_blocks" ); }
  vm::event( "md5" );
  vm::sig( want );
}

// ---- characters ----------------------------------------------------------------------
void utf8( wchar_t w, Str& s )
{
  uint32_t c = static_cast< uint32_t >( w );
  if( c < 0x80 ) { s += static_cast< char >( c ); }
  else if( c < 0x800 ) { s += static_cast< char >( 0xC0 | c >> 6 ); s += static_cast< char >( 0x80 | ( c & 63 ) ); }
  else if( c < 0x10000 ) { s += static_cast< char >( 0xE0 | c >> 12 ); s += static_cast< char >( 0x80 | ( c >> 6 & 63 ) ); s += static_cast< char >( 0x80 | ( c & 63 ) ); }
  else { s += static_cast< char >( 0xF0 | c >> 18 ); s += static_cast< char >( 0x80 | ( c >> 12 & 63 ) ); s += static_cast< char >( 0x80 | ( c >> 6 & 63 ) ); s += static_cast< char >( 0x80 | ( c & 63 ) ); }
}

wchar_t character( vm::Rng& r )
{
  static uint32_t const edges[] = { 1, 0x7F, 0x80, 0x7FF, 0x800, 0xFFF, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF };
  uint32_t c;
  switch( r.below( 5 ) )
  {
  case 0: c = edges[ r.below( 12 ) ]; break;
  case 1: c = static_cast< uint32_t >( r.range( 0x80, 0x7FF ) ); break;
  case 2: c = static_cast< uint32_t >( r.range( 0x800, 0xFFFF ) ); break;
  case 3: c = static_cast< uint32_t >( r.range( 0x10000, 0x10FFFF ) ); break;
  default: c = static_cast< uint32_t >( r.range( 1, 0x7F ) );
  }
  return static_cast< wchar_t >( c >= 0xD800 && c < 0xE000 ? 'x' : c );
}

void encodings( vm::Rng& r )
{
  std::wstring w;
  Str s;
  bool zeros = r.chance( 1, 5 );
  for( size_t n = length( r ); n; --n ) { wchar_t c = zeros && r.chance( 1, 4 ) ? 0 : character( r ); w += c; utf8( c, s ); }
  vm::note( "characters " + vm::show( s ) );
  Str narrow = Encoding::ToNarrow( w );
  std::wstring wide = Encoding::ToWide( s );
  VM_CHECK( narrow == s, zeros ? "narrow:zeros" : "narrow", vm::show( s ) << " becomes " << vm::show( narrow ) );
  VM_CHECK( wide == w, zeros ? "wide:zeros" : "wide", vm::show( s ) << " becomes " << wide.size() << " instead of " << w.size() << " characters" );
  vm::event( zeros ? "zero_characters" : "characters" );
  if( zeros ) { return; }
  VM_CHECK( Encoding::ToNarrow( w.c_str() ) == s && Encoding::ToWide( s.c_str() ) == w, "pointers", vm::show( s ) );
  wchar_t* dw = kwsysEncoding_DupToWide( s.c_str() );
  char* dn = kwsysEncoding_DupToNarrow( w.c_str() );
  bool ok = dw && dn && w == dw && s == dn;
  std::free( dw );
  std::free( dn );
  VM_CHECK( ok, "duplicate", vm::show( s ) );
  VM_CHECK( kwsysEncoding_mbstowcs( nullptr, s.c_str(), 0 ) == w.size() && kwsysEncoding_wcstombs( nullptr, w.c_str(), 0 ) == s.size(), "length", vm::show( s ) );
  // no more than there is room for
  size_t room = r.below( w.size() + 3 );
  Block bw( room * sizeof( wchar_t ) );
  size_t got = kwsysEncoding_mbstowcs( reinterpret_cast< wchar_t* >( bw.p ), s.c_str(), room );
  VM_CHECK( got == std::min( room, w.size() ) && std::wmemcmp( reinterpret_cast< wchar_t* >( bw.p ), w.c_str(), got + ( room > w.size() ) ) == 0, "room:wide", vm::show( s ) << " with room for " << room << " gives " << got );
  size_t nroom = r.below( s.size() + 3 );
  Block bn( nroom );
  got = kwsysEncoding_wcstombs( reinterpret_cast< char* >( bn.p ), w.c_str(), nroom );
  VM_CHECK( got <= nroom && got <= s.size() && got + 4 > std::min( nroom, s.size() ) && std::memcmp( bn.p, s.c_str(), got ) == 0, "room:narrow", vm::show( s ) << " with room for " << nroom << " gives " << got );
  // what is not text
  Str bad = s + r.pick( std::vector< Str >{ "\xff", "\xc0\x80", "\xe2\x82", "\xed\xa0\x80", "\x80" } );
  if( r.chance( 1, 2 ) ) { bad += "tail"; }
  VM_CHECK( kwsysEncoding_mbstowcs( nullptr, bad.c_str(), 0 ) == static_cast< size_t >( -1 ), "invalid:length", vm::show( bad ) );
  VM_CHECK( Encoding::ToWide( bad ).empty() && !kwsysEncoding_DupToWide( bad.c_str() ), "invalid:wide", vm::show( bad ) << " is converted" );
  std::wstring wbad = w + static_cast< wchar_t >( r.chance( 1, 2 ) ? 0xD800 + static_cast< int >( r.below( 0x800 ) ) : -2 - static_cast< int >( r.below( 1000 ) ) ) + L"tail";
  VM_CHECK( Encoding::ToNarrow( wbad ).empty() && !kwsysEncoding_DupToNarrow( wbad.c_str() ), "invalid:narrow", vm::show( s ) << " and an invalid character are converted" );
  VM_CHECK( !kwsysEncoding_DupToWide( nullptr ) && !kwsysEncoding_DupToNarrow( nullptr ), "null", "a null text is converted" );
  vm::event( "invalid_characters" );
}

void arguments( vm::Rng& r )
{
  std::vector< Str > v;
  std::vector< std::wstring > wv;
  for( size_t n = r.below( 7 ); n; --n ) { std::wstring w; Str s; for( size_t k = r.below( 6 ); k; --k ) { wchar_t c = character( r ); w += c; utf8( c, s ); } v.push_back( s ); wv.push_back( w ); }
  std::vector< char const* > av;
  std::vector< wchar_t const* > wav;
  for( auto const& s : v ) { av.push_back( s.c_str() ); }
  for( auto const& s : wv ) { wav.push_back( s.c_str() ); }
  av.push_back( nullptr );
  wav.push_back( nullptr );
  typedef Encoding::CommandLineArguments Args;
  auto same = [ & ]( Args const& a )
  {
    if( a.argc() != static_cast< int >( v.size() ) || a.argv()[ v.size() ] ) { return false; }
    for( size_t i = 0; i < v.size(); ++i ) { if( !a.argv()[ i ] || v[ i ] != a.argv()[ i ] || a.argv()[ i ] == av[ i ] ) { return false; } }
    return true;
  };
  int n = static_cast< int >( v.size() );
  std::unique_ptr< Args > a( new Args( n, av.data() ) );
  Args b( n, wav.data() ), c( Args::Main( n, av.data() ) ), d( *a ), e( 0, av.data() );
  VM_CHECK( same( *a ) && same( c ) && same( d ), "arguments", n << " arguments" );
  VM_CHECK( same( b ), "arguments:wide", n << " arguments" );
  e = *a;
  *a = *&*a;
  VM_CHECK( same( e ) && same( *a ), "arguments:assign", n << " arguments" );
  a.reset();
  VM_CHECK( same( d ) && same( e ), "arguments:copy", n << " arguments" );
  vm::event( "argument_vectors" );
}

void one( vm::Rng& r, uint64_t )
{
  static bool ready = std::setlocale( LC_ALL, "C.UTF-8" ) != nullptr;
  if( !ready ) { std::fprintf( stderr, "no UTF-8 locale\n" ); std::_Exit( 3 ); }
  for( int k = 0; k < 8; ++k ) { base64( r ); base64_hostile( r ); md5( r ); encodings( r ); }
  arguments( r );
}

// counts beyond 32 bits
void huge( vm::Rng& r, uint64_t )
{
  size_t const part = 1 << 20;
  Bytes b = random_bytes( r, part + 1000 );
  Md5 ref;
  Kw kw;
  size_t extra = r.below( 900 );
  kwsysMD5_Append( kw.m, b.data(), static_cast< int >( extra ) );
  ref.add( b.data(), extra );
  for( int k = 0; k < 530; ++k )
  {
    kwsysMD5_Append( kw.m, b.data(), static_cast< int >( part ) );
    if( ref.pending.empty() ) { ref.add( b.data(), part ); }
    else
    {
      // keep the reference's pieces whole
      size_t fill = 64 - ref.pending.size();
      ref.add( b.data(), fill );
      ref.add( b.data() + fill, part - fill );
    }
  }
  VM_CHECK( kw.hex_digest() == ref.finish(), "md5:huge", 530 * part + extra << " bytes" );
  vm::event( "md5_beyond_2_to_the_32_bits" );
  vm::sig( ref.total );
}

} // namespace

#ifdef K03_HUGE
VM_MAIN( huge )
#else
VM_MAIN( one )
#endif
