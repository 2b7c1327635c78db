// K07: string and environment helpers agree with their definitions.
#include "vm.h"
#include <kwsys/SystemTools.hxx>
#include <kwsys/String.h>
#include <kwsys/String.hxx>
#include <kwsys/System.h>
#include <algorithm>
#include <cstdarg>
#include <fstream>
#include <memory>
#include <iomanip>
#include <cerrno>
#include <cstring>
#include <sys/time.h>
#include <time.h>

typedef kwsys::SystemTools ST;
typedef std::string Str;
extern char** environ;

namespace {

char const* opt( bool null, Str const& s ) { return null ? nullptr : s.c_str(); }

struct Owned
{
  char* p;
  explicit Owned( char* q ) : p( q ) {}
  ~Owned() { delete[] p; }
  bool is( bool null, Str const& s ) const { return null ? !p : p && s == p; }
  Str text() const { return p ? vm::show( p ) : "(null)"; }
};

bool up( char c ) { return c >= 'A' && c <= 'Z'; }
bool low( char c ) { return c >= 'a' && c <= 'z'; }
bool alpha( char c ) { return up( c ) || low( c ); }
bool digit( char c ) { return c >= '0' && c <= '9'; }
bool space( char c ) { return c == ' ' || ( c >= '\t' && c <= '\r' ); }
char tolow( char c ) { return up( c ) ? static_cast< char >( c + 32 ) : c; }
char toup( char c ) { return low( c ) ? static_cast< char >( c - 32 ) : c; }
int sign( long v ) { return v < 0 ? -1 : v > 0; }

// text of few letters so that things match; `nul`: also zero bytes
Str text( vm::Rng& r, bool nul, size_t most = 24 )
{
  static Str const kinds[] = { "ab", "abAB ", "aA1_ .", "xyzXYZ  \t\n\r", "ab/\\\"'", "0123456789ABCDEFabcdefgG", "a\xC3\xA9\xFF\x80 ", "\n\ra", "ab;:," };
  Str const& k = kinds[ r.below( sizeof kinds / sizeof *kinds ) ];
  size_t n = r.chance( 1, 40 ) ? r.below( 5000 ) : r.below( most );
  Str s;
  for( size_t i = 0; i < n; ++i )
  {
    if( nul && r.chance( 1, 20 ) ) { s += '\0'; }
    else if( r.chance( 1, 15 ) ) { s += static_cast< char >( r.range( 1, 255 ) ); }
    else { s += k[ r.below( k.size() ) ]; }
  }
  return s;
}

// exactly sized copy, so that a step beyond its end is seen
struct Tight
{
  char* p; size_t n;
  explicit Tight( Str const& s ) : p( new char[ s.size() + 1 ] ), n( s.size() ) { std::memcpy( p, s.c_str(), n + 1 ); }
  ~Tight() { delete[] p; }
};

void letters( vm::Rng& r )
{
  Str s = text( r, true );
  Str cap, words( s ), unwords( s ), spaced, lower, upper, ident;
  for( size_t i = 0; i < s.size(); ++i )
  {
    cap += i ? tolow( s[ i ] ) : toup( s[ i ] );
    lower += tolow( s[ i ] );
    upper += toup( s[ i ] );
    if( i == 0 || space( s[ i - 1 ] ) ) { words[ i ] = toup( s[ i ] ); unwords[ i ] = tolow( s[ i ] ); }
    if( i && up( s[ i ] ) && !space( s[ i - 1 ] ) && !up( s[ i - 1 ] ) ) { spaced += ' '; }
    spaced += s[ i ];
    if( i == 0 && digit( s[ i ] ) ) { ident += '_'; }
    ident += alpha( s[ i ] ) || digit( s[ i ] ) ? s[ i ] : '_';
  }
#define SAME( call, want ) do { Str got_ = call; VM_CHECK( got_ == ( want ), #call, #call << " of " << vm::show( s ) << " is " << vm::show( got_ ) << ", should be " << vm::show( want ) ); } while( 0 )
  SAME( ST::Capitalized( s ), cap );
  SAME( ST::CapitalizedWords( s ), words );
  SAME( ST::UnCapitalizedWords( s ), unwords );
  SAME( ST::AddSpaceBetweenCapitalizedWords( s ), spaced );
  SAME( ST::LowerCase( s ), lower );
  SAME( ST::UpperCase( s ), upper );
  SAME( ST::MakeCidentifier( s ), ident );
  SAME( ST::MakeCindentifier( s ), ident );
  vm::event( "case changed", upper != s );
  vm::event( "identifiers", ident != s );
  // cropped
  size_t most = r.chance( 1, 3 ) ? r.below( 8 ) : r.below( s.size() + 3 );
  Str got = ST::CropString( s, most );
  if( most == 0 || most >= s.size() ) { VM_CHECK( got == s, "crop", "CropString( " << vm::show( s ) << ", " << most << " ) is " << vm::show( got ) ); }
  else
  {
    VM_CHECK( got.size() == most, "crop length", "CropString( " << vm::show( s ) << ", " << most << " ) is " << vm::show( got ) );
    size_t dots = most > 2 ? std::min< size_t >( 3, most - 2 ) : 0, rest = most - dots, match = 0;
    for( size_t head = rest / 2; head <= ( rest + 1 ) / 2; ++head )
    {
      match += got == s.substr( 0, head ) + Str( dots, '.' ) + s.substr( s.size() - ( rest - head ) );
    }
    VM_CHECK( match, "crop", "CropString( " << vm::show( s ) << ", " << most << " ) is " << vm::show( got ) );
    vm::event( "cropped" );
  }
  vm::sig( s );
}

Str replaced( Str const& s, Str const& what, Str const& with )
{
  Str out;
  for( size_t i = 0; i < s.size(); )
  {
    if( !what.empty() && s.compare( i, what.size(), what ) == 0 ) { out += with; i += what.size(); }
    else { out += s[ i++ ]; }
  }
  return out;
}

void replacing( vm::Rng& r )
{
  Str s = text( r, true ), what, with = text( r, true, 6 );
  size_t kind = r.below( 4 );
  if( kind == 0 && !s.empty() ) { size_t at = r.below( s.size() ); what = s.substr( at, r.range( 0, 4 ) ); }
  else { what = text( r, true, 4 ); }
  if( r.chance( 1, 12 ) ) { what = s; }
  Str got = s;
  bool c = r.chance( 1, 3 ), null = c && r.chance( 1, 4 );
  Str want;
  if( c )
  {
    what = what.c_str();
    with = null ? "" : with.c_str();
    want = replaced( s, what, with );
    Tight a( what ), b( with );
    ST::ReplaceString( got, a.p, null ? nullptr : b.p );
  }
  else
  {
    size_t alias = r.below( 6 );
    if( alias == 0 ) { what = s; } else if( alias == 1 ) { with = s; }
    want = replaced( s, what, with );
    ST::ReplaceString( got, alias == 0 ? got : what, alias == 1 ? got : with );
    if( alias < 2 ) { vm::event( "own text as argument" ); }
    if( s.find( '\0' ) != Str::npos ) { vm::event( "zero bytes inside" ); }
  }
  VM_CHECK( got == want, "ReplaceString", "ReplaceString( " << vm::show( s ) << ", " << vm::show( what ) << ", " << vm::show( with ) << ( c ? ", as C strings" : "" ) << " ) gives " << vm::show( got ) << ", should be " << vm::show( want ) );
  if( want != s ) { vm::event( "replaced" ); if( s.size() < 60 ) { vm::sample( "ReplaceString( " + vm::show( s ) + ", " + vm::show( what ) + ", " + vm::show( with ) + " ) = " + vm::show( got ) ); } }
}

void c_strings( vm::Rng& r )
{
  Str a = text( r, false ), b = text( r, false, 5 ), c = text( r, false );
  if( r.chance( 1, 3 ) && !a.empty() ) { size_t at = r.below( a.size() ); b = r.chance( 1, 2 ) ? a.substr( at, r.below( 5 ) ) : r.chance( 1, 2 ) ? a.substr( at ) : a.substr( 0, at ); }
  bool na = r.chance( 1, 8 ), nb = r.chance( 1, 8 ), nc = r.chance( 1, 8 );
  Tight ta( a ), tb( b ), tc( c );
  char const *pa = na ? nullptr : ta.p, *pb = nb ? nullptr : tb.p, *pc = nc ? nullptr : tc.p;
  Str va = na ? Str() : a, vb = nb ? Str() : b, vc = nc ? Str() : c;
  Str args = Str( "( " ) + ( na ? "null" : vm::show( a ) ) + ", " + ( nb ? "null" : vm::show( b ) ) + " )";
  {
    Owned x( ST::AppendStrings( pa, pb ) ), y( ST::AppendStrings( pa, pb, pc ) ), d( ST::DuplicateString( pa ) );
    VM_CHECK( x.is( na && nb, va + vb ), "AppendStrings", "AppendStrings" << args << " is " << x.text() );
    VM_CHECK( y.is( na && nb && nc, va + vb + vc ), "AppendStrings 3", "AppendStrings" << args << " with " << vm::show( vc ) << " is " << y.text() );
    VM_CHECK( d.is( na, va ), "DuplicateString", "DuplicateString of " << vm::show( va ) << " is " << d.text() );
    VM_CHECK( na || d.p != pa, "DuplicateString", "DuplicateString returns its argument" );
  }
  char ch = r.chance( 1, 2 ) && !a.empty() ? a[ r.below( a.size() ) ] : 'a';
  VM_CHECK( ST::CountChar( pa, ch ) == static_cast< size_t >( std::count( va.begin(), va.end(), ch ) ), "CountChar", "CountChar" << args << " is " << ST::CountChar( pa, ch ) );
  {
    Str keep, hex, rep( va );
    for( char x : va ) { if( b.find( x ) == Str::npos ) { keep += x; } if( digit( x ) || ( x >= 'A' && x <= 'F' ) ) { hex += x; } }
    for( char& x : rep ) { if( b.find( x ) != Str::npos ) { x = ch; } }
    Owned k( ST::RemoveChars( pa, tb.p ) ), h( ST::RemoveCharsButUpperHex( pa ) );
    VM_CHECK( k.is( na, keep ), "RemoveChars", "RemoveChars" << args << " is " << k.text() );
    VM_CHECK( h.is( na, hex ), "RemoveCharsButUpperHex", "RemoveCharsButUpperHex" << args << " is " << h.text() );
    Tight copy( a );
    char* res = ST::ReplaceChars( na ? nullptr : copy.p, tb.p, ch );
    VM_CHECK( na ? !res : res == copy.p && rep == res, "ReplaceChars", "ReplaceChars" << args << " by " << vm::show( Str( 1, ch ) ) << " is " << ( res ? vm::show( res ) : "(null)" ) );
    vm::event( "characters removed", keep != va );
  }
  {
    bool starts = !na && !nb && a.compare( 0, b.size(), b ) == 0, ends = !na && !nb && a.size() >= b.size() && a.compare( a.size() - b.size(), b.size(), b ) == 0;
    VM_CHECK( ST::StringStartsWith( pa, pb ) == starts && ( na || ST::StringStartsWith( a, pb ) == starts ), "StringStartsWith", "StringStartsWith" << args << " should be " << starts );
    VM_CHECK( ST::StringEndsWith( pa, pb ) == ends && ( na || ST::StringEndsWith( a, pb ) == ends ), "StringEndsWith", "StringEndsWith" << args << " should be " << ends );
    Str z = text( r, true );
    bool zs = !nb && z.compare( 0, b.size(), b ) == 0, ze = !nb && z.size() >= b.size() && z.compare( z.size() - b.size(), b.size(), b ) == 0;
    VM_CHECK( ST::StringStartsWith( z, pb ) == zs && ST::StringEndsWith( z, pb ) == ze, "starts, ends", "StringStartsWith or StringEndsWith of " << vm::show( z ) << " and " << vm::show( b ) << " is wrong" );
    size_t at = na || nb ? Str::npos : a.rfind( b );
    char const* last = ST::FindLastString( pa, pb );
    VM_CHECK( at == Str::npos ? !last : last == pa + at, "FindLastString", "FindLastString" << args << " is at " << ( last ? last - pa : -1 ) );
    vm::event( "found", starts || ends );
    vm::event( "null strings", na || nb );
  }
  {
    char esc = r.chance( 1, 2 ) ? '\\' : ch;
    Str want;
    for( char x : va ) { if( !nb && b.find( x ) != Str::npos ) { want += esc; } want += x; }
    Str got = r.chance( 1, 2 ) && esc == '\\' ? ST::EscapeChars( pa, pb ) : ST::EscapeChars( pa, pb, esc );
    VM_CHECK( got == want, "EscapeChars", "EscapeChars" << args << " is " << vm::show( got ) );
    if( want != va ) { vm::event( "escaped" ); }
  }
  // comparison without case, of pure ASCII
  Str x, y;
  for( size_t n = r.below( 8 ); n; --n ) { x += static_cast< char >( r.chance( 1, 3 ) ? r.range( 1, 127 ) : r.range( 'A', 'D' ) + 32 * r.range( 0, 1 ) ); }
  y = x;
  for( char& q : y ) { if( alpha( q ) && r.chance( 1, 2 ) ) { q = static_cast< char >( q ^ 32 ); } }
  if( r.chance( 1, 2 ) && !y.empty() ) { y[ r.below( y.size() ) ] = static_cast< char >( r.range( 1, 127 ) ); }
  if( r.chance( 1, 4 ) ) { y.resize( r.below( y.size() + 1 ) ); }
  size_t n = r.below( 9 );
  auto order = []( Str const& p, Str const& q, size_t most )
  {
    for( size_t i = 0; i < most; ++i )
    {
      int u = i < p.size() ? tolow( p[ i ] ) : 0, v = i < q.size() ? tolow( q[ i ] ) : 0;
      if( u != v || !u ) { return sign( u - v ); }
    }
    return 0;
  };
  Tight tx( x ), ty( y );
  VM_CHECK( sign( ST::Strucmp( tx.p, ty.p ) ) == order( x, y, 99 ), "Strucmp", "Strucmp( " << vm::show( x ) << ", " << vm::show( y ) << " ) is " << ST::Strucmp( tx.p, ty.p ) );
  VM_CHECK( sign( kwsysString_strcasecmp( tx.p, ty.p ) ) == order( x, y, 99 ), "strcasecmp", "strcasecmp( " << vm::show( x ) << ", " << vm::show( y ) << " ) is " << kwsysString_strcasecmp( tx.p, ty.p ) );
  VM_CHECK( sign( kwsysString_strncasecmp( tx.p, ty.p, n ) ) == order( x, y, n ), "strncasecmp", "strncasecmp( " << vm::show( x ) << ", " << vm::show( y ) << ", " << n << " ) is " << kwsysString_strncasecmp( tx.p, ty.p, n ) );
  vm::event( order( x, y, 99 ) ? "differ without case" : "equal without case" );
}

void splitting( vm::Rng& r )
{
  Str s = text( r, true );
  char sep = r.chance( 1, 3 ) ? '/' : r.chance( 1, 2 ) ? 'a' : r.chance( 1, 3 ) ? '\0' : ':';
  {
    bool path = r.chance( 1, 2 );
    if( path && r.chance( 1, 2 ) ) { s = "/" + s; }
    std::vector< Str > want;
    Str rest = s;
    if( path && !rest.empty() && rest[ 0 ] == '/' ) { want.push_back( "/" ); rest.erase( 0, 1 ); }
    if( !s.empty() )
    {
      want.push_back( "" );
      for( char c : rest ) { if( c == sep ) { want.push_back( "" ); } else { want.back() += c; } }
    }
    std::vector< kwsys::String > got = ST::SplitString( s, sep, path );
    VM_CHECK( std::vector< Str >( got.begin(), got.end() ) == want, "SplitString", "SplitString( " << vm::show( s ) << ", " << vm::show( Str( 1, sep ) ) << ", " << path << " ) has " << got.size() << " parts, should have " << want.size() );
    vm::event( "split", want.size() > 1 );
  }
  {
    bool lines = r.chance( 1, 2 );
    std::vector< Str > got( r.below( 2 ), "old" ), want( got );
    Str piece;
    bool open = false;
    for( char c : s )
    {
      open = true;
      if( c == ( lines ? '\n' : sep ) )
      {
        if( lines && !piece.empty() && *piece.rbegin() == '\r' ) { piece.erase( piece.size() - 1 ); }
        want.push_back( piece ); piece.clear(); open = false;
      }
      else { piece += c; }
    }
    if( open ) { want.push_back( piece ); }
    bool ok = lines ? ST::Split( s, got ) : ST::Split( s, got, sep );
    VM_CHECK( got == want && ok == !open, "Split", "Split of " << vm::show( s ) << ( lines ? " into lines" : "" ) << " has " << got.size() << " parts and returns " << ok << ", should have " << want.size() << " and return " << !open );
    vm::event( open ? "last part open" : "last part closed" );
  }
}

void reading( vm::Rng& r )
{
  Str all;
  size_t n = r.below( 6 );
  for( size_t i = 0; i < n; ++i )
  {
    Str l;
    if( r.chance( 1, 2 ) ) { l = text( r, true ); }
    else { l = Str( r.chance( 1, 2 ) ? 1023 * r.range( 1, 3 ) + r.range( -4, 4 ) : r.below( 3000 ), 'x' ); for( size_t k = r.below( 4 ); k; --k ) { l[ l.empty() ? 0 : r.below( l.size() ) ] = '\r'; } }
    all += l;
    if( r.chance( 1, 4 ) ) { all += '\r'; }
    if( i + 1 < n || r.chance( 1, 2 ) ) { all += '\n'; }
  }
  if( r.chance( 1, 3 ) && all.size() > 1022 ) { all[ 1022 ] = '\r'; }
  std::istringstream in( all );
  size_t at = 0;
  bool limited = r.chance( 1, 3 );
  for( int k = 0; k < 40; ++k )
  {
    Str line = "old", want;
    bool nl = k % 2, more = at < all.size(), has = false;
    long limit = limited ? r.range( 1, 30 ) * ( r.chance( 1, 4 ) ? 100 : 1 ) : -1;
    while( at < all.size() && !has ) { if( all[ at ] == '\n' ) { has = true; } else { want += all[ at ]; } ++at; }
    if( !want.empty() && *want.rbegin() == '\r' ) { want.erase( want.size() - 1 ); }
    bool cut = limit >= 0 && want.size() > static_cast< size_t >( limit );
    if( cut ) { want.resize( static_cast< size_t >( limit ) ); }
    bool ok = limited ? ST::GetLineFromStream( in, line, &nl, limit ) : r.chance( 1, 3 ) ? ( nl = has, ST::GetLineFromStream( in, line ) ) : ST::GetLineFromStream( in, line, &nl );
    VM_CHECK( ok == more, "line there", "GetLineFromStream returns " << ok << " for line " << k << " of " << vm::show( all ) );
    VM_CHECK( line == want, cut ? "line cut" : "line", "GetLineFromStream reads line " << k << " of " << all.size() << " bytes as " << line.size() << " bytes " << vm::show( line ) << ", should be " << want.size() << " bytes " << vm::show( want ) << ", limit " << limit );
    VM_CHECK( nl == has, "newline", "GetLineFromStream says newline " << nl << " of line " << k << " of " << vm::show( all ) );
    if( more ) { vm::event( cut ? "lines cut" : has ? "lines" : "last lines without newline" ); }
    if( line.size() > 1022 ) { vm::event( "long lines" ); }
    if( !more ) { if( r.chance( 1, 2 ) ) { break; } }
  }
  std::ifstream none( vm::dir() + "/no such file" );
  Str line = "old";
  bool nl = true;
  VM_CHECK( !ST::GetLineFromStream( none, line, &nl ) && line.empty() && !nl, "no stream", "GetLineFromStream reads from a stream that never opened" );
}

// ---- formats ------------------------------------------------------------------------------
int estimate( char const* format, ... )
{
  va_list ap;
  va_start( ap, format );
  int n = ST::EstimateFormatLength( format, ap );
  va_end( ap );
  return n;
}

int printed( char const* format, ... )
{
  va_list ap;
  va_start( ap, format );
  int n = vsnprintf( nullptr, 0, format, ap );
  va_end( ap );
  return n;
}

template < class... A > void judge( Str const& f, A... a )
{
  Tight t( f );
  int need = printed( t.p, a... ), est = estimate( t.p, a... );
  VM_CHECK( need < 0 || est >= need, "EstimateFormatLength", "EstimateFormatLength of " << vm::show( f ) << " is " << est << ", printing takes " << need );
  vm::event( "formats" );
  if( need > static_cast< int >( f.size() ) + 64 ) { vm::event( "long formatted text" ); }
}

template < int D, class... A > struct Build
{
  static void go( vm::Rng& r, Str f, A... a )
  {
    static std::vector< Str > keep( 4 );
    Str more = text( r, false, 5 );
    more.erase( std::remove_if( more.begin(), more.end(), []( char c ) { return c < 0 || c == '%'; } ), more.end() );
    f += r.chance( 1, 6 ) ? "%%" : more;
    Str flags = r.chance( 1, 3 ) ? Str( 1, "-+ #0"[ r.below( 5 ) ] ) : Str();
    Str width = r.chance( 1, 3 ) ? std::to_string( r.chance( 1, 3 ) ? r.below( 500 ) + 1 : r.below( 20 ) + 1 ) : Str();
    Str prec = r.chance( 1, 3 ) ? "." + std::to_string( r.chance( 1, 3 ) ? r.below( 400 ) : r.below( 12 ) ) : Str();
    double big = r.chance( 1, 3 ) ? 1e300 : r.chance( 1, 4 ) ? -1e-300 : r.chance( 1, 6 ) ? 1.0 / 0.0 : r.real( -1e3, 1e3 );
    switch( r.below( 9 ) )
    {
      case 0: { Str& k = keep[ D ]; k = text( r, false, 200 ); Build< D - 1, A..., char const* >::go( r, f + "%" + ( flags == "-" ? flags : Str() ) + width + prec + "s", a..., r.chance( 1, 8 ) ? nullptr : k.c_str() ); break; }
      case 1: Build< D - 1, A..., int >::go( r, f + "%" + flags + width + prec + r.pick< Str >( { "d", "i", "u", "x", "X", "o", "hd", "hhu" } ), a..., static_cast< int >( r.u64() ) ); break;
      case 2: Build< D - 1, A..., double >::go( r, f + "%" + flags + width + prec + r.pick< Str >( { "f", "F", "e", "E", "g", "G", "a", "lf", "le", "lg" } ), a..., big ); break;
      case 3: Build< D - 1, A..., long >::go( r, f + "%" + flags + width + prec + r.pick< Str >( { "ld", "lu", "lx", "li" } ), a..., static_cast< long >( r.u64() ) ); break;
      case 4: Build< D - 1, A..., long long >::go( r, f + "%" + width + r.pick< Str >( { "lld", "llu", "llx", "jd", "zu", "td" } ), a..., static_cast< long long >( r.u64() ) ); break;
      case 5: Build< D - 1, A..., long double >::go( r, f + "%" + flags + width + prec + r.pick< Str >( { "Lf", "Le", "Lg" } ), a..., static_cast< long double >( big ) * ( r.chance( 1, 4 ) ? 1e3000L : 1 ) ); break;
      case 6: Build< D - 1, A..., int >::go( r, f + "%" + width + "c", a..., static_cast< int >( r.range( 1, 127 ) ) ); break;
      case 7: Build< D - 1, A..., void* >::go( r, f + "%" + width + "p", a..., static_cast< void* >( &keep ) ); break;
      default: Build< D - 1, A..., int, int, double >::go( r, f + "%*.*f", a..., static_cast< int >( r.range( -300, 300 ) ), static_cast< int >( r.range( -2, 60 ) ), big ); break;
    }
  }
};
template < class... A > struct Build< 0, A... >
{
  static void go( vm::Rng& r, Str f, A... a ) { judge( f + ( r.chance( 1, 8 ) ? "%" : r.chance( 1, 4 ) ? "%%" : "" ), a... ); }
};

void formats( vm::Rng& r )
{
  size_t k = r.below( 4 );
  Str f = text( r, false, 5 );
  f.erase( std::remove( f.begin(), f.end(), '%' ), f.end() );
  if( k == 0 ) { Build< 0 >::go( r, f ); } else if( k < 3 ) { Build< 1 >::go( r, f ); } else { Build< 2 >::go( r, f ); }
  VM_CHECK( estimate( nullptr ) == 0, "no format", "EstimateFormatLength of no format is not 0" );
}

// ---- dates --------------------------------------------------------------------------------
void dates( vm::Rng& r )
{
  static char const* const names[] = { "Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec" };
  static char const* const days[] = { "Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat" };
  static char const* const zones[] = { "UTC", "EST5EDT", "CET-1CEST,M3.5.0,M10.5.0/3", "IST-5:30" };
  char const* old = getenv( "TZ" );
  Str keep = old ? old : "";
  setenv( "TZ", zones[ r.chance( 1, 3 ) ? r.below( 4 ) : 0 ], 1 );
  tzset();
  struct tm b;
  std::memset( &b, 0, sizeof b );
  b.tm_year = static_cast< int >( r.range( 71, 136 ) ); b.tm_mon = static_cast< int >( r.below( 12 ) ); b.tm_mday = static_cast< int >( r.range( 1, b.tm_mon == 1 ? 28 : 30 ) );
  b.tm_isdst = -1;
  struct tm f = b;
  f.tm_hour = static_cast< int >( r.range( 4, 23 ) ); f.tm_min = static_cast< int >( r.below( 60 ) ); f.tm_sec = static_cast< int >( r.below( 60 ) );
  struct tm b1 = b, f1 = f;
  time_t date = mktime( &b1 ), stamp = mktime( &f1 );
  char d[ 64 ], t[ 64 ];
  snprintf( d, sizeof d, "%s %2d %4d", names[ b.tm_mon ], b.tm_mday, b.tm_year + 1900 );
  snprintf( t, sizeof t, "%s %s %2d %02d:%02d:%02d %4d", days[ f1.tm_wday ], names[ f.tm_mon ], f.tm_mday, f.tm_hour, f.tm_min, f.tm_sec, f.tm_year + 1900 );
  time_t got = 77;
  VM_CHECK( ST::ConvertDateMacroString( d, &got ) && got == date, "date", "ConvertDateMacroString( " << d << " ) in " << getenv( "TZ" ) << " is " << got << ", should be " << date );
  VM_CHECK( ST::ConvertTimeStampMacroString( t, &got ) && got == stamp, "time stamp", "ConvertTimeStampMacroString( " << t << " ) in " << getenv( "TZ" ) << " is " << got << ", should be " << stamp );
  vm::event( "dates" );
  // no date at all
  Str x( d ), y( t );
  switch( r.below( 5 ) )
  {
    case 0: x.resize( r.below( 11 ) ); y.resize( r.below( 20 ) ); break;
    case 1: x += "0"; y += "000"; break;
    case 2: x.replace( 0, 3, "anF" ); y.replace( 4, 3, "bMa" ); break;
    case 3: x.replace( 0, 3, text( r, false, 4 ) + "xyz", 0, 3 ); y.replace( 4, 3, "   " ); break;
    default: x = ""; y = text( r, false, 12 ); break;
  }
  for( int i = 0; i < 12; ++i ) { if( x.compare( 0, 3, names[ i ] ) == 0 && x.size() == 11 ) { x = ""; } if( y.size() >= 24 && y.size() <= 26 && y.compare( 4, 3, names[ i ] ) == 0 ) { y = ""; } }
  Tight tx( x ), ty( y );
  VM_CHECK( !ST::ConvertDateMacroString( tx.p, &got ), "no date", "ConvertDateMacroString takes " << vm::show( x ) << " for a date" );
  VM_CHECK( !ST::ConvertTimeStampMacroString( ty.p, &got ), "no time stamp", "ConvertTimeStampMacroString takes " << vm::show( y ) << " for a time stamp" );
  VM_CHECK( !ST::ConvertDateMacroString( nullptr, &got ) && !ST::ConvertDateMacroString( d, nullptr ) && !ST::ConvertTimeStampMacroString( nullptr, &got ) && !ST::ConvertTimeStampMacroString( t, nullptr ), "null date", "a null pointer is taken for a date" );
  vm::event( "no dates" );
  // now
  Str fmt;
  for( size_t n = r.below( 5 ); n; --n ) { fmt += r.pick< Str >( { "%Y", "%m-%d", "%H:%M", "%S", "%j", "%%", "at ", "%A %B", "%y", "%p", "%Z" } ); }
  if( r.chance( 1, 6 ) ) { Str one = fmt + "-"; while( fmt.size() < 2500 ) { fmt += one; } }
  for( int k = 0; k < 3; ++k )
  {
    auto shown = [&]( time_t w ) { std::vector< char > buf( 40000 ); struct tm m; localtime_r( &w, &m ); size_t n = strftime( buf.data(), buf.size(), fmt.c_str(), &m ); return Str( buf.data(), n ); };
    // time() may lag one tick behind the other clocks of the system, never more
    time_t before = time( nullptr );
    Str now = ST::GetCurrentDateTime( fmt.c_str() );
    time_t after = time( nullptr );
    bool ok = false;
    for( time_t w = before; w <= after; ++w ) { ok = ok || now == shown( w ); }
    VM_CHECK( ok, "GetCurrentDateTime", "GetCurrentDateTime( " << vm::show( fmt ) << " ) is " << vm::show( now ) << ", should be " << vm::show( shown( after ) ) );
    if( now.size() > 1023 ) { vm::event( "long dates" ); }
    if( now.empty() ) { vm::event( "empty dates" ); }
  }
  // the clock, waiting, and the last error
  for( int k = 0; k < 3; ++k )
  {
    struct timeval a, b;
    gettimeofday( &a, nullptr );
    double now = ST::GetTime();
    gettimeofday( &b, nullptr );
    double lo = a.tv_sec + a.tv_usec * 1e-6, hi = b.tv_sec + b.tv_usec * 1e-6;
    if( hi < lo ) { continue; } // the clock was set back
    VM_CHECK( now > lo - 2e-6 && now < hi + 2e-6, "GetTime", "GetTime is " << std::setprecision( 17 ) << now << " between " << lo << " and " << hi );
  }
  if( r.chance( 1, 8 ) )
  {
    // a wait of up to a second and more goes by at least; an upper limit can not be told on a busy machine
    unsigned ms = static_cast< unsigned >( r.chance( 1, 150 ) ? r.range( 1000, 1150 ) : r.below( 12 ) );
    struct timespec a, b;
    clock_gettime( CLOCK_MONOTONIC, &a );
    ST::Delay( ms );
    clock_gettime( CLOCK_MONOTONIC, &b );
    double took = ( b.tv_sec - a.tv_sec ) * 1e3 + ( b.tv_nsec - a.tv_nsec ) * 1e-6;
    VM_CHECK( took >= ms, "Delay", "Delay( " << ms << " ) took " << took << " ms" );
    vm::event( ms >= 1000 ? "waits of a second" : "waits" );
  }
  {
    int e = static_cast< int >( r.below( 134 ) );
    char const* want = strerror( e );
    Str text( want );
    errno = e;
    Str got_text = ST::GetLastSystemError();
    VM_CHECK( got_text == text, "GetLastSystemError", "GetLastSystemError of " << e << " is " << vm::show( got_text ) << ", should be " << vm::show( text ) );
  }
  if( old ) { setenv( "TZ", keep.c_str(), 1 ); } else { unsetenv( "TZ" ); }
  tzset();
}

// ---- commands and programs ----------------------------------------------------------------
void commands( vm::Rng& r )
{
  Str c;
  size_t n = r.chance( 1, 10 ) ? r.below( 8000 ) : r.below( 40 );
  bool words = r.chance( 1, 3 );
  for( size_t i = 0; i < n; ++i ) { c += words && !r.chance( 1, 4 ) ? 'w' : "ab \\\"' \t\n\xE9"[ r.below( 10 ) ]; }
  if( r.chance( 1, 15 ) ) { c.clear(); for( size_t k = r.below( 200 ); k; --k ) { c += "a "; } }
  if( r.chance( 1, 15 ) ) { size_t m = static_cast< size_t >( r.range( 1018, 2100 ) ); c = ( r.chance( 1, 2 ) ? "'" : "a " ) + Str( m, 'w' ) + ( r.chance( 1, 2 ) ? "' b" : " c" ); }
  std::vector< Str > want;
  bool in = false, esc = false;
  char quote = 0;
  for( char x : c )
  {
    bool literal = esc || ( quote && x != quote && x != '\\' );
    if( literal || ( !space( x ) && x != '\\' && x != '"' && x != '\'' ) )
    {
      if( !in ) { want.push_back( "" ); in = true; }
      want.back() += x;
      esc = false;
    }
    else if( x == '\\' ) { esc = true; }
    else if( space( x ) ) { in = false; }
    else { if( !in ) { want.push_back( "" ); in = true; } quote = quote ? 0 : x; }
  }
  Tight t( c );
  size_t live = vm::live_bytes();
  char** got = kwsysSystem_Parse_CommandForUnix( t.p, 0 );
  VM_CHECK( got, "command", "Parse_CommandForUnix( " << vm::show( c ) << " ) is null" );
  size_t count = 0;
  while( got[ count ] ) { ++count; }
  bool same = count == want.size();
  for( size_t i = 0; same && i < count; ++i ) { same = want[ i ] == got[ i ]; }
  Str first = count ? got[ 0 ] : "";
  for( size_t i = 0; i < count; ++i ) { free( got[ i ] ); }
  free( got );
  { Str s; first.swap( s ); }
  VM_CHECK( same, "command", "Parse_CommandForUnix( " << vm::show( c ) << " ) has " << count << " arguments, should have " << want.size() );
  VM_CHECK( vm::live_bytes() <= live + 0, "command leak", "Parse_CommandForUnix leaves " << vm::live_bytes() - live << " bytes" );
  VM_CHECK( !kwsysSystem_Parse_CommandForUnix( t.p, 1 + static_cast< int >( r.below( 5 ) ) ), "flags", "Parse_CommandForUnix accepts unknown flags" );
  vm::event( "commands" );
  if( count > 32 ) { vm::event( "many arguments" ); }
  for( Str const& w : want ) { if( w.size() > 1023 ) { vm::event( "long arguments" ); } }
}

void programs( vm::Rng& r )
{
  static char const* const parts[] = { "a", "prog", "my", "x y", " ", "  ", "-v", "", "b c " };
  Str base = vm::dir() + "/p";
  mkdir( base.c_str(), 0777 );
  std::set< Str > there;
  for( size_t n = r.below( 3 ); n; --n )
  {
    Str f = base + "/";
    for( size_t k = r.range( 1, 3 ); k; --k ) { f += parts[ r.below( 9 ) ]; if( k > 1 ) { f += ' '; } }
    if( *f.rbegin() == ' ' || *f.rbegin() == '/' ) { f += "z"; }
    vm::spit( f, "x" ); chmod( f.c_str(), 0755 );
    there.insert( f );
  }
  Str line;
  if( !there.empty() && r.chance( 3, 4 ) ) { auto i = there.begin(); std::advance( i, static_cast< long >( r.below( there.size() ) ) ); line = *i; }
  else { line = r.chance( 1, 3 ) ? " " : base + "/nothing"; }
  bool args = r.chance( 2, 3 );
  if( args ) { for( size_t k = r.range( 1, 4 ); k; --k ) { line += ' '; line += parts[ r.below( 9 ) ]; } }
  if( r.chance( 1, 8 ) ) { line = " " + line; }
  // the longest beginning that names a file, ending at a blank
  Str prog, rest;
  for( size_t i = line.size();; --i )
  {
    Str f = line.substr( 0, i );
    if( ( i == line.size() || line[ i ] == ' ' ) && there.count( f ) ) { prog = f; rest = line.substr( i ); break; }
    if( !i ) { break; }
  }
  Str p = "old", a = "old";
  ST::SplitProgramFromArgs( line, p, a );
  VM_CHECK( p == prog && a == rest, "SplitProgramFromArgs", "SplitProgramFromArgs( " << vm::show( line ) << " ) is " << vm::show( p ) << " and " << vm::show( a ) << ", should be " << vm::show( prog ) << " and " << vm::show( rest ) );
  vm::event( prog.empty() ? "no program" : rest.empty() ? "program alone" : "program with arguments" );
  // a program of PATH, whose name may hold blanks
  if( r.chance( 1, 2 ) )
  {
    Str had = getenv( "PATH" ) ? getenv( "PATH" ) : "";
    Str d1 = base + "/p1", d2 = base + "/p 2";
    mkdir( d1.c_str(), 0755 ); mkdir( d2.c_str(), 0755 );
    std::set< Str > in1, in2;
    std::vector< Str > names = { "vmtool", "vmtool more", "vmtool more still", "vm-other" };
    for( Str const& n : names )
    {
      if( r.chance( 1, 3 ) ) { vm::spit( d1 + "/" + n, "x" ); chmod( ( d1 + "/" + n ).c_str(), 0755 ); in1.insert( n ); }
      if( r.chance( 1, 3 ) ) { vm::spit( d2 + "/" + n, "x" ); chmod( ( d2 + "/" + n ).c_str(), 0755 ); in2.insert( n ); }
    }
    setenv( "PATH", ( d1 + ":" + d2 ).c_str(), 1 );
    Str l = r.pick( names );
    for( size_t k = r.below( 4 ); k; --k ) { l += " " + r.pick( std::vector< Str >{ "more", "still", "x=1", "'q q'", "-v" } ); }
    Str wp, wa;
    for( size_t i = l.size(); i; --i )
    {
      if( i != l.size() && l[ i ] != ' ' ) { continue; }
      Str n = l.substr( 0, i );
      if( in1.count( n ) ) { wp = d1 + "/" + n; wa = l.substr( i ); break; }
      if( in2.count( n ) ) { wp = d2 + "/" + n; wa = l.substr( i ); break; }
    }
    Str gp = "old", ga = "old";
    ST::SplitProgramFromArgs( l, gp, ga );
    setenv( "PATH", had.c_str(), 1 );
    VM_CHECK( gp == wp && ga == wa, "SplitProgramFromArgs", "SplitProgramFromArgs( " << vm::show( l ) << " ) of PATH is " << vm::show( gp ) << " and " << vm::show( ga ) << ", should be " << vm::show( wp ) << " and " << vm::show( wa ) );
    vm::event( wp.empty() ? "no program of PATH" : "program of PATH" );
  }
  vm::rmtree( base );
}

// ---- URLs ---------------------------------------------------------------------------------
void urls( vm::Rng& r )
{
  auto word = [&]( size_t least, Str const& letters ) { Str s; for( size_t n = r.range( static_cast< long >( least ), 8 ); n; --n ) { s += letters[ r.below( letters.size() ) ]; } return s; };
  Str const an = "abcXYZ019";
  Str proto = word( 0, an ), user, pass, host = word( 1, an + ".-_" ), port, base;
  Str url = proto + "://";
  if( r.chance( 1, 2 ) ) { user = word( 1, an ); url += user; if( r.chance( 1, 2 ) ) { pass = word( 1, an + "!$ .-" ); url += ":" + pass; } url += "@"; }
  url += host;
  if( r.chance( 1, 2 ) ) { port = word( 1, "0123456789" ); url += ":" + port; }
  if( r.chance( 1, 2 ) ) { base = word( 1, an + "/?=&.: " ); }
  Str p = "x", d = "x", u, w, h, o, b;
  bool one = ST::ParseURLProtocol( url + "/" + base, p, d );
  VM_CHECK( one && p == proto && d == ( url + "/" + base ).substr( proto.size() + 3 ), "ParseURLProtocol", "ParseURLProtocol( " << vm::show( url + "/" + base ) << " ) is " << one << " " << vm::show( p ) << " " << vm::show( d ) );
  bool all = ST::ParseURL( url + "/" + base, p, u, w, h, o, b );
  VM_CHECK( all && p == proto && u == user && w == pass && h == host && o == port && b == base, "ParseURL",
            "ParseURL( " << vm::show( url + "/" + base ) << " ) is " << all << ": " << vm::show( p ) << " " << vm::show( u ) << " " << vm::show( w ) << " " << vm::show( h ) << " " << vm::show( o ) << " " << vm::show( b ) );
  Str none = word( 0, an + ":/@" );
  if( none.find( "://" ) == Str::npos )
  {
    VM_CHECK( !ST::ParseURLProtocol( none, p, d ) && !ST::ParseURL( none, p, u, w, h, o, b ), "no URL", "ParseURL takes " << vm::show( none ) << " for a URL" );
    vm::event( "no URLs" );
  }
  vm::event( "URLs" );
}

// ---- environment --------------------------------------------------------------------------
std::map< Str, Str > real_env( bool& twice )
{
  std::map< Str, Str > m;
  twice = false;
  for( char** e = environ; e && *e; ++e )
  {
    Str s( *e );
    size_t at = s.find( '=' );
    if( at == Str::npos ) { continue; }
    if( !m.insert( std::make_pair( s.substr( 0, at ), s.substr( at + 1 ) ) ).second ) { twice = true; }
  }
  return m;
}

void environment( vm::Rng& r )
{
  bool twice;
  std::map< Str, Str > before = real_env( twice ), now = before;
  static std::vector< Str > const names = { "VM_A", "VM_AB", "VM_", "VM_A_", "vm_a", "VM_A.B", "VM A", "VM_LONG_NAME_OF_A_VARIABLE" + Str( 300, 'x' ) };
  for( size_t n = r.range( 1, 25 ); n; --n )
  {
    Str name = r.pick( names ), value = r.chance( 1, 4 ) ? Str() : text( r, false, 12 );
    if( r.chance( 1, 6 ) ) { value += "=" + value; }
    bool ok = true;
    switch( r.below( 6 ) )
    {
      case 0: case 1: ok = ST::PutEnv( name + "=" + value ); now[ name ] = value; vm::event( "variables set" ); break;
      case 2: ok = ST::PutEnv( name ); now.erase( name ); vm::event( "variables removed by PutEnv" ); break;
      case 3: { Str arg = name + ( r.chance( 1, 2 ) ? "=" + value : Str() ); ok = ST::UnPutEnv( arg ); vm::event( "variables removed" ); now.erase( name ); break; }
      case 4:
      {
        // a value held elsewhere is copied
        Str* s = new Str( name + "=" + value );
        ok = ST::PutEnv( *s );
        std::fill( s->begin(), s->end(), '#' );
        delete s;
        now[ name ] = value;
        break;
      }
      default:
        VM_CHECK( !ST::PutEnv( "=" + value ), "no name", "PutEnv sets a variable without a name" );
        vm::event( "no name" );
        break;
    }
    VM_CHECK( ok, "environment", "setting or removing " << name << " fails" );
    std::map< Str, Str > seen = real_env( twice );
    VM_CHECK( seen == now && !twice, "environment", "after an operation on " << vm::show( name ) << " the environment has " << seen.size() << " variables, should have " << now.size() << ( twice ? ", one of them twice" : "" ) );
    name = r.pick( names );
    char const* v = r.chance( 1, 2 ) ? ST::GetEnv( name ) : ST::GetEnv( name.c_str() );
    Str out = "old";
    bool has = r.chance( 1, 2 ) ? ST::GetEnv( name, out ) : ST::GetEnv( name.c_str(), out );
    auto i = now.find( name );
    if( i == now.end() ) { VM_CHECK( !v && !has && out == "old", "GetEnv", "GetEnv finds " << name << ", which is not set" ); vm::event( "variables missing" ); }
    else { VM_CHECK( v && v == i->second && has && out == i->second, "GetEnv", "GetEnv of " << name << " is " << ( v ? vm::show( v ) : "(null)" ) << ", " << vm::show( out ) ); vm::event( "variables read" ); }
  }
  if( r.chance( 1, 30 ) )
  {
    // what a child sees
    Str file = vm::dir() + "/env", cmd = "cat /proc/self/environ > '" + file + "'";
    VM_CHECK( system( cmd.c_str() ) == 0, "child", "a child fails" );
    std::map< Str, Str > child;
    Str data = vm::slurp( file ), one;
    for( char c : data ) { if( c ) { one += c; } else { size_t at = one.find( '=' ); child[ one.substr( 0, at ) ] = one.substr( at + 1 ); one.clear(); } }
    for( Str const& name : names )
    {
      if( name.find_first_of( " ." ) != Str::npos ) { continue; }     // shells drop names they cannot have
      VM_CHECK( child.count( name ) == now.count( name ) && ( !child.count( name ) || child[ name ] == now[ name ] ), "child", "a child sees " << name << " otherwise" );
    }
    vm::event( "children asked" );
  }
  // lists of folders
  std::vector< Str > dirs( r.below( 3 ), "/old" ), want( dirs );
  Str list;
  for( size_t n = r.below( 5 ); n; --n )
  {
    Str d = r.pick< Str >( { "/usr/bin", "rel/dir", ".", "/a b", "/x/y/z", "/", "/UPPER" } );
    list += d; want.push_back( d );
    if( n > 1 || r.chance( 1, 4 ) ) { list += ":"; }
  }
  ST::PutEnv( "VM_DIRS=" + list );
  ST::GetPath( dirs, "VM_DIRS" );
  VM_CHECK( dirs == want, "GetPath", "GetPath of " << vm::show( list ) << " has " << dirs.size() << " folders, should have " << want.size() );
  ST::PutEnv( "VM_DIRS" );
  ST::GetPath( dirs, "VM_DIRS" );
  VM_CHECK( dirs == want, "GetPath", "GetPath of a missing variable adds folders" );
  vm::event( "lists of folders" );
  // width of the terminal
  Str cols = r.chance( 1, 3 ) ? std::to_string( r.range( -5, 1100 ) ) : r.pick< Str >( { "80", "132", "0", "abc", "80x", "", "8", "9", "999", "1000", "99999999999999999999" } );
  if( cols.size() > 1 && cols[ 0 ] == '0' ) { cols = "80"; }
  bool number = !cols.empty() && cols.size() < 5 && cols.find_first_not_of( "0123456789" ) == Str::npos;
  int width = number ? std::atoi( cols.c_str() ) : 0;
  if( !isatty( 1 ) )
  {
    ST::PutEnv( "COLUMNS=" + cols );
    int got = ST::GetTerminalWidth();
    VM_CHECK( got == ( width >= 9 && width < 1000 ? width : -1 ), "GetTerminalWidth", "GetTerminalWidth is " << got << " with COLUMNS=" << cols );
    ST::UnPutEnv( "COLUMNS" );
    vm::event( "terminal widths" );
  }
  for( Str const& name : names ) { ST::UnPutEnv( name ); }
  std::map< Str, Str > after = real_env( twice );
  before.erase( "COLUMNS" );
  VM_CHECK( after == before, "environment", "removing every variable set does not bring the environment back" );
}

}

static void one_case( vm::Rng& r, uint64_t )
{
  vm::note( "letters" );
  for( int i = 0; i < 8; ++i ) { letters( r ); }
  vm::note( "replacing" );
  for( int i = 0; i < 8; ++i ) { replacing( r ); }
  vm::note( "C strings" );
  for( int i = 0; i < 8; ++i ) { c_strings( r ); }
  vm::note( "splitting" );
  for( int i = 0; i < 6; ++i ) { splitting( r ); }
  vm::note( "reading lines" );
  for( int i = 0; i < 3; ++i ) { reading( r ); }
  vm::note( "formats" );
  for( int i = 0; i < 4; ++i ) { formats( r ); }
  vm::note( "dates" );
  dates( r );
  vm::note( "commands" );
  for( int i = 0; i < 4; ++i ) { commands( r ); }
  vm::note( "programs" );
  if( r.chance( 1, 4 ) ) { programs( r ); }
  vm::note( "URLs" );
  if( r.chance( 1, 2 ) ) { urls( r ); }
  vm::note( "environment" );
  if( r.chance( 1, 2 ) ) { environment( r ); }
}

VM_MAIN( one_case )
