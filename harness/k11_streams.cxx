// K11: streams, terminals and owners keep their contracts.
// Streams are searched for byte order marks and what is read afterwards is compared with what was put in;
// a terminal's own rules are applied to coloured output read from pseudo terminals, pipes and files;
// owned objects count themselves through histories of handing over.
#include "vm.h"
#include <algorithm>
#include <cerrno>
#include <fstream>
#include <memory>
#include <termios.h>
#include <kwsys/FStream.hxx>
#include <kwsys/CPU.h>
#include <kwsys/FundamentalType.h>
#include <kwsys/IOStream.hxx>
#include <kwsys/Terminal.h>
#include <kwsys/auto_ptr.hxx>

typedef std::string Str;

namespace {

// -- byte order marks ----------------------------------------------------------------
struct Mark { kwsys::FStream::BOM bom; Str bytes; char const* name; };

std::vector< Mark > const& marks()
{
  static std::vector< Mark > m = {
    { kwsys::FStream::BOM_UTF8, Str( "\xEF\xBB\xBF", 3 ), "UTF-8" },
    { kwsys::FStream::BOM_UTF16BE, Str( "\xFE\xFF", 2 ), "UTF-16BE" },
    { kwsys::FStream::BOM_UTF32LE, Str( "\xFF\xFE\0\0", 4 ), "UTF-32LE" },     // (before UTF-16LE, whose mark begins it)
    { kwsys::FStream::BOM_UTF16LE, Str( "\xFF\xFE", 2 ), "UTF-16LE" },
    { kwsys::FStream::BOM_UTF32BE, Str( "\0\0\xFE\xFF", 4 ), "UTF-32BE" } };
  return m;
}

// a buffer that gives out few bytes at a time and can be positioned only absolutely
class Slow : public std::streambuf
{
  Str data; size_t at, step; char window[ 64 ];
public:
  Slow( Str const& d, size_t s ) : data( d ), at( 0 ), step( s ) { setg( window, window, window ); }
protected:
  int_type underflow() override
  {
    if( gptr() < egptr() ) { return traits_type::to_int_type( *gptr() ); }
    size_t n = std::min( step, data.size() - at );
    if( n == 0 ) { return traits_type::eof(); }
    std::memcpy( window, data.data() + at, n );
    at += n;
    setg( window, window, window + n );
    return traits_type::to_int_type( *gptr() );
  }
  pos_type seekoff( off_type off, std::ios_base::seekdir dir, std::ios_base::openmode ) override
  {
    if( dir == std::ios_base::cur && off == 0 ) { return pos_type( static_cast< off_type >( at ) - ( egptr() - gptr() ) ); }
    return pos_type( off_type( -1 ) );
  }
  pos_type seekpos( pos_type p, std::ios_base::openmode ) override
  {
    if( p < 0 || p > static_cast< off_type >( data.size() ) ) { return pos_type( off_type( -1 ) ); }
    at = static_cast< size_t >( static_cast< off_type >( p ) );
    setg( window, window, window );
    return p;
  }
};

void bom( vm::Rng& r, uint64_t )
{
  Str body;
  static char const bytes[] = "\xEF\xBB\xBF\xFE\xFF\0\0\xFF\xFE\xFE" "ab";
  for( long n = r.chance( 1, 3 ) ? r.range( 0, 4 ) : r.range( 0, 40 ); n > 0; --n ) { body += bytes[ r.below( sizeof bytes - 1 ) ]; }
  if( r.chance( 1, 2 ) )
  {
    Str m = r.pick( marks() ).bytes;
    if( r.chance( 1, 3 ) ) { m.resize( r.below( m.size() + 1 ) ); vm::event( "marks cut off" ); }
    body = m + ( r.chance( 1, 3 ) ? Str() : body );
  }
  Str before = r.chance( 1, 3 ) ? r.str( "abc\n\xEF\xBB", 1, 30 ) : Str();
  Mark const* want = nullptr;
  for( auto const& m : marks() ) { if( !want && body.compare( 0, m.bytes.size(), m.bytes ) == 0 ) { want = &m; } }
  Str rest = body.substr( want ? want->bytes.size() : 0 );
  std::istringstream text;
  std::ifstream file;
  Slow slow( before + body, static_cast< size_t >( r.range( 1, 5 ) ) );
  std::istream other( &slow );
  std::istream* in = &text;
  int kind = static_cast< int >( r.below( 3 ) );
  Str path = vm::dir() + "/bom";
  if( kind == 0 ) { text.str( before + body ); }
  else if( kind == 1 ) { vm::spit( path, before + body ); file.open( path.c_str(), std::ios::binary ); in = &file; }
  else { in = &other; }
  Str got( before.size(), '\0' );
  if( !before.empty() ) { in->read( &got[ 0 ], static_cast< std::streamsize >( before.size() ) ); VM_CHECK( got == before, "harness", "prefix" ); }
  vm::note( "bom " + vm::show( body ) );
  bool was_bad = r.chance( 1, 15 );
  if( was_bad ) { in->setstate( std::ios::failbit ); }
  kwsys::FStream::BOM b = kwsys::FStream::ReadBOM( *in );
  if( was_bad )
  {
    VM_CHECK( b == kwsys::FStream::BOM_None && in->fail(), "bom-failed", "a failed stream has a mark, or became good" );
    in->clear();
    Str all( ( std::istreambuf_iterator< char >( *in ) ), std::istreambuf_iterator< char >() );
    VM_CHECK( all == body, "bom-failed", "of a failed stream something was read" );
    vm::event( "failed streams" );
    return;
  }
  Str label = vm::show( body ) + " after " + vm::show( before ) + ( kind == 0 ? " in a string" : kind == 1 ? " in a file" : " in a stream of few bytes" );
  VM_CHECK( b == ( want ? want->bom : kwsys::FStream::BOM_None ), "bom", "the mark of " << label << " is taken for " << static_cast< int >( b ) << ", it is " << ( want ? want->name : "none" ) );
  VM_CHECK( !in->fail(), "bom-state", "after looking for the mark of " << label << " the stream cannot be read" );
  // (a reader that looks for lines as well as one that looks for bytes)
  Str all;
  if( r.chance( 1, 2 ) )
  {
    Str line;
    while( std::getline( *in, line ) ) { all += line; if( !in->eof() ) { all += '\n'; } }
  }
  else { char c; while( in->get( c ) ) { all += c; } }
  VM_CHECK( all == rest, "bom-rest", "after the mark of " << label << " comes " << vm::show( all ) << " instead of " << vm::show( rest ) );
  vm::event( want ? Str( "marks " ) + want->name : Str( "no mark" ) );
  if( body.size() < 2 ) { vm::event( "shorter than a mark" ); }
  vm::sig( body + static_cast< char >( kind ) );
  vm::sample( label );
}

// -- terminals -------------------------------------------------------------------------
struct Cell { char c; int fg, bg; bool bold; };

// what a VT100 shows; state is kept between texts
struct Screen
{
  int fg = -1, bg = -1;
  bool bold = false, odd = false;
  std::vector< Cell > cells;
  void feed( Str const& s )
  {
    for( size_t i = 0; i < s.size(); ++i )
    {
      if( s[ i ] != 27 ) { cells.push_back( { s[ i ], fg, bg, bold } ); continue; }
      size_t e = i + 1;
      if( e >= s.size() || s[ e ] != '[' ) { odd = true; return; }
      ++e;
      std::vector< int > p( 1, 0 );
      while( e < s.size() && ( std::isdigit( static_cast< unsigned char >( s[ e ] ) ) || s[ e ] == ';' ) )
      {
        if( s[ e ] == ';' ) { p.push_back( 0 ); } else { p.back() = p.back() * 10 + ( s[ e ] - '0' ); }
        ++e;
      }
      if( e >= s.size() || s[ e ] != 'm' ) { odd = true; return; }
      for( int v : p )
      {
        if( v == 0 ) { fg = bg = -1; bold = false; }
        else if( v == 1 ) { bold = true; }
        else if( v >= 30 && v <= 37 ) { fg = v - 30; }
        else if( v >= 40 && v <= 47 ) { bg = v - 40; }
        else { odd = true; }
      }
      i = e;
    }
  }
};

struct Sink
{
  FILE* out = nullptr; int in = -1; Str path; Str memory; bool tty = false;
  char* mem = nullptr; size_t mem_size = 0;
};

Str drain( Sink& s )
{
  std::fflush( s.out );
  Str r;
  if( s.mem || !s.path.empty() ) { return Str(); }
  char b[ 8192 ];
  ssize_t n;
  while( ( n = ::read( s.in, b, sizeof b ) ) > 0 ) { r.append( b, static_cast< size_t >( n ) ); }
  return r;
}

void terminal( vm::Rng& r, uint64_t )
{
  static char const* const capable[] = { "xterm", "xterm-256color", "linux", "screen", "vt100", "ansi", "rxvt-unicode-256color", "cygwin", "putty", "Eterm", "con80x60", "xterm-termite", "screen.linux", "konsole-256color", "gnome" };
  static char const* const incapable[] = { "", "dumb", "XTERM", "xterm ", " xterm", "xter", "xterm-", "vt52", "vt1000", "emacs", "unknown", "network", "xterm\n", "eterm" };
  Sink s;
  int kind = static_cast< int >( r.below( 5 ) );
  Str what;
  if( kind <= 1 )
  {
    int m = ::posix_openpt( O_RDWR | O_NOCTTY );
    if( m < 0 || ::grantpt( m ) || ::unlockpt( m ) ) { throw vm::CaseSkip(); }
    char name[ 200 ];
    if( ::ptsname_r( m, name, sizeof name ) ) { throw vm::CaseSkip(); }
    int f = ::open( name, O_RDWR | O_NOCTTY );
    if( f < 0 ) { throw vm::CaseSkip(); }
    termios t;
    ::tcgetattr( f, &t );
    ::cfmakeraw( &t );
    ::tcsetattr( f, TCSANOW, &t );
    ::fcntl( m, F_SETFL, O_NONBLOCK );
    s.out = ::fdopen( f, "w" );
    s.in = m;
    s.tty = true;
    what = "a terminal";
  }
  else if( kind == 2 )
  {
    int p[ 2 ];
    if( ::pipe( p ) ) { std::_Exit( 3 ); }
    ::fcntl( p[ 0 ], F_SETFL, O_NONBLOCK );
    s.out = ::fdopen( p[ 1 ], "w" );
    s.in = p[ 0 ];
    what = "a pipe";
  }
  else if( kind == 3 ) { s.path = vm::dir() + "/term"; s.out = std::fopen( s.path.c_str(), "w" ); what = "a file"; }
  else { s.out = ::open_memstream( &s.mem, &s.mem_size ); what = "memory"; }
  if( kind != 4 && r.chance( 1, 2 ) ) { std::setvbuf( s.out, nullptr, r.chance( 1, 2 ) ? _IONBF : _IOLBF, 0 ); }
  Screen screen;
  Str plain;
  std::vector< Cell > want;
  long n = r.range( 1, 12 );
  bool unsure = false;
  Str history = what;
  for( long i = 0; i < n; ++i )
  {
    Str term;
    bool set = !r.chance( 1, 8 ), good = set && r.chance( 2, 3 );
    term = good ? capable[ r.below( sizeof capable / sizeof *capable ) ] : incapable[ r.below( sizeof incapable / sizeof *incapable ) ];
    if( set ) { ::setenv( "TERM", term.c_str(), 1 ); } else { ::unsetenv( "TERM" ); }
    bool emacs = false;
    switch( r.below( 6 ) )
    {
      case 0: ::setenv( "EMACS", "t", 1 ); emacs = true; break;
      case 1: ::setenv( "EMACS", r.chance( 1, 2 ) ? "" : "/usr/bin/emacs", 1 ); break;
      default: ::unsetenv( "EMACS" ); break;
    }
    int fg = static_cast< int >( r.below( 9 ) ), bg = static_cast< int >( r.below( 9 ) );
    bool bold = r.chance( 1, 3 ), assume = r.chance( 1, 4 ), assume_tty = r.chance( 1, 6 );
    int color = fg | ( bg << 4 ) | ( bold ? kwsysTerminal_Color_ForegroundBold : 0 ) | ( assume ? kwsysTerminal_Color_AssumeVT100 : 0 ) | ( assume_tty ? kwsysTerminal_Color_AssumeTTY : 0 );
    Str text = r.str( "abc %d\\\n\t[0m;", 0, r.chance( 1, 10 ) ? 3000 : 20 );
    int number = static_cast< int >( r.below( 1000 ) );
    Str whole;
    vm::note( what + " TERM " + term );
    switch( r.below( 4 ) )
    {
      case 0: kwsysTerminal_cfprintf( color, s.out, "%s", text.c_str() ); whole = text; break;
      case 1: kwsysTerminal_cfprintf( color, s.out, "<%5d|%-6s|%s>", number, "x", text.c_str() ); { char b[ 64 ]; std::snprintf( b, sizeof b, "<%5d|%-6s|", number, "x" ); whole = b + text + ">"; } break;
      case 2: kwsysTerminal_cfprintf( color, s.out, "100%%" ); whole = "100%"; break;
      default: kwsysTerminal_cfprintf( color, s.out, "%.3f %c %lx %s", 1.5, 'q', 0xabcdefL, text.c_str() ); whole = "1.500 q abcdef " + text; break;
    }
    bool colored = s.tty && !emacs && ( good || assume );
    if( !s.tty && assume_tty && !emacs && ( good || assume ) ) { unsure = true; }
    for( char c : whole ) { want.push_back( { c, colored ? fg - 1 : -1, colored ? bg - 1 : -1, colored && bold } ); }
    if( colored && ( fg || bg || bold ) ) { vm::event( "coloured" ); } else { vm::event( "plain" ); }
    if( colored && assume && !good ) { vm::event( "VT100 assumed" ); }
    if( emacs && s.tty ) { vm::event( "within emacs" ); }
    // plain text in between stays plain
    if( r.chance( 1, 2 ) ) { Str p = r.str( "xyz ", 1, 5 ); std::fputs( p.c_str(), s.out ); for( char c : p ) { want.push_back( { c, -1, -1, false } ); } }
    if( s.tty || kind == 2 ) { Str d = drain( s ); plain += d; screen.feed( d ); }
    history += std::to_string( color ) + ( set ? term : Str( "-" ) );
  }
  VM_CHECK( std::ferror( s.out ) == 0, "terminal-error", "writing to " << what << " failed" );
  if( kind >= 3 )
  {
    std::fflush( s.out );
    plain = s.mem ? Str( s.mem, s.mem_size ) : vm::slurp( s.path );
    screen.feed( plain );
  }
  std::fclose( s.out );
  if( s.in >= 0 ) { ::close( s.in ); }
  std::free( s.mem );
  vm::sig( history );
  VM_CHECK( !screen.odd, "terminal-sequence", "unknown control sequences were written to " << what << ": " << vm::show( plain.substr( 0, 1000 ) ) );
  Str shown, expected;
  for( auto const& c : screen.cells ) { shown += c.c; }
  for( auto const& c : want ) { expected += c.c; }
  VM_CHECK( shown == expected, "terminal-text", what << " shows " << vm::show( shown.substr( 0, 1000 ) ) << " for " << vm::show( expected.substr( 0, 1000 ) ) );
  if( !s.tty && !unsure ) { VM_CHECK( plain == expected, "terminal-plain", "control sequences were written to " << what << ": " << vm::show( plain.substr( 0, 1000 ) ) ); }
  if( !unsure )
  {
    for( size_t i = 0; i < want.size(); ++i )
    {
      Cell const& a = screen.cells[ i ];
      Cell const& b = want[ i ];
      VM_CHECK( a.fg == b.fg && a.bg == b.bg && a.bold == b.bold, "terminal-colour",
                "character " << i << " of " << vm::show( plain.substr( 0, 1000 ) ) << " on " << what << " has colours " << a.fg << "," << a.bg << "," << a.bold << " for " << b.fg << "," << b.bg << "," << b.bold );
    }
    VM_CHECK( screen.fg == -1 && screen.bg == -1 && !screen.bold, "terminal-restored", what << " is left coloured" );
  }
  vm::event( what );
}

// -- owners ---------------------------------------------------------------------------------
struct Thing
{
  static int alive;
  static std::set< Thing const* > all;
  int id;
  explicit Thing( int i ) : id( i ) { ++alive; all.insert( this ); }
  virtual ~Thing() { --alive; all.erase( this ); id = -1; }
};
int Thing::alive = 0;
std::set< Thing const* > Thing::all;
struct Special : Thing { explicit Special( int i ) : Thing( i ) { } int more[ 4 ] = { 1, 2, 3, 4 }; };

typedef kwsys::auto_ptr< Thing > Owner;
typedef kwsys::auto_ptr< Special > SpecialOwner;

Owner make( int id ) { return Owner( new Thing( id ) ); }
SpecialOwner make_special( int id ) { return SpecialOwner( new Special( id ) ); }
Owner pass( Owner o ) { return o; }
int consume( Owner o ) { return o.get() ? o->id : 0; }

void owners( vm::Rng& r, uint64_t )
{
  VM_CHECK( Thing::alive == 0, "harness", "things left" );
  {
    std::vector< std::unique_ptr< Owner > > o;
    std::vector< std::unique_ptr< SpecialOwner > > s;
    std::vector< int > mo, ms;           // id owned, 0 for none
    for( int i = 0; i < 4; ++i ) { o.emplace_back( new Owner ); s.emplace_back( new SpecialOwner ); mo.push_back( 0 ); ms.push_back( 0 ); }
    int next = 1;
    Str history;
    long n = r.range( 5, 40 );
    for( long i = 0; i < n; ++i )
    {
      size_t a = r.below( 4 ), b = r.below( 4 );
      int op = static_cast< int >( r.below( 15 ) );
      history += static_cast< char >( 'a' + op );
      switch( op )
      {
        case 0: o[ a ].reset( new Owner( new Thing( next ) ) ); mo[ a ] = next++; break;
        case 1: *o[ a ] = *o[ b ]; if( a != b ) { mo[ a ] = mo[ b ]; mo[ b ] = 0; } else { vm::event( "assigned to themselves" ); } vm::event( "assigned" ); break;
        case 2: *o[ a ] = make( next ); mo[ a ] = next++; vm::event( "assigned from functions" ); break;
        case 3: *o[ a ] = *s[ b ]; mo[ a ] = ms[ b ]; ms[ b ] = 0; vm::event( "converted" ); break;
        case 4: { Owner c( *o[ a ] ); VM_CHECK( !o[ a ]->get() && ( mo[ a ] ? c.get() && c->id == mo[ a ] : !c.get() ), "owner-copied", "a copied owner keeps its object" ); mo[ a ] = 0; vm::event( "copied and left" ); } break;
        case 5: { Owner c( *s[ a ] ); VM_CHECK( !s[ a ]->get() && ( ms[ a ] ? c.get() && c->id == ms[ a ] : !c.get() ), "owner-copied", "a converted owner keeps its object" ); ms[ a ] = 0; } break;
        case 6: { Thing* t = o[ a ]->release(); VM_CHECK( ( t ? t->id : 0 ) == mo[ a ] && !o[ a ]->get(), "owner-released", "a released object is another" ); delete t; mo[ a ] = 0; vm::event( "released" ); } break;
        case 7: o[ a ]->reset(); mo[ a ] = 0; break;
        case 8: o[ a ]->reset( new Thing( next ) ); mo[ a ] = next++; break;
        case 9: o[ a ]->reset( o[ a ]->get() ); vm::event( "reset to their own" ); break;
        case 10: { int id = consume( *o[ a ] ); VM_CHECK( id == mo[ a ], "owner-passed", "a function was given " << id << " for " << mo[ a ] ); mo[ a ] = 0; vm::event( "consumed" ); } break;
        case 11: *o[ a ] = pass( *o[ b ] ); { int id = mo[ b ]; mo[ b ] = 0; mo[ a ] = id; } vm::event( "passed through" ); break;
        case 12: s[ a ]->reset( new Special( next ) ); ms[ a ] = next++; break;
        case 13: *s[ a ] = make_special( next ); ms[ a ] = next++; break;
        default: { Owner c( make_special( next ) ); VM_CHECK( c.get() && c->id == next && ( *c ).id == next, "owner-made", "an owner made from a function's value lost it" ); ++next; } break;
      }
      int expect = 0;
      for( int k = 0; k < 4; ++k )
      {
        Thing* t = o[ static_cast< size_t >( k ) ]->get();
        Special* p = s[ static_cast< size_t >( k ) ]->get();
        int to = mo[ static_cast< size_t >( k ) ], ts = ms[ static_cast< size_t >( k ) ];
        VM_CHECK( ( t != nullptr ) == ( to != 0 ) && ( p != nullptr ) == ( ts != 0 ), "owner-holds", "after " << history << " an owner holds " << ( t || p ? "something" : "nothing" ) );
        if( t ) { VM_CHECK( Thing::all.count( t ) && t->id == to, "owner-holds", "after " << history << " an owner holds another object, or one that is gone" ); ++expect; }
        if( p ) { VM_CHECK( Thing::all.count( p ) && p->id == ts && p->more[ 3 ] == 4, "owner-holds", "after " << history << " an owner holds another object, or one that is gone" ); ++expect; }
      }
      VM_CHECK( Thing::alive == expect, "owner-alive", "after " << history << " " << Thing::alive << " objects live, " << expect << " are owned" );
    }
    vm::sig( history );
  }
  VM_CHECK( Thing::alive == 0, "owner-left", Thing::alive << " objects outlive their owners" );
  vm::event( "ownership histories" );
}

// -- what the headers say about the machine ------------------------------------------------
void machine( vm::Rng& r )
{
  uint32_t v = static_cast< uint32_t >( r.u64() );
  unsigned char b[ 4 ];
  std::memcpy( b, &v, 4 );
  bool little = b[ 0 ] == ( v & 255 ) && b[ 3 ] == ( v >> 24 );
  if( v == ( v >> 24 | ( v >> 8 & 0xff00 ) | ( v << 8 & 0xff0000 ) | v << 24 ) ) { return; }
  VM_CHECK( kwsys_CPU_ENDIAN_ID == ( little ? kwsys_CPU_ENDIAN_ID_LITTLE : kwsys_CPU_ENDIAN_ID_BIG ), "machine", "the byte order is stated wrong" );
  VM_CHECK( sizeof( kwsysFundamentalType_Int8 ) == 1 && sizeof( kwsysFundamentalType_Int16 ) == 2 && sizeof( kwsysFundamentalType_Int32 ) == 4 && sizeof( kwsysFundamentalType_Int64 ) == 8, "machine", "signed types" );
  VM_CHECK( sizeof( kwsysFundamentalType_UInt8 ) == 1 && sizeof( kwsysFundamentalType_UInt16 ) == 2 && sizeof( kwsysFundamentalType_UInt32 ) == 4 && sizeof( kwsysFundamentalType_UInt64 ) == 8, "machine", "unsigned types" );
}

void body( vm::Rng& r, uint64_t idx )
{
  machine( r );
  for( int i = 0; i < 6; ++i ) { bom( r, idx ); }
  terminal( r, idx );
  owners( r, idx );
}

} // namespace

VM_MAIN( body )
