// K02: regular expressions find exactly what they define.
#include "vm.h"
#include <kwsys/RegularExpression.hxx>
#include <bitset>
#include <memory>
#include <pthread.h>

using kwsys::RegularExpression;
typedef std::string Str;

namespace {

// ---- a reading of the documented syntax, on its own ---------------------------
struct Node;
typedef std::shared_ptr< Node > NodeP;
typedef std::vector< NodeP > Seq;
struct Node
{
  enum Kind { CHAR, BOL, EOL, GROUP, REP } kind;
  std::bitset< 256 > set;
  int group = 0;
  std::vector< Seq > alts;      // of a group
  NodeP body;                   // of a repetition
  int min = 0;
  bool many = false;
};

struct Bad { };

class Parser
{
public:
  Parser( Str const& s ) : s_( s ) { }
  std::vector< Seq > all( bool& width )
  {
    auto r = alternatives( width );
    if( i_ != s_.size() ) { throw Bad(); }
    return r;
  }
  int groups = 0;
private:
  bool more() const { return i_ < s_.size(); }
  unsigned char at( size_t i ) const { return static_cast< unsigned char >( s_[ i ] ); }
  std::vector< Seq > alternatives( bool& width )
  {
    std::vector< Seq > r;
    width = true;
    while( true )
    {
      Seq q;
      bool any = false;
      while( more() && s_[ i_ ] != '|' && s_[ i_ ] != ')' ) { bool w; q.push_back( piece( w ) ); any = any || w; }
      if( !any ) { width = false; }
      r.push_back( q );
      if( !more() || s_[ i_ ] != '|' ) { return r; }
      ++i_;
    }
  }
  static bool op( char c ) { return c == '*' || c == '+' || c == '?'; }
  NodeP piece( bool& width )
  {
    NodeP a = atom( width );
    if( !more() || !op( s_[ i_ ] ) ) { return a; }
    char o = s_[ i_++ ];
    if( !width && o != '?' ) { throw Bad(); }
    NodeP n = std::make_shared< Node >();
    n->kind = Node::REP;
    n->body = a;
    n->min = o == '+';
    n->many = o != '?';
    width = o == '+';
    if( more() && op( s_[ i_ ] ) ) { throw Bad(); }
    return n;
  }
  NodeP atom( bool& width )
  {
    NodeP n = std::make_shared< Node >();
    n->kind = Node::CHAR;
    width = true;
    char c = s_[ i_++ ];
    switch( c )
    {
    case '^': n->kind = Node::BOL; width = false; break;
    case '$': n->kind = Node::EOL; width = false; break;
    case '.': n->set.set(); break;
    case '[': clazz( n->set ); break;
    case '(':
      n->kind = Node::GROUP;
      n->group = ++groups;
      if( groups >= 10 ) { throw Bad(); }
      n->alts = alternatives( width );
      if( !more() || s_[ i_ ] != ')' ) { throw Bad(); }
      ++i_;
      break;
    case '*': case '+': case '?': throw Bad();
    case '\\':
      if( !more() ) { throw Bad(); }
      n->set.set( at( i_++ ) );
      break;
    default: n->set.set( static_cast< unsigned char >( c ) );
    }
    return n;
  }
  void clazz( std::bitset< 256 >& set )
  {
    bool inv = more() && s_[ i_ ] == '^';
    if( inv ) { ++i_; }
    if( more() && ( s_[ i_ ] == ']' || s_[ i_ ] == '-' ) ) { set.set( at( i_++ ) ); }
    while( more() && s_[ i_ ] != ']' )
    {
      if( s_[ i_ ] != '-' || i_ + 1 >= s_.size() || s_[ i_ + 1 ] == ']' ) { set.set( at( i_++ ) ); continue; }
      int from = at( i_ - 1 ), to = at( i_ + 1 );
      if( from > to ) { throw Bad(); }
      for( int k = from; k <= to; ++k ) { set.set( static_cast< size_t >( k ) ); }
      i_ += 2;
    }
    if( !more() ) { throw Bad(); }
    ++i_;
    if( inv ) { set.flip(); }
  }
  Str const& s_;
  size_t i_ = 0;
};

struct TooLong { };

class Matcher
{
public:
  Matcher( std::vector< Seq > const& alts, Str const& t ) : alts_( alts ), t_( t ) { }
  bool find()
  {
    for( size_t s = 0; s <= t_.size(); ++s )
    {
      for( auto& g : cap ) { g = std::make_pair( -1L, -1L ); }
      size_t end = 0;
      if( alternatives( alts_, s, [ & ]( size_t e ){ end = e; return true; } ) )
      {
        cap[ 0 ] = std::make_pair( static_cast< long >( s ), static_cast< long >( end ) );
        return true;
      }
    }
    return false;
  }
  // is [a, b) accepted as the whole?
  bool accepts( size_t a, size_t b )
  {
    for( auto& g : cap ) { g = std::make_pair( -1L, -1L ); }
    return alternatives( alts_, a, [ b ]( size_t e ){ return e == b; } );
  }
  std::pair< long, long > cap[ 10 ];
  size_t steps = 0;
private:
  typedef std::function< bool( size_t ) > Cont;
  bool alternatives( std::vector< Seq > const& a, size_t p, Cont const& k )
  {
    for( auto const& s : a ) { if( sequence( s, 0, p, k ) ) { return true; } }
    return false;
  }
  bool sequence( Seq const& s, size_t i, size_t p, Cont const& k )
  {
    if( i == s.size() ) { return k( p ); }
    return node( *s[ i ], p, [ & ]( size_t q ){ return sequence( s, i + 1, q, k ); } );
  }
  bool node( Node const& n, size_t p, Cont const& k )
  {
    if( ++steps > 60000 ) { throw TooLong(); }
    switch( n.kind )
    {
    case Node::CHAR: return p < t_.size() && n.set.test( static_cast< unsigned char >( t_[ p ] ) ) && k( p + 1 );
    case Node::BOL: return p == 0 && k( p );
    case Node::EOL: return p == t_.size() && k( p );
    case Node::GROUP:
      return alternatives( n.alts, p, [ & ]( size_t q )
      {
        auto old = cap[ n.group ];
        cap[ n.group ] = std::make_pair( static_cast< long >( p ), static_cast< long >( q ) );
        if( k( q ) ) { return true; }
        cap[ n.group ] = old;
        return false;
      } );
    case Node::REP: return repeat( n, 0, p, k );
    }
    return false;
  }
  bool repeat( Node const& n, int done, size_t p, Cont const& k )
  {
    if( ( n.many || done == 0 ) && node( *n.body, p, [ & ]( size_t q ){ return repeat( n, done + 1, q, k ); } ) ) { return true; }
    return done >= n.min && k( p );
  }
  std::vector< Seq > const& alts_;
  Str const& t_;
};

// ---- patterns ----------------------------------------------------------------
char letter( vm::Rng& r ) { return r.pick( "aaaabbbc-]\x80\xff\n" ); }

Str gen_class( vm::Rng& r )
{
  Str s = "[";
  if( r.chance( 1, 3 ) ) { s += '^'; }
  if( r.chance( 1, 8 ) ) { s += r.pick( "]-" ); }
  for( unsigned n = static_cast< unsigned >( r.range( 1, 4 ) ); n; --n )
  {
    char c = r.pick( "abcxyz019.*+?()|$^\\\x01\x7f\x80\xff" );
    s += c;
    if( r.chance( 1, 4 ) ) { s += '-'; s += static_cast< char >( std::min( 255, static_cast< unsigned char >( c ) + static_cast< int >( r.below( r.chance( 1, 6 ) ? 200 : 4 ) ) ) ); if( s[ s.size() - 1 ] == ']' ) { s[ s.size() - 1 ] = '^'; } }
  }
  if( r.chance( 1, 8 ) ) { s += '-'; }
  return s + "]";
}

Str gen_alts( vm::Rng& r, int depth, int& groups );
Str gen_atom( vm::Rng& r, int depth, int& groups )
{
  switch( r.below( 14 ) )
  {
  case 0: case 1: return ".";
  case 2: case 3: return gen_class( r );
  case 4: return Str( "\\" ) + r.pick( "^$.[()|?+*\\a]-" );
  case 5: return r.chance( 1, 2 ) ? "^" : "$";
  case 6: case 7: case 8:
    if( depth > 0 && groups < 9 ) { ++groups; Str b = gen_alts( r, depth - 1, groups ); return "(" + b + ")"; }
    return "b";
  case 9: return Str( 1, letter( r ) ) + letter( r ) + letter( r );
  default: return Str( 1, letter( r ) );
  }
}
Str gen_alts( vm::Rng& r, int depth, int& groups )
{
  Str s;
  unsigned n = r.chance( 2, 3 ) ? 1 : static_cast< unsigned >( r.range( 2, 3 ) );
  for( unsigned k = 0; k < n; ++k )
  {
    if( k ) { s += "|"; }
    for( unsigned m = static_cast< unsigned >( r.chance( 1, 12 ) ? 0 : r.range( 1, 4 ) ); m; --m )
    {
      s += gen_atom( r, depth, groups );
      if( r.chance( 2, 5 ) ) { s += r.pick( "*+?" ); }
    }
  }
  return s;
}

Str gen_pattern( vm::Rng& r )
{
  if( r.chance( 1, 5 ) ) { return r.str( "ab^$.[]()|?+*\\-", 0, 14 ); }       // whatever
  int groups = 0;
  Str p = gen_alts( r, static_cast< int >( r.range( 0, 3 ) ), groups );
  if( r.chance( 1, 8 ) && !p.empty() ) { p.erase( r.below( p.size() ), 1 ); }  // not quite
  return p;
}

// what a sequence accepts, roughly
void derive( Seq const& s, vm::Rng& r, Str& out, int budget )
{
  for( auto const& n : s )
  {
    switch( n->kind )
    {
    case Node::CHAR: { for( int k = 0; k < 40; ++k ) { unsigned char c = static_cast< unsigned char >( k < 20 ? letter( r ) : r.range( 1, 255 ) ); if( n->set.test( c ) ) { out += static_cast< char >( c ); break; } } break; }
    case Node::GROUP: derive( n->alts[ r.below( n->alts.size() ) ], r, out, budget ); break;
    case Node::REP:
    {
      Seq one( 1, n->body );
      int times = static_cast< int >( n->many ? r.range( n->min, 3 ) : r.range( 0, 1 ) );
      for( ; times > 0 && static_cast< int >( out.size() ) < budget; --times ) { derive( one, r, out, budget ); }
      break;
    }
    default: break;
    }
  }
}

Str gen_text( vm::Rng& r, std::vector< Seq > const& alts )
{
  auto noise = [ & ]( int n ){ Str s; for( ; n > 0; --n ) { s += letter( r ); } return s; };
  Str t;
  if( r.chance( 2, 3 ) )
  {
    Str d;
    derive( alts[ r.below( alts.size() ) ], r, d, 12 );
    if( r.chance( 1, 4 ) && !d.empty() ) { d[ r.below( d.size() ) ] = letter( r ); }
    t = noise( static_cast< int >( r.chance( 1, 2 ) ? 0 : r.range( 1, 5 ) ) ) + d + noise( static_cast< int >( r.chance( 1, 2 ) ? 0 : r.range( 1, 5 ) ) );
  }
  else { t = noise( static_cast< int >( r.range( 0, 14 ) ) ); }
  if( t.size() > 40 ) { t.resize( 40 ); }
  return t;
}

#define WHERE vm::show( p ) << " in " << vm::show( t )

void same_state( RegularExpression const& a, RegularExpression const& b, int groups, Str const& p, Str const& t )
{
  for( int g = 0; g <= groups; ++g )
  {
    VM_CHECK( a.match( g ) == b.match( g ), "copy:match", WHERE << " group " << g << ": " << vm::show( a.match( g ) ) << " and of the copy " << vm::show( b.match( g ) ) );
  }
  VM_CHECK( a.start() == b.start() && a.end() == b.end(), "copy:position", WHERE );
}

bool check_find( RegularExpression& re, std::vector< Seq > const& alts, int groups, Str const& p, Str const& t, vm::Rng& r )
{
  Matcher m( alts, t );
  bool want;
  try { want = m.find(); }
  catch( TooLong const& ) { vm::event( "too_long" ); return false; }
  // a buffer of exactly the text
  std::unique_ptr< char[] > buf( new char[ t.size() + 1 ] );
  std::memcpy( buf.get(), t.c_str(), t.size() + 1 );
  vm::note( "pattern " + vm::show( p ) + " text " + vm::show( t ) );
  bool got = r.chance( 1, 2 ) ? re.find( buf.get() ) : re.find( t );
  if( got ) { got = re.find( buf.get() ); VM_CHECK( got, "find:again", WHERE ); }
  VM_CHECK( got == want, "find", WHERE << ( want ? " is not found at " : " is found " ) << ( want ? m.cap[ 0 ].first : 0L ) );
  if( !got ) { vm::event( "absent" ); return false; }
  size_t s = re.start(), e = re.end();
  VM_CHECK( s <= e && e <= t.size() && re.start( 0 ) == s && re.end( 0 ) == e, "find:range", WHERE << " at " << s << " to " << e );
  VM_CHECK( static_cast< long >( s ) == m.cap[ 0 ].first, "find:leftmost", WHERE << " found at " << s << " instead of " << m.cap[ 0 ].first );
  VM_CHECK( re.match( 0 ) == t.substr( s, e - s ), "match", WHERE );
  std::vector< std::pair< long, long > > want_cap( m.cap, m.cap + 10 );
  Matcher whole( alts, t );
  bool ok = true;
  try { ok = whole.accepts( s, e ); } catch( TooLong const& ) { }
  VM_CHECK( ok, "find:accepted", WHERE << " found " << vm::show( re.match( 0 ) ) << " which it does not accept" );
  VM_CHECK( static_cast< long >( e ) == want_cap[ 0 ].second, "find:greedy", WHERE << " found " << vm::show( re.match( 0 ) ) << " instead of up to " << want_cap[ 0 ].second );
  for( int g = 1; g < 10; ++g )
  {
    Str mg = re.match( g );
    auto c = want_cap[ static_cast< size_t >( g ) ];
    if( c.first < 0 ) { VM_CHECK( mg.empty(), "group:unused", WHERE << " group " << g << " is " << vm::show( mg ) ); continue; }
    VM_CHECK( re.start( g ) == static_cast< size_t >( c.first ) && re.end( g ) == static_cast< size_t >( c.second ) && mg == t.substr( static_cast< size_t >( c.first ), static_cast< size_t >( c.second - c.first ) ),
              "group", WHERE << " group " << g << " is " << vm::show( mg ) << " at " << re.start( g ) << " instead of " << c.first << " to " << c.second );
    vm::event( "groups_found" );
  }
  if( s ) { vm::event( "found_later" ); }
  vm::event( "found" );
  (void)groups;
  return true;
}

void pattern( vm::Rng& r )
{
  Str p = gen_pattern( r );
  vm::note( "compile " + vm::show( p ) );
  Parser parser( p );
  std::vector< Seq > alts;
  bool valid = true, width;
  try { alts = parser.all( width ); }
  catch( Bad const& ) { valid = false; }
  RegularExpression re;
  VM_CHECK( !re.is_valid() && !re.find( "a" ), "empty", "an empty expression is valid or finds something" );
  bool other_way = r.chance( 1, 3 );
  if( other_way )
  {
    RegularExpression direct( p ), direct2( p.c_str() );
    VM_CHECK( direct.is_valid() == valid && direct2.is_valid() == valid, valid ? "compile:refused" : "compile:accepted", vm::show( p ) );
    VM_CHECK( direct == direct2 && !( direct != direct2 ), "equal", vm::show( p ) );
    re = direct;
  }
  else
  {
    bool ok = r.chance( 1, 2 ) ? re.compile( p ) : re.compile( p.c_str() );
    VM_CHECK( ok == valid, valid ? "compile:refused" : "compile:accepted", vm::show( p ) );
  }
  VM_CHECK( re.is_valid() == valid, "valid", vm::show( p ) );
  if( !valid )
  {
    vm::event( "invalid_patterns" );
    VM_CHECK( !re.find( "ab" ), "invalid:find", vm::show( p ) );
    RegularExpression c( re ), d( "a" );
    d = re;
    VM_CHECK( !c.is_valid() && !d.is_valid() && !d.find( "a" ), "invalid:copy", vm::show( p ) );
    VM_CHECK( c == re && d == c && !( c != d ) && c.deep_equal( d ), "invalid:equal", vm::show( p ) );
    RegularExpression v( "a" );
    VM_CHECK( v != c && c != v && !v.deep_equal( c ) && !c.deep_equal( v ), "invalid:equal", vm::show( p ) );
    VM_CHECK( re.compile( "a(b)" ) && re.find( "xab" ) && re.match( 1 ) == "b", "invalid:recover", vm::show( p ) );
    return;
  }
  vm::event( "valid_patterns" );
  if( parser.groups == 9 ) { vm::event( "nine_groups" ); }
  vm::sig( p );
  for( int k = 0; k < 6; ++k )
  {
    Str t = gen_text( r, alts );
    if( r.chance( 1, 3 ) )
    {
      // a copy finds the same
      RegularExpression c( re ), d( "zz(z)" );
      d = re;
      VM_CHECK( c == re && d == re && !( c != re ), "copy:equal", vm::show( p ) );
      check_find( c, alts, parser.groups, p, t, r );
      check_find( d, alts, parser.groups, p, t, r );
    }
    if( check_find( re, alts, parser.groups, p, t, r ) )
    {
      re.find( t );
      // a copy remembers what was found
      RegularExpression c( re ), d, e( "y" );
      same_state( re, c, parser.groups, p, t );
      d = re;
      e = d;
      e = *&e;
      same_state( re, d, parser.groups, p, t );
      same_state( re, e, parser.groups, p, t );
      VM_CHECK( re.deep_equal( c ) && c.deep_equal( e ), "copy:deep-equal", WHERE );
      { RegularExpression gone( e ); e = gone; }
      same_state( re, e, parser.groups, p, t );
      vm::event( "copied_after_find" );
    }
  }
  // used again for another pattern
  if( r.chance( 1, 4 ) )
  {
    Str p2 = gen_pattern( r );
    Parser q( p2 );
    std::vector< Seq > a2;
    bool ok = true;
    try { a2 = q.all( width ); } catch( Bad const& ) { ok = false; }
    VM_CHECK( re.compile( p2 ) == ok, ok ? "compile:refused" : "compile:accepted", vm::show( p2 ) );
    if( ok )
    {
      check_find( re, a2, q.groups, p2, gen_text( r, a2 ), r );
      RegularExpression one( p );
      VM_CHECK( ( p == p2 ) <= ( one == re ), "equal", vm::show( p ) );
      Str probe = gen_text( r, a2 );
      if( one == re ) { VM_CHECK( one.find( probe ) == re.find( probe ), "equal", vm::show( p ) << " equals " << vm::show( p2 ) ); }
      vm::event( "recompiled" );
    }
    re.set_invalid();
    VM_CHECK( !re.is_valid() && !re.find( p2 ), "set-invalid", vm::show( p2 ) );
    re.set_invalid();
  }
}

// patterns and texts of great length
void large( vm::Rng& r )
{
  size_t n = static_cast< size_t >( r.chance( 1, 2 ) ? r.range( 100, 20000 ) : r.range( 32500, 70000 ) );
  Str lit( n, 'x' );
  for( int k = 0; k < 5; ++k ) { lit[ r.below( n ) ] = r.pick( "abc" ); }
  Str p = lit;
  int kind = static_cast< int >( r.below( 4 ) );
  if( kind == 1 ) { p = "(" + lit.substr( 0, n / 2 ) + "|" + lit.substr( n / 2 ) + ")+$"; }
  if( kind == 2 ) { p.clear(); for( size_t k = 0; k < n / 8; ++k ) { p += "a?b*[c]"; } }
  if( kind == 3 ) { p = "^[a-x]*" + lit + "?"; }
  vm::note( "large " + std::to_string( p.size() ) + " of kind " + std::to_string( kind ) );
  RegularExpression re;
  bool ok = re.compile( p );
  if( p.size() < 5000 ) { VM_CHECK( ok, "large:refused", p.size() << " of kind " << kind ); }
  if( p.size() > 32767 ) { VM_CHECK( !ok, "large:accepted", p.size() << " of kind " << kind ); }
  VM_CHECK( re.is_valid() == ok, "valid", "large" );
  if( !ok ) { VM_CHECK( !re.find( p ), "large:invalid", p.size() ); vm::event( "too_big" ); return; }
  vm::event( "large" );
  Str t = kind == 0 ? "ab" + lit + "c" : kind == 1 ? lit + lit : kind == 2 ? Str( p.size() / 7, 'c' ) : lit;
  Str want = kind == 2 ? t : lit;
  VM_CHECK( re.find( t ), "large:find", p.size() << " of kind " << kind );
  if( kind == 0 ) { VM_CHECK( re.start() == 2 && re.end() == 2 + n, "large:range", re.start() << " to " << re.end() ); }
  else { VM_CHECK( re.start() == 0 && re.end() == t.size(), "large:range", re.start() << " to " << re.end() << " of kind " << kind ); }
  // one character off
  if( kind != 3 )
  {
    Str w = t;
    if( kind == 2 ) { w.erase( 0, 1 ); } else { w[ kind == 0 ? 2 + r.below( n ) : w.size() - 1 ] = '#'; }
    VM_CHECK( !re.find( w ), "large:false", p.size() << " of kind " << kind );
  }
  RegularExpression c( re );
  VM_CHECK( c == re && c.find( t ), "large:copy", p.size() );
  // simple repetitions over a long text
  Str text( static_cast< size_t >( r.range( 1000, 200000 ) ), 'a' );
  RegularExpression simple( "^a*(a)[^b]+b?$" );
  VM_CHECK( simple.is_valid() && simple.find( text ) && simple.end() == text.size() && simple.match( 1 ) == "a", "long-text", text.size() );
  RegularExpression none( "[ab]+c" );
  VM_CHECK( !none.find( text.substr( 0, 2000 ) ), "long-text", "found c" );
  vm::event( "long_texts" );
}

void one( vm::Rng& r, uint64_t i )
{
  for( int k = 0; k < 25; ++k ) { pattern( r ); }
  if( i % 16 == 3 ) { large( r ); }
}

void* deep( void* )
{
  Str text( 3000000, 'a' );
  text += "c";
  RegularExpression re( "(a|b)*c" );
  return re.find( text ) && re.end() == text.size() ? const_cast< char* >( "found" ) : nullptr;
}

// repetitions of groups over a long text, with the usual stack
void repetition( vm::Rng& r, uint64_t )
{
  if( !r.chance( 1, 1 ) ) { return; }
  pid_t pid = ::fork();
  if( pid == 0 )
  {
    std::signal( SIGSEGV, SIG_DFL );
    pthread_attr_t a;
    pthread_attr_init( &a );
    pthread_attr_setstacksize( &a, 8u << 20 );
    pthread_t th;
    void* got = nullptr;
    if( pthread_create( &th, &a, deep, nullptr ) ) { std::_Exit( 3 ); }
    pthread_join( th, &got );
    std::_Exit( got ? 0 : 1 );
  }
  int status = 0;
  ::waitpid( pid, &status, 0 );
  vm::event( "deep_repetitions" );
  VM_CHECK( !WIFSIGNALED( status ), "repetition:stack", "matching (a|b)*c against 3000000 characters ends the process with signal " << WTERMSIG( status ) );
  VM_CHECK( WIFEXITED( status ) && WEXITSTATUS( status ) == 0, "repetition:result", "matching (a|b)*c against 3000000 characters" );
}

} // namespace

#ifdef K02_DEEP
VM_MAIN( repetition )
#else
VM_MAIN( one )
#endif
