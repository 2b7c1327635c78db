// K04: command lines are parsed as declared.
#include "vm.h"
#include <kwsys/CommandLineArguments.hxx>
#include <map>
#include <memory>

typedef std::string Str;
typedef std::vector< Str > Strs;
typedef kwsys::CommandLineArguments Args;

namespace {

enum Kind { BOOL, INT, DOUBLE, CHARS, STRING, VBOOL, VINT, VDOUBLE, VCHARS, VSTRING, CALLBACK, KINDS };

struct Call { Str name, value; void* data; bool null; };
std::vector< Call > calls;
std::vector< Str > unknown_calls;
int calls_left;                // until a callback refuses
int unknown_answer;
char cookie;

int callback( char const* a, char const* v, void* d )
{
  calls.push_back( Call{ a ? a : "", v ? v : "", d, !v } );
  return calls_left-- != 0;
}
int unknown( char const* a, void* d )
{
  unknown_calls.push_back( a );
  if( d != &cookie ) { unknown_calls.push_back( "wrong client data" ); }
  return unknown_answer;
}

struct Option
{
  Str name, help;
  Args::ArgumentTypeEnum form;
  Kind kind;
  // what the parser sets
  bool b = false; int i = -77; double d = -7.5; char* c = nullptr; Str s = "before";
  std::vector< bool > vb; std::vector< int > vi; std::vector< double > vd; std::vector< char* > vc; Strs vs;
  // what it should have got
  Strs got;
  bool vague = false;           // text that is not of the type
  ~Option() { delete[] c; for( char* p : vc ) { delete[] p; } }
  Option() = default;
  Option( Option const& ) = delete;
};

bool truth( Str const& v )
{
  for( char const* t : { "1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES" } ) { if( v == t ) { return true; } }
  return false;
}

Str name( vm::Rng& r, std::vector< std::unique_ptr< Option > > const& have )
{
  if( !have.empty() && r.chance( 2, 5 ) )
  {
    Str n = have[ r.below( have.size() ) ]->name;
    if( r.chance( 1, 3 ) && n.size() > 3 ) { return n.substr( 0, n.size() - 1 - r.below( n.size() - 2 ) ); }
    return n + r.str( "ab=-", 1, 3 );
  }
  if( r.chance( 1, 14 ) ) { return "--" + r.str( "ab", 60, 200 ); }
  return ( r.chance( 1, 3 ) ? "-" : r.chance( 1, 10 ) ? "" : "--" ) + r.str( "abc", 1, r.chance( 1, 2 ) ? 1 : 6 );
}

Str value( vm::Rng& r, Option& o, bool& exact )
{
  exact = true;
  switch( o.kind )
  {
  case BOOL: case VBOOL: return r.pick( Strs{ "1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES", "0", "OFF", "no", "2", "oN", "" , "true " } );
  case INT: case VINT:
    if( r.chance( 1, 12 ) ) { exact = false; return r.str( "12a.-", 0, 25 ); }
    return std::to_string( r.chance( 1, 4 ) ? r.pick( std::vector< int >{ 2147483647, -2147483647 - 1, 0, -1 } ) : static_cast< int >( r.range( -100000, 100000 ) ) );
  case DOUBLE: case VDOUBLE:
    if( r.chance( 1, 12 ) ) { exact = false; return r.str( "12a.e-", 0, 25 ); }
    { std::ostringstream s; s.precision( 17 ); s << r.real( -1e6, 1e6 ) * ( r.chance( 1, 4 ) ? 1e200 : 1. ); return s.str(); }
  default: return r.chance( 1, 10 ) ? "" : r.chance( 1, 20 ) ? r.str( "x", 1000, 5000 ) : r.str( "ab =-\"'", 0, 12 );
  }
}

void declare( Args& a, Option& o )
{
  char const* n = o.name.c_str(), * h = o.help.c_str();
  bool plain = o.form == Args::NO_ARGUMENT && o.name.size() % 2;
  switch( o.kind )
  {
  case BOOL: plain ? a.AddBooleanArgument( n, &o.b, h ) : a.AddArgument( n, o.form, &o.b, h ); break;
  case INT: plain ? a.AddBooleanArgument( n, &o.i, h ) : a.AddArgument( n, o.form, &o.i, h ); break;
  case DOUBLE: plain ? a.AddBooleanArgument( n, &o.d, h ) : a.AddArgument( n, o.form, &o.d, h ); break;
  case CHARS: plain ? a.AddBooleanArgument( n, &o.c, h ) : a.AddArgument( n, o.form, &o.c, h ); break;
  case STRING: plain ? a.AddBooleanArgument( n, &o.s, h ) : a.AddArgument( n, o.form, &o.s, h ); break;
  case VBOOL: a.AddArgument( n, o.form, &o.vb, h ); break;
  case VINT: a.AddArgument( n, o.form, &o.vi, h ); break;
  case VDOUBLE: a.AddArgument( n, o.form, &o.vd, h ); break;
  case VCHARS: a.AddArgument( n, o.form, &o.vc, h ); break;
  case VSTRING: a.AddArgument( n, o.form, &o.vs, h ); break;
  default: a.AddCallback( n, o.form, callback, &o, h ); break;
  }
}

void check( Option& o, Str const& what )
{
  if( o.vague ) { return; }
  std::ostringstream got;
  got.precision( 17 );
  bool ok = true, any = !o.got.empty();
  Str last = any ? o.got.back() : "";
  auto each = [ & ]( size_t n, std::function< bool( size_t ) > same ){ ok = n == o.got.size(); for( size_t k = 0; ok && k < n; ++k ) { ok = same( k ); } got << n << " values"; };
  switch( o.kind )
  {
  case BOOL: ok = o.b == ( any && truth( last ) ); got << o.b; break;
  case INT: ok = o.i == ( any ? std::atoi( last.c_str() ) : -77 ); got << o.i; break;
  case DOUBLE: ok = o.d == ( any ? std::strtod( last.c_str(), nullptr ) : -7.5 ); got << o.d; break;
  case CHARS: ok = any ? o.c && last == o.c : !o.c; got << ( o.c ? o.c : "null" ); break;
  case STRING: ok = o.s == ( any ? last : Str( "before" ) ); got << o.s; break;
  case VBOOL: each( o.vb.size(), [ & ]( size_t k ){ return o.vb[ k ] == truth( o.got[ k ] ); } ); break;
  case VINT: each( o.vi.size(), [ & ]( size_t k ){ return o.vi[ k ] == std::atoi( o.got[ k ].c_str() ); } ); break;
  case VDOUBLE: each( o.vd.size(), [ & ]( size_t k ){ return o.vd[ k ] == std::strtod( o.got[ k ].c_str(), nullptr ); } ); break;
  case VCHARS: each( o.vc.size(), [ & ]( size_t k ){ return o.got[ k ] == o.vc[ k ]; } ); break;
  case VSTRING: each( o.vs.size(), [ & ]( size_t k ){ return o.got[ k ] == o.vs[ k ]; } ); break;
  default: return;
  }
  VM_CHECK( ok, "value", "option " << vm::show( o.name ) << " of kind " << o.kind << " has " << vm::show( got.str() ) << " instead of " << o.got.size() << " values ending in " << vm::show( last ) << " after " << what );
}

Strs list( int argc, char** argv ) { return Strs( argv, argv + argc ); }

Str join( Strs const& v ) { Str r; for( auto const& s : v ) { r += "[" + ( s.size() > 60 ? s.substr( 0, 60 ) + "..." : s ) + "]"; } return r; }

Strs words( Str const& s )
{
  Strs r;
  std::istringstream in( s );
  Str w;
  while( in >> w ) { r.push_back( w ); }
  return r;
}

void one_line( vm::Rng& r )
{
  std::vector< std::unique_ptr< Option > > opts;
  Args a;
  bool store = r.chance( 1, 2 ), use_callback = r.chance( 1, 5 );
  calls.clear();
  unknown_calls.clear();
  calls_left = r.chance( 1, 4 ) ? static_cast< int >( r.below( 4 ) ) : 1000000;
  unknown_answer = r.chance( 1, 2 );
  unsigned length = r.chance( 1, 2 ) ? 80 : static_cast< unsigned >( r.range( 0, 120 ) );
  if( r.chance( 1, 2 ) ) { a.SetLineLength( length ); VM_CHECK( a.GetLineLength() == ( length >= 9 && length <= 1000 ? length : 80 ), "line-length", length ); }
  a.StoreUnusedArguments( store );
  if( use_callback ) { a.SetUnknownArgumentCallback( unknown ); a.SetClientData( &cookie ); }
  std::map< Str, Option* > by_name;
  for( unsigned n = static_cast< unsigned >( r.range( 0, 8 ) ); n; --n )
  {
    std::unique_ptr< Option > o( new Option );
    o->name = name( r, opts );
    o->form = static_cast< Args::ArgumentTypeEnum >( r.below( 5 ) );
    o->kind = static_cast< Kind >( r.below( KINDS ) );
    o->help = !opts.empty() && r.chance( 1, 5 ) ? opts[ r.below( opts.size() ) ]->name : r.chance( 1, 15 ) ? o->name : r.chance( 1, 8 ) ? r.str( " \tab", 0, 6 ) : r.str( "abcd   ", 0, r.chance( 1, 4 ) ? 400 : 30 );
    vm::note( "declare " + o->name + " help [" + o->help + "]" );
    declare( a, *o );
    by_name[ o->name ] = o.get();
    opts.push_back( std::move( o ) );
  }
  // an argument vector
  Strs argv( 1, r.chance( 1, 10 ) ? "" : "prog/" + r.str( "ab", 1, 5 ) );
  std::vector< bool > is_vague( 1, false );
  for( unsigned n = static_cast< unsigned >( r.chance( 1, 12 ) ? 0 : r.range( 1, 9 ) ); n; --n )
  {
    if( opts.empty() || r.chance( 1, 5 ) ) { argv.push_back( r.chance( 1, 2 ) ? r.str( "abc-=", 0, 6 ) : r.str( "xyz", 1, 6 ) ); continue; }
    Option& o = *opts[ r.below( opts.size() ) ];
    bool exact;
    switch( o.form )
    {
    case Args::NO_ARGUMENT: argv.push_back( o.name ); break;
    case Args::CONCAT_ARGUMENT: argv.push_back( o.name + value( r, o, exact ) ); break;
    case Args::EQUAL_ARGUMENT: argv.push_back( r.chance( 1, 10 ) ? o.name : o.name + "=" + value( r, o, exact ) ); break;
    case Args::SPACE_ARGUMENT: argv.push_back( o.name ); if( r.chance( 9, 10 ) ) { argv.push_back( value( r, o, exact ) ); } break;
    default: argv.push_back( o.name ); for( unsigned k = static_cast< unsigned >( r.below( 5 ) ); k; --k ) { argv.push_back( value( r, o, exact ) ); }
    }
    if( r.chance( 1, 10 ) ) { argv.back() += r.str( "abc=", 1, 2 ); }
  }
  Str what = join( argv );
  vm::note( "parse " + what );
  if( r.chance( 1, 2 ) )
  {
    std::vector< char const* > av;
    for( auto const& s : argv ) { av.push_back( s.c_str() ); }
    a.Initialize( static_cast< int >( argv.size() ), av.data() );
    VM_CHECK( argv[ 0 ] == a.GetArgv0(), "argv0", vm::show( a.GetArgv0() ) );
  }
  else
  {
    char const* none[] = { argv[ 0 ].c_str() };
    a.Initialize( 1, none );
    if( r.chance( 1, 2 ) ) { a.ProcessArgument( "left over" ); a.Initialize(); }
    for( size_t k = 1; k < argv.size(); ++k ) { a.ProcessArgument( argv[ k ].c_str() ); }
  }

  // what the declarations say
  auto find = [ & ]( Str const& arg )
  {
    Option* best = nullptr;
    for( auto const& e : by_name )
    {
      Str const& n = e.first;
      bool begins = arg.compare( 0, n.size(), n ) == 0;
      bool hit = arg == n;
      if( e.second->form == Args::CONCAT_ARGUMENT ) { hit = begins; }
      if( e.second->form == Args::EQUAL_ARGUMENT ) { hit = hit || ( begins && arg[ n.size() ] == '=' ); }
      if( hit && ( !best || n.size() > best->name.size() ) ) { best = e.second; }
    }
    return best;
  };
  std::vector< Call > want_calls;
  Strs want_unknown, unused;
  int want = 1, left = calls_left;
  size_t parsed = 0;                 // last of argv that was
  auto give = [ & ]( Option& o, Str const& v )
  {
    if( o.kind == CALLBACK ) { want_calls.push_back( Call{ o.name, v, &o, false } ); return left-- != 0; }
    o.got.push_back( v );
    if( o.kind == INT || o.kind == VINT ) { char* e; errno = 0; long l = std::strtol( v.c_str(), &e, 10 ); if( *e || v.empty() || errno || l != static_cast< int >( l ) ) { o.vague = true; vm::event( "not_a_number" ); } }
    if( o.kind == DOUBLE || o.kind == VDOUBLE ) { char* e; double x = std::strtod( v.c_str(), &e ); if( *e || v.empty() || !std::isfinite( x ) ) { o.vague = true; vm::event( "not_a_number" ); } }
    return true;
  };
  bool stopped = false;
  for( size_t k = 1; k < argv.size() && want && !stopped; ++k )
  {
    Option* o = find( argv[ k ] );
    if( !o )
    {
      vm::event( "unknown_arguments" );
      if( use_callback ) { want_unknown.push_back( argv[ k ] ); if( unknown_answer ) { parsed = k; stopped = true; } else { want = 0; } continue; }
      if( store ) { unused.push_back( argv[ k ] ); parsed = k; continue; }
      want = 0;
      continue;
    }
    Str const& arg = argv[ k ];
    switch( o->form )
    {
    case Args::NO_ARGUMENT: want = give( *o, "1" ); if( want ) { vm::event( "booleans" ); } break;
    case Args::CONCAT_ARGUMENT: want = give( *o, arg.substr( o->name.size() ) ); if( want ) { vm::event( "concatenated" ); } break;
    case Args::EQUAL_ARGUMENT:
      if( arg == o->name ) { want = 0; vm::event( "value_missing" ); } else { want = give( *o, arg.substr( o->name.size() + 1 ) ); if( want ) { vm::event( "with_equals" ); } }
      break;
    case Args::SPACE_ARGUMENT:
      if( k + 1 == argv.size() ) { want = 0; vm::event( "value_missing" ); } else { want = give( *o, argv[ k + 1 ] ); if( want ) { ++k; vm::event( "with_space" ); } }
      break;
    default:
    {
      size_t m = k;
      while( want && m + 1 < argv.size() && !find( argv[ m + 1 ] ) ) { want = give( *o, argv[ ++m ] ); }
      if( want ) { if( m > k + 1 ) { vm::event( "several_values" ); } k = m; }
    }
    }
    if( want ) { parsed = k; }
  }

  int got = a.Parse();
  VM_CHECK( got == want, want ? "refused" : "accepted", what << " gives " << got );
  VM_CHECK( calls.size() == want_calls.size(), "calls", calls.size() << " calls instead of " << want_calls.size() << " for " << what );
  for( size_t k = 0; k < calls.size(); ++k )
  {
    VM_CHECK( calls[ k ].name == want_calls[ k ].name && calls[ k ].data == want_calls[ k ].data, "calls", "call " << k << " is for " << calls[ k ].name << " instead of " << want_calls[ k ].name << " in " << what );
    VM_CHECK( !calls[ k ].null && calls[ k ].value == want_calls[ k ].value, "calls:value", "call " << k << " for " << calls[ k ].name << " has " << ( calls[ k ].null ? Str( "null" ) : vm::show( calls[ k ].value ) ) << " instead of " << vm::show( want_calls[ k ].value ) );
  }
  VM_CHECK( unknown_calls == want_unknown, "unknown", join( unknown_calls ) << " instead of " << join( want_unknown ) << " in " << what );
  for( auto const& o : opts ) { check( *o, what ); }
  int n = 0;
  char** v = nullptr;
  a.GetRemainingArguments( &n, &v );
  Strs rest = list( n, v ), want_rest( 1, argv[ 0 ] );
  a.DeleteRemainingArguments( n, &v );
  want_rest.insert( want_rest.end(), argv.begin() + static_cast< long >( parsed ) + 1, argv.end() );
  VM_CHECK( rest == want_rest, "remaining", join( rest ) << " instead of " << join( want_rest ) << " of " << what );
  if( argv.size() > 1 ) { VM_CHECK( a.GetLastArgument() == parsed, "last", a.GetLastArgument() << " instead of " << parsed << " of " << what ); }
  if( store )
  {
    a.GetUnusedArguments( &n, &v );
    Strs u = list( n, v );
    a.DeleteRemainingArguments( n, &v );
    unused.insert( unused.begin(), argv[ 0 ] );
    VM_CHECK( u == unused, "unused", join( u ) << " instead of " << join( unused ) << " of " << what );
    if( unused.size() > 1 && want ) { vm::event( "unused_stored" ); }
  }
  vm::event( want ? stopped ? "stopped" : "parsed" : "failed" );
  if( !want_calls.empty() ) { vm::event( "callbacks" ); }
  vm::sig( what );

  // the help
  vm::note( "help" );
  Str help = a.GetHelp();
  VM_CHECK( !a.GetHelp( "--no such option" ), "help:unknown", "there is help for an unknown option" );
  size_t column = 0;
  for( auto const& e : by_name )
  {
    Option* o = e.second;
    size_t steps = 0;
    while( by_name.count( o->help ) && steps <= by_name.size() ) { o = by_name[ o->help ]; ++steps; }
    char const* h = a.GetHelp( e.first.c_str() );
    VM_CHECK( h, "help:none", vm::show( e.first ) );
    if( steps > by_name.size() ) { vm::event( "aliases_in_circles" ); continue; }
    VM_CHECK( o->help == h, "help", vm::show( e.first ) << " has help " << vm::show( h ) << " instead of " << vm::show( o->help ) );
    static char const* const forms[] = { "", "opt", " opt", "=opt", " opt opt ..." };
    VM_CHECK( steps || help.find( "\n  " + e.first + forms[ e.second->form ] ) != Str::npos, "help:missing", vm::show( e.first ) << " is not in " << vm::show( help ) );
    if( steps ) { vm::event( "aliases" ); continue; }
    // its words, after its line
    Strs w = words( o->help );
    size_t at = help.find( "\n  " + e.first + forms[ e.second->form ] );
    bool longest = true;
    for( auto const& x : w ) { longest = longest && x.size() < 8; }
    if( longest && a.GetLineLength() > 260 ) { at = help.find( w.empty() ? "" : w[ 0 ], at ); VM_CHECK( at != Str::npos, "help:text", vm::show( e.first ) ); }
    // the texts begin one below the other
    if( o->form != 4 && opts.size() == by_name.size() && !w.empty() )
    {
      size_t from = help.find( "\n  " + e.first + forms[ o->form ] + " " ), begin = from;
      if( from != Str::npos )
      {
        begin = from + 3 + e.first.size() + Str( forms[ o->form ] ).size();
        while( begin < help.size() && help[ begin ] == ' ' ) { ++begin; }
        if( begin < help.size() && help[ begin ] != '\n' && help[ begin ] != '\t' )
        {
          if( column ) { VM_CHECK( begin - from == column, "help:column", "the text for " << vm::show( e.first ) << " begins in column " << begin - from << " instead of " << column << " of\n" << help ); vm::event( "help_columns" ); }
          column = begin - from;
        }
      }
    }
    if( e.first.size() > 75 ) { vm::event( "long_names_in_help" ); }
    vm::event( "helps" );
  }
  // nothing of the text is lost
  if( by_name.size() == 1 && opts.size() == 1 )
  {
    Str text;
    for( auto const& x : words( help ) ) { text += x; }
    Str want_text;
    static char const* const forms[] = { "", "opt", "opt", "=opt", "optopt..." };
    Option& o = *opts[ 0 ];
    for( auto const& x : words( o.name + forms[ o.form ] + " " + o.help ) ) { want_text += x; }
    VM_CHECK( text == want_text, "help:words", vm::show( help ) << " lacks some of " << vm::show( o.help ) );
    vm::event( "help_text_compared" );
  }
}

void one( vm::Rng& r, uint64_t )
{
  for( int k = 0; k < 10; ++k ) { one_line( r ); }
}

} // namespace

int main( int argc, char** argv ) { vm::quiet_stderr(); return vm::run( argc, argv, one ); }
