// C01: random histories on config blocks, views of views and copies, against a
// plain map with a read-only set. Oracle: after every operation the outcome
// (value or kind of exception) and the complete observable state agree.
#include "vm.h"
#include <vital/config/config_block.h>
#include <memory>

using namespace kwiver::vital;

namespace {

struct Entry { std::string value, descr; bool has_loc; std::string file; int line; };
struct Model
{
  std::map< std::string, Entry > m;
  std::set< std::string > ro;
};
typedef std::shared_ptr< Model > model_sptr;

struct Handle
{
  config_block_sptr c;
  model_sptr m;
  std::vector< std::string > prefix;   // of views, outermost first
  std::string name;
};

bool is_global( std::string const& k ) { return k.compare( 0, 8, "_global:" ) == 0; }

// the key as the root knows it
std::string full( Handle const& h, std::string const& key )
{
  std::string k = key;
  for( size_t i = h.prefix.size(); i-- > 0; )
  {
    if( !is_global( k ) ) { k = h.prefix[ i ] + ":" + k; }
  }
  return k;
}

bool starts( std::string const& s, std::string const& p ) { return s.compare( 0, p.size(), p ) == 0; }

std::set< std::string > keys_of( Handle const& h )
{
  std::set< std::string > cur;
  for( auto const& e : h.m->m ) { cur.insert( e.first ); }
  for( auto const& p : h.prefix )
  {
    std::set< std::string > nxt;
    for( auto const& k : cur )
    {
      if( starts( k, p + ":" ) ) { nxt.insert( k.substr( p.size() + 1 ) ); }
      else if( is_global( k ) ) { nxt.insert( k ); }
    }
    cur = nxt;
  }
  return cur;
}

std::string trimmed( std::string s )
{
  char const* ws = " \t\n\v\f\r";
  size_t a = s.find_first_not_of( ws );
  if( a == std::string::npos ) { return ""; }
  size_t b = s.find_last_not_of( ws );
  return s.substr( a, b - a + 1 );
}

std::string gen_key( vm::Rng& r )
{
  static std::vector< std::string > const fixed = {
    "a", "ab", "b", "a:b", "a:bc", "ab:c", "a:b:c", "a:b:c:d", "b:a", "b:a:b", "a:a", "a:a:a", "x", "x:y", "x:yz", "_global:g", "_global:g:h",
    "_globalx", "A", "a:B", "type", "a:type" };
  if( r.chance( 17, 20 ) ) { return r.pick( fixed ); }
  std::string k;
  long n = r.range( 1, 4 );
  for( long i = 0; i < n; ++i ) { k += ( i ? ":" : "" ) + r.str( "abxy_.-1", 1, 3 ); }
  return k;
}

std::string gen_block( vm::Rng& r )
{
  static std::vector< std::string > const b = { "a", "b", "ab", "a:b", "x", "a:b:c", "none", "a:a" };
  return r.pick( b );
}

std::string gen_value( vm::Rng& r )
{
  switch( r.below( 6 ) )
  {
  case 0: return vm::str( r.range( -1000000, 1000000 ) );
  case 1: return "  padded " + r.str( "ab c", 0, 5 ) + " \t";
  case 2: return "";
  case 3: return r.str( "abcdefgh =:#\"\\\t", 0, 40 );
  case 4: return std::string( "v\xc3\xa9\xff " ) + r.str( "xyz", 1, 4 );
  default: return r.str( "0123456789abcdef", 1, 12 );
  }
}

enum Outcome { OK, RO_SET, RO_UNSET, MISSING, OTHER };
char const* const outcome_name[] = { "ok", "read-only-set", "read-only-unset", "missing", "other" };

template < class F > Outcome attempt( F f )
{
  try { f(); return OK; }
  catch( set_on_read_only_value_exception const& ) { return RO_SET; }
  catch( unset_on_read_only_value_exception const& ) { return RO_UNSET; }
  catch( no_such_configuration_value_exception const& ) { return MISSING; }
  catch( std::exception const& ) { return OTHER; }
}

void observe( Handle const& h, std::string const& log )
{
  std::set< std::string > want = keys_of( h );
  config_block_keys_t got_v = h.c->available_values();
  std::set< std::string > got( got_v.begin(), got_v.end() );
  VM_CHECK( got.size() == got_v.size(), "available-values-duplicates", log );
  if( got != want )
  {
    std::string d;
    for( auto const& k : want ) { if( !got.count( k ) ) { d += " lost[" + k + "]"; } }
    for( auto const& k : got ) { if( !want.count( k ) ) { d += " extra[" + k + "]"; } }
    VM_FAIL( "available-values", d << "\n" << log );
  }
  VM_CHECK( h.c->get_name() == h.name, "name", h.c->get_name() << " expected " << h.name << "\n" << log );
  for( auto const& k : want )
  {
    Entry const& e = h.m->m[ full( h, k ) ];
    VM_CHECK( h.c->has_value( k ), "has-value-of-available", k << "\n" << log );
    std::string v = h.c->get_value< std::string >( k );
    VM_CHECK( v == e.value, "value", k << ": got " << vm::show( v ) << " expected " << vm::show( e.value ) << "\n" << log );
    std::string d = h.c->get_description( k );
    VM_CHECK( d == e.descr, "description", k << ": got " << vm::show( d ) << " expected " << vm::show( e.descr ) << "\n" << log );
    bool ro = h.m->ro.count( full( h, k ) ) > 0;
    VM_CHECK( h.c->is_read_only( k ) == ro, "read-only-state", k << " expected " << ro << "\n" << log );
    std::string file = "unset";
    int line = -7;
    bool loc = h.c->get_location( k, file, line );
    VM_CHECK( loc == e.has_loc, "location-presence", k << "\n" << log );
    if( loc ) { VM_CHECK( file == e.file && line == e.line, "location", k << " " << file << ":" << line << "\n" << log ); }
    else { VM_CHECK( file == "unset" && line == -7, "location-output-touched", k << "\n" << log ); }
  }
  vm::event( "observed_entries", want.size() );
}

void one( vm::Rng& r, uint64_t )
{
  std::vector< Handle > hs;
  std::string log;
  auto new_root = [ & ]() {
    Handle h;
    h.name = r.chance( 1, 2 ) ? "" : "cfg";
    h.c = config_block::empty_config( h.name );
    h.m = std::make_shared< Model >();
    hs.push_back( h );
  };
  new_root();
  uint64_t shape = 1;
  long nops = r.range( 10, 60 );
  // half of the histories keep coming back to a few keys
  std::vector< std::string > pool;
  if( r.chance( 1, 2 ) ) { for( size_t i = 1 + r.below( 5 ); i > 0; --i ) { pool.push_back( gen_key( r ) ); } }
  std::set< std::pair< Model*, std::string > > was_located;
  for( long op = 0; op < nops; ++op )
  {
    size_t hi = r.below( hs.size() );
    Handle h = hs[ hi ];
    std::string key = !pool.empty() && r.chance( 4, 5 ) ? r.pick( pool ) : gen_key( r );
    std::string fk = full( h, key );
    std::ostringstream l;
    l << "#" << hi << "(depth " << h.prefix.size() << ") ";
    unsigned what = static_cast< unsigned >( r.below( 100 ) );
    unsigned kind = 99;
    if( what < 30 )
    {
      std::string v = gen_value( r );
      std::string d = r.chance( 1, 2 ) ? "" : r.str( "descr ", 1, 8 );
      bool with = r.chance( 2, 3 );
      l << "set " << key << " = " << vm::show( v ) << ( with ? " descr " + vm::show( d ) : "" );
      log += l.str() + "\n";
      vm::note( log.size() > 3000 ? log.substr( log.size() - 3000 ) : log );
      Outcome o = attempt( [ & ] { if( with ) { h.c->set_value( key, v, d ); } else { h.c->set_value( key, v ); } } );
      Outcome want = h.m->ro.count( fk ) ? RO_SET : OK;
      VM_CHECK( o == want, "set-outcome", outcome_name[ o ] << " expected " << outcome_name[ want ] << "\n" << log );
      if( o == OK )
      {
        if( !h.m->m.count( fk ) )
        {
          h.m->m[ fk ] = Entry{ "", "", false, "", 0 };
          if( was_located.count( std::make_pair( h.m.get(), fk ) ) ) { vm::event( "located_entry_made_anew" ); }
        }
        Entry& e = h.m->m[ fk ];
        e.value = trimmed( v );
        if( with && !d.empty() ) { e.descr = d; }
        kind = 0;
      }
      else { vm::event( "set_refused" ); kind = 1; }
    }
    else if( what < 42 )
    {
      l << "unset " << key;
      log += l.str() + "\n";
      vm::note( log.size() > 3000 ? log.substr( log.size() - 3000 ) : log );
      Outcome o = attempt( [ & ] { h.c->unset_value( key ); } );
      bool ro = h.m->ro.count( fk ) > 0, there = h.m->m.count( fk ) > 0;
      if( ro && there ) { VM_CHECK( o == RO_UNSET, "unset-outcome", outcome_name[ o ] << "\n" << log ); }
      else if( ro ) { VM_CHECK( o == RO_UNSET || o == MISSING, "unset-outcome", outcome_name[ o ] << "\n" << log ); }
      else { VM_CHECK( o == ( there ? OK : MISSING ), "unset-outcome", outcome_name[ o ] << "\n" << log ); }
      if( o == OK ) { h.m->m.erase( fk ); vm::event( "unset_done" ); kind = 2; }
      else { kind = 3; }
    }
    else if( what < 49 )
    {
      l << "mark_read_only " << key;
      log += l.str() + "\n";
      h.c->mark_read_only( key );
      h.m->ro.insert( fk );
      VM_CHECK( h.c->is_read_only( key ), "mark-read-only-postcondition", log );
      kind = h.prefix.empty() ? 4 : 5;
      if( kind == 5 ) { vm::event( "read_only_marked_through_view" ); }
    }
    else if( what < 60 )
    {
      std::string b = gen_block( r );
      l << "view " << b << " -> #" << hs.size();
      log += l.str() + "\n";
      Handle v = h;
      v.c = h.c->subblock_view( b );
      v.prefix.push_back( b );
      v.name = b;
      hs.push_back( v );
      kind = 6;
      vm::event( v.prefix.size() > 1 ? "nested_view" : "view" );
    }
    else if( what < 67 )
    {
      std::string b = gen_block( r );
      l << "copy of subblock " << b << " -> #" << hs.size();
      log += l.str() + "\n";
      Handle v;
      v.c = h.c->subblock( b );
      v.name = b;
      v.m = std::make_shared< Model >();
      for( auto const& k : keys_of( h ) )
      {
        Entry e = h.m->m[ full( h, k ) ];
        e.has_loc = false;
        if( starts( k, b + ":" ) ) { v.m->m[ k.substr( b.size() + 1 ) ] = e; }
        else if( is_global( k ) ) { v.m->m[ k ] = e; }
      }
      hs.push_back( v );
      observe( v, log );
      kind = 7;
      vm::event( "subblock_copy", 1 );
    }
    else if( what < 78 )
    {
      size_t oi = r.below( hs.size() );
      Handle o = hs[ oi ];
      l << "merge #" << oi;
      log += l.str() + "\n";
      vm::note( log.size() > 3000 ? log.substr( log.size() - 3000 ) : log );
      std::map< std::string, Entry > src;
      bool blocked = false;
      for( auto const& k : keys_of( o ) )
      {
        src[ k ] = o.m->m[ full( o, k ) ];
        blocked = blocked || h.m->ro.count( full( h, k ) );
      }
      if( o.m == h.m ) { continue; }   // merging a block into itself is not specified
      Outcome res = attempt( [ & ] { h.c->merge_config( o.c ); } );
      VM_CHECK( res == ( blocked ? RO_SET : OK ), "merge-outcome", outcome_name[ res ] << "\n" << log );
      for( auto const& s : src )
      {
        std::string f = full( h, s.first );
        bool ro = h.m->ro.count( f ) > 0;
        bool had = h.m->m.count( f ) > 0;
        Entry before = had ? h.m->m[ f ] : Entry{ "", "", false, "", 0 };
        Entry after = before;
        after.value = s.second.value;
        if( !s.second.descr.empty() || !had ) { after.descr = s.second.descr; }
        if( ro ) { continue; }
        if( !blocked ) { h.m->m[ f ] = after; continue; }
        // partially complete is allowed: either state
        bool now = h.c->has_value( s.first );
        VM_CHECK( now || !had, "merge-lost-entry", s.first << "\n" << log );
        if( now )
        {
          std::string v = h.c->get_value< std::string >( s.first ), d = h.c->get_description( s.first );
          bool as_after = v == after.value && d == after.descr;
          bool as_before = had && v == before.value && d == before.descr;
          VM_CHECK( as_after || as_before, "merge-partial-entry", s.first << " " << vm::show( v ) << "\n" << log );
          h.m->m[ f ] = as_after ? after : before;
        }
      }
      kind = blocked ? 9 : 8;
      vm::event( blocked ? "merge_stopped_by_read_only" : "merge_done" );
    }
    else if( what < 84 )
    {
      l << "get " << key;
      log += l.str() + "\n";
      std::string v;
      Outcome o = attempt( [ & ] { v = h.c->get_value< std::string >( key ); } );
      bool there = h.m->m.count( fk ) > 0;
      VM_CHECK( o == ( there ? OK : MISSING ), "get-outcome", outcome_name[ o ] << "\n" << log );
      VM_CHECK( h.c->has_value( key ) == there, "has-value", log );
      Outcome od = attempt( [ & ] { h.c->get_description( key ); } );
      VM_CHECK( od == ( there ? OK : MISSING ), "description-outcome", outcome_name[ od ] << "\n" << log );
      if( there ) { VM_CHECK( v == h.m->m[ fk ].value, "get-value", vm::show( v ) << "\n" << log ); }
      std::string dv = h.c->get_value< std::string >( key, "def ault" );
      VM_CHECK( dv == ( there ? h.m->m[ fk ].value : "def ault" ), "get-default", vm::show( dv ) << "\n" << log );
      VM_CHECK( h.c->is_read_only( key ) == ( h.m->ro.count( fk ) > 0 ), "read-only-query", log );
      kind = there ? 10 : 11;
    }
    else if( what < 90 )
    {
      if( !h.m->m.count( fk ) ) { continue; }
      std::string file = "f" + r.str( "abc", 1, 3 );
      int line = static_cast< int >( r.range( 1, 5000 ) );
      l << "locate " << key << " " << file << ":" << line;
      log += l.str() + "\n";
      h.c->set_location( key, std::make_shared< std::string >( file ), line );
      Entry& e = h.m->m[ fk ];
      e.has_loc = true; e.file = file; e.line = line;
      was_located.insert( std::make_pair( h.m.get(), fk ) );
      kind = 12;
    }
    else if( what < 94 )
    {
      // forget a handle: views keep what they show alive
      if( hs.size() > 2 )
      {
        l << "drop #" << hi;
        log += l.str() + "\n";
        hs.erase( hs.begin() + static_cast< long >( hi ) );
        kind = 13;
        vm::event( "handle_dropped" );
      }
      else { new_root(); log += "new root\n"; kind = 14; }
    }
    else
    {
      std::ostringstream os;
      h.c->print( os );
      std::string p = os.str();
      for( auto const& k : keys_of( h ) )
      {
        Entry const& e = h.m->m[ full( h, k ) ];
        bool ro = h.m->ro.count( full( h, k ) ) > 0;
        std::string line = k + ( ro ? "[RO]" : "" ) + " = " + e.value;
        VM_CHECK( p.find( line ) != std::string::npos, "print-misses-entry", vm::show( line ) << " not in " << vm::show( p ) << "\n" << log );
      }
      kind = 15;
      vm::event( "printed" );
    }
    shape = vm::mix( shape ^ ( kind + 31 * h.prefix.size() ) );
    vm::event( "operations" );
    // every handle sees the same store
    if( r.chance( 1, 3 ) ) { for( auto const& x : hs ) { observe( x, log ); } }
    else if( hi < hs.size() ) { observe( hs[ hi ], log ); }
  }
  for( auto const& x : hs ) { observe( x, log ); }
  vm::sig( shape );
  if( r.chance( 1, 50 ) ) { vm::sample( log ); }
}

} // namespace

VM_MAIN( one )
