// C03: a configuration written to a file and read back is the same configuration.
#include "vm.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <memory>

using namespace kwiver::vital;

namespace {

std::string trimmed( std::string s )
{
  char const* ws = " \t\n\v\f\r";
  size_t a = s.find_first_not_of( ws );
  if( a == std::string::npos ) { return ""; }
  return s.substr( a, s.find_last_not_of( ws ) - a + 1 );
}

bool reserved( std::string const& k ) { return k == "include" || k == "block" || k == "endblock" || k == "relativepath"; }

std::string gen_key( vm::Rng& r )
{
  for( ;; )
  {
    std::string k;
    long n = r.chance( 1, 2 ) ? 1 : r.range( 1, 6 );
    for( long i = 0; i < n; ++i )
    {
      if( i ) { k += ":"; }
      switch( r.below( 8 ) )
      {
      case 0: k += r.pick( std::vector< std::string >{ "block", "include", "type", "endblock", "relativepath", "blocks" } ); break;
      case 1: k += r.str( "abcXYZ", 1, 1 ); break;
      case 2: k += r.str( "abcdefghijklmnopqrstuvwxyz", 1, 1 ) + r.str( "abcXYZ0189-_./", 0, 60 ); break;
      default: k += r.str( "abcxyzABC", 1, 1 ) + r.str( "abc0189-_./", 0, 6 );
      }
    }
    if( !reserved( k ) ) { return k; }
  }
}

std::string gen_value( vm::Rng& r )
{
  std::string v;
  switch( r.below( 9 ) )
  {
  case 0: v = ""; break;
  case 1: v = "= " + r.str( "a=: ", 0, 6 ); break;
  case 2: v = "[RO] " + r.str( "abc", 0, 3 ); break;
  case 3: { size_t n = r.below( 6000 ); for( size_t i = 0; i < n; ++i ) { v += static_cast< char >( r.range( 32, 126 ) ); } break; }
  case 4: v = r.pick( std::vector< std::string >{ "block a", "endblock", "include foo.conf", ":= x", "relativepath a = b", "$", "$X", "{}", "$1{a}", "a$", "\"quoted  text\"", "'", "\\n", "C:\\dir\\", "a  b\t\tc" } ); break;
  case 5: { size_t n = r.below( 30 ); for( size_t i = 0; i < n; ++i ) { v += static_cast< char >( r.range( 1, 255 ) ); } break; }
  default: v = r.str( "abcdefgh 0123456789,.;:-+*/()<>?!@%^&_~`|'\"\\=[]", 0, 50 );
  }
  for( auto& c : v ) { if( c == '\n' || c == '#' ) { c = '_'; } }
  // not a macro reference
  for( size_t i = 0; i + 1 < v.size(); ++i ) { if( v[ i ] == '$' && std::isalpha( static_cast< unsigned char >( v[ i + 1 ] ) ) ) { v[ i ] = 'S'; } }
  return trimmed( v );
}

std::string gen_descr( vm::Rng& r )
{
  std::string d;
  long n = r.range( 0, 6 );
  for( long i = 0; i < n; ++i )
  {
    switch( r.below( 9 ) )
    {
    case 0: d += "\n"; break;
    case 1: d += "  "; break;
    case 2: d += r.str( "abcdefgh", 70, 90 ); break;
    case 3: d += r.str( "x", 200, 400 ); break;
    case 4: d += r.pick( std::vector< std::string >{ "key = value", "block a\n", "\nendblock", "\nfoo = 1", "# sharp", "\n\n\n", "\t", "include x", "\r", "$ENV{HOME}" } ); break;
    case 5: { for( long j = r.range( 1, 40 ); j > 0; --j ) { d += r.str( "abc", 1, 9 ) + " "; } break; }
    case 6: d += r.str( "abc ", 75, 82 ) + " "; break;
    default: d += r.str( "word ", 1, 12 );
    }
  }
  return d;
}

typedef std::map< std::string, std::string > kv;

kv contents( config_block_sptr const& c )
{
  kv m;
  for( auto const& k : c->available_values() ) { m[ k ] = c->get_value< std::string >( k ); }
  return m;
}

std::string diff( kv const& a, kv const& b )
{
  std::string d;
  for( auto const& e : a )
  {
    auto i = b.find( e.first );
    if( i == b.end() ) { d += " lost " + vm::show( e.first ); }
    else if( i->second != e.second ) { d += " " + vm::show( e.first ) + ": wrote " + vm::show( e.second.substr( 0, 300 ) ) + " read " + vm::show( i->second.substr( 0, 300 ) ); }
  }
  for( auto const& e : b ) { if( !a.count( e.first ) ) { d += " extra " + vm::show( e.first ); } }
  return d;
}

struct Snap { kv values, descr; std::set< std::string > ro; };
Snap snap( config_block_sptr const& c )
{
  Snap s;
  s.values = contents( c );
  for( auto const& e : s.values ) { s.descr[ e.first ] = c->get_description( e.first ); if( c->is_read_only( e.first ) ) { s.ro.insert( e.first ); } }
  return s;
}

void one( vm::Rng& r, uint64_t i )
{
  vm::OtherLocale other( r.chance( 1, 8 ) );
  std::string const d = vm::dir();
  config_block_sptr root = config_block::empty_config(), c = root;
  bool through_view = r.chance( 1, 4 );
  if( through_view ) { c = root->subblock_view( "outer" ); root->set_value( "elsewhere", "1" ); }
  long n = r.chance( 1, 20 ) ? r.range( 100, 400 ) : r.range( 1, 14 );
  for( long k = 0; k < n; ++k )
  {
    std::string key = gen_key( r ), v = gen_value( r );
    if( c->is_read_only( key ) ) { continue; }
    if( r.chance( 1, 2 ) ) { c->set_value( key, v, gen_descr( r ) ); } else { c->set_value( key, v ); }
    if( r.chance( 1, 8 ) ) { c->mark_read_only( key ); }
    if( r.chance( 1, 6 ) ) { c->set_location( key, std::make_shared< std::string >( r.str( "/abc.conf ", 1, 12 ) ), static_cast< int >( r.range( 1, r.chance( 1, 2 ) ? 999 : 2000000000 ) ) ); }
  }
  Snap before = snap( c );
  std::string text;
  for( auto const& e : before.values ) { text += e.first + " = " + e.second.substr( 0, 60 ) + "\n"; }
  vm::note( text );
  std::string file = d + "/" + ( r.chance( 1, 3 ) ? "sub" + vm::str( i % 7 ) + "/deep/" : std::string() ) + "c.conf";
  if( r.chance( 1, 3 ) ) { vm::spit( d + "/c.conf", "old_entry = 1\n# " + std::string( r.below( 20000 ), 'x' ) + "\nlast_old = 2\n" ); }
  unsigned mode = static_cast< unsigned >( r.below( 3 ) );
  if( mode == 2 )
  {
    std::ostringstream os;
    write_config( c, os );
    file = d + "/c.conf";
    vm::spit( file, os.str() );
  }
  else { write_config_file( c, file ); }
  std::string out = vm::slurp( file );
  config_block_sptr back;
  try { back = read_config_file( file ); }
  catch( std::exception const& e ) { VM_FAIL( "written-file-refused", e.what() << "\n" << out.substr( 0, 2500 ) ); }
  kv got = contents( back );
  VM_CHECK( got == before.values, "round-trip", diff( before.values, got ) << "\n" << out.substr( 0, 2500 ) );
  // the description stands above its entry, word for word; lines within the
  // width unless one word is longer; the place of definition below it
  {
    auto words = []( std::string const& s )
    {
      std::vector< std::string > v;
      std::string w;
      for( char ch : s + " " ) { if( ch == ' ' || ch == '\n' ) { if( !w.empty() ) { v.push_back( w ); } w.clear(); } else { w += ch; } }
      return v;
    };
    std::vector< std::string > lines, above;
    for( size_t b = 0; b < out.size(); )
    {
      size_t e = out.find( '\n', b );
      VM_CHECK( e != std::string::npos, "layout", "the last line does not end\n" << out.substr( 0, 2500 ) );
      lines.push_back( out.substr( b, e - b ) );
      b = e + 1;
    }
    auto entry = before.values.begin();
    for( size_t n = 0; n < lines.size(); ++n )
    {
      std::string const& l = lines[ n ];
      if( l.empty() ) { above.clear(); continue; }
      if( l[ 0 ] == '#' )
      {
        std::vector< std::string > w = words( l.substr( 1 ) );
        VM_CHECK( l.size() <= 80 || w.size() == 1, "layout", "a comment line of " << l.size() << " characters: " << l );
        above.insert( above.end(), w.begin(), w.end() );
        continue;
      }
      VM_CHECK( entry != before.values.end(), "layout", "a line too many: " << vm::show( l ) );
      VM_CHECK( l.compare( 0, entry->first.size() + 3, entry->first + " = " ) == 0, "layout", vm::show( l ) << " in place of entry " << entry->first );
      VM_CHECK( above == words( before.descr[ entry->first ] ), "description", "of " << entry->first << ": " << vm::show( before.descr[ entry->first ] ) << "\n" << out.substr( 0, 2500 ) );
      above.clear();
      std::string f;
      int at = 0;
      if( c->get_location( entry->first, f, at ) )
      {
        VM_CHECK( n + 1 < lines.size() && lines[ n + 1 ] == "# defined - " + f + ":" + std::to_string( at ), "place", "of " << entry->first << ": " << vm::show( f ) << " " << at << " next " << vm::show( n + 1 < lines.size() ? lines[ n + 1 ] : "" ) << "\n" << out.substr( 0, 2500 ) );
        ++n;
        vm::event( "places" );
      }
      if( !before.descr[ entry->first ].empty() ) { vm::event( "descriptions" ); }
      ++entry;
    }
    VM_CHECK( entry == before.values.end(), "layout", "no line for " << entry->first );
  }
  Snap after = snap( c );
  VM_CHECK( after.values == before.values && after.descr == before.descr && after.ro == before.ro, "write-changed-configuration", diff( before.values, after.values ) );
  // every word of every description is in the comments
  for( auto const& e : before.descr )
  {
    std::istringstream ws( e.second );
    std::string w;
    while( ws >> w ) { VM_CHECK( out.find( w ) != std::string::npos, "description-word-lost", vm::show( w ) ); }
  }
  // write again what was read: stable
  std::string file2 = d + "/again.conf";
  write_config_file( back, file2 );
  kv again = contents( read_config_file( file2 ) );
  VM_CHECK( again == before.values, "second-round-trip", diff( before.values, again ) );
  vm::event( "entries_written", before.values.size() );
  if( through_view ) { vm::event( "written_through_view" ); }
  vm::sig( out );
  if( r.chance( 1, 300 ) ) { vm::sample( out ); }

  // refusals
  if( r.chance( 1, 5 ) )
  {
    vm::note( "refusals" );
    std::string keep = d + "/keep.conf", old = "kept_key = kept value\n";
    vm::spit( keep, old );
    bool refused = false;
    try { write_config_file( config_block::empty_config(), keep ); } catch( config_file_write_exception const& ) { refused = true; }
    VM_CHECK( refused, "empty-not-refused", "" );
    VM_CHECK( vm::slurp( keep ) == old, "refused-write-destroyed-file", vm::show( vm::slurp( keep ) ) );
    refused = false;
    std::ostringstream os;
    try { write_config( config_block::empty_config(), os ); } catch( config_file_write_exception const& ) { refused = true; }
    VM_CHECK( refused, "empty-stream-not-refused", "" );
    refused = false;
    try { write_config_file( c, d ); } catch( config_file_write_exception const& ) { refused = true; }
    VM_CHECK( refused, "directory-not-refused", "" );
    refused = false;
    try { write_config_file( c, keep + "/below/a/file.conf" ); } catch( config_file_write_exception const& ) { refused = true; }
    VM_CHECK( refused, "below-a-file-not-refused", "" );
    VM_CHECK( vm::slurp( keep ) == old, "refused-write-destroyed-file", vm::show( vm::slurp( keep ) ) );
    refused = false;
    try { read_config_file( d + "/nowhere.conf" ); } catch( config_file_not_found_exception const& ) { refused = true; }
    VM_CHECK( refused, "missing-not-refused", "" );
    refused = false;
    try { read_config_file( d ); } catch( config_file_not_found_exception const& ) { refused = true; }
    VM_CHECK( refused, "directory-read-not-refused", "" );
    vm::event( "refusals", 6 );
  }
  vm::rmtree( d + "/sub" + vm::str( i % 7 ) );
  ::unlink( ( d + "/c.conf" ).c_str() );
}

} // namespace

VM_MAIN( one )
