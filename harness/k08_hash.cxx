// K08: hash containers behave as the standard containers.
#include "vm.h"
#include <cctype>
#include <climits>
#include <kwsys/hash_map.hxx>
#include <kwsys/hash_set.hxx>
#include <algorithm>
#include <iterator>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>

typedef std::string Str;

namespace {

// ---- elements that are counted, and that can refuse to be copied -----------------
long g_alive = 0;
long g_refuse = -1;      // copies left until one is refused, -1: never
long g_refuse_hash = -1; // the same for computing a hash value

struct Refused : std::runtime_error { Refused() : std::runtime_error( "refused" ) {} };

struct Item
{
  Item() : text( "" ) { ++g_alive; }
  Item( Str const& t ) : text( t ) { ++g_alive; }
  Item( Item const& o ) : text( o.checked() ) { if( g_refuse >= 0 && g_refuse-- == 0 ) { throw Refused(); } ++g_alive; }
  Item& operator=( Item const& o ) { text = o.checked(); return *this; }
  ~Item() { VM_EXPECT( mark == this, "destroyed-twice", "an element that does not live was destroyed" ); mark = nullptr; --g_alive; }
  Str const& checked() const { if( mark != this ) { VM_FAIL( "dead-element", "an element that does not live was read" ); } return text; }
  bool operator==( Item const& o ) const { return checked() == o.checked(); }
  bool operator<( Item const& o ) const { return checked() < o.checked(); }
  Str text;
  void const* mark = this;
};

// ---- hash functions, from fair to hopeless -----------------------------------------
struct Hash
{
  explicit Hash( unsigned k = 0 ) : kind( k ) {}
  size_t spread( size_t h ) const
  {
    if( g_refuse_hash >= 0 && g_refuse_hash-- == 0 ) { throw Refused(); }
    return kind == 0 ? h : kind == 1 ? h % 3 : kind == 2 ? 0 : kind == 3 ? ~size_t( 0 ) - h % 2 : h * 193;
  }
  size_t operator()( Item const& i ) const { return spread( kwsys::hash< Str >()( i.checked() ) ); }
  size_t operator()( Str const& s ) const { return spread( kwsys::hash< Str >()( s ) ); }
  size_t operator()( int i ) const { return spread( kwsys::hash< int >()( i ) ); }
  unsigned kind;
};
template < class K > struct Equal { bool operator()( K const& a, K const& b ) const { return a == b; } };

Str word( vm::Rng& r, unsigned range )
{
  unsigned k = static_cast< unsigned >( r.below( range ) );
  return k == 0 ? Str() : k % 7 == 0 ? Str( "a\0b", 3 ) + std::to_string( k ) : k % 5 == 0 ? Str( "a\0c", 3 ) + std::to_string( k )
       : k % 3 == 0 ? Str( 40, static_cast< char >( 'a' + k % 26 ) ) + std::to_string( k ) : "k\xE9" + std::to_string( k );
}
void make( vm::Rng& r, unsigned range, int& k ) { k = static_cast< int >( r.below( range ) ) - static_cast< int >( range / 2 ); if( r.chance( 1, 40 ) ) { k = r.chance( 1, 2 ) ? INT_MIN : INT_MAX; } }
void make( vm::Rng& r, unsigned range, Str& k ) { k = word( r, range ); }
void make( vm::Rng& r, unsigned range, Item& k ) { k = Item( word( r, range ) ); }
Str print( int k ) { return std::to_string( k ); }
Str print( Str const& k ) { return vm::show( k ); }
Str print( Item const& k ) { return vm::show( k.checked() ); }

// ---- what the four kinds of container have in common ------------------------------------
template < class K, class V > struct MapKind
{
  typedef std::pair< const K, V > value;
  typedef std::pair< K, V > plain;
  static K const& key( value const& v ) { return v.first; }
  static plain flat( value const& v ) { return plain( v.first, v.second ); }
  static value rnd( vm::Rng& r, unsigned range ) { K k; V v; make( r, range, k ); make( r, 5, v ); return value( k, v ); }
};
template < class K > struct SetKind
{
  typedef K value;
  typedef K plain;
  static K const& key( value const& v ) { return v; }
  static plain flat( value const& v ) { return v; }
  static value rnd( vm::Rng& r, unsigned range ) { K k; make( r, range, k ); return k; }
};

template < class It > It done( It it ) { return it; }
template < class It > It done( std::pair< It, bool > const& p ) { return p.first; }
template < class It > bool fresh( It ) { return true; }
template < class It > bool fresh( std::pair< It, bool > const& p ) { return p.second; }

// C: container; R: standard multimap/multiset/map/set; unique: at most one element per key
template < class C, class R, class Kind, class K, bool Unique, bool Counted >
struct Trial
{
  typedef typename Kind::value value;
  typedef typename Kind::plain plain;
  typedef typename C::iterator iterator;
  typedef typename C::const_iterator const_iterator;

  struct Slot { std::unique_ptr< C > c; R m; unsigned hash; };
  std::vector< Slot > slots;
  unsigned range;
  vm::Rng& r;
  Str log;
  char const* name;

  Trial( vm::Rng& rng, char const* n ) : r( rng ), name( n ) { range = static_cast< unsigned >( r.chance( 1, 4 ) ? r.range( 1, 6 ) : r.chance( 1, 4 ) ? r.range( 100, 800 ) : r.range( 6, 60 ) ); }

  static std::vector< plain > sorted( R const& m ) { std::vector< plain > v; for( auto const& e : m ) { v.push_back( Kind::flat( e ) ); } std::sort( v.begin(), v.end() ); return v; }

  K some_key( Slot& s )
  {
    if( !s.m.empty() && r.chance( 1, 2 ) ) { auto it = s.m.begin(); std::advance( it, static_cast< long >( r.below( s.m.size() ) ) ); return Kind::key( *it ); }
    return Kind::key( Kind::rnd( r, range ) );
  }
  void remove_one( R& m, value const& v )
  {
    auto p = m.equal_range( Kind::key( v ) );
    for( auto it = p.first; it != p.second; ++it ) { if( Kind::flat( *it ) == Kind::flat( v ) ) { m.erase( it ); return; } }
    VM_FAIL( "foreign-element", name << " holds " << print( Kind::key( v ) ) << " which it should not\n" << log );
  }

  void check( Slot& s, char const* after )
  {
    C& c = *s.c;
    C const& cc = c;
    VM_CHECK( c.size() == s.m.size() && c.empty() == s.m.empty(), "size", name << " after " << after << ": size() is " << c.size() << " and should be " << s.m.size() << "\n" << log );
    std::vector< plain > got;
    size_t limit = s.m.size() + 1;
    K const* last = nullptr;
    std::set< K > seen;
    for( iterator it = c.begin(); it != c.end(); ++it )
    {
      VM_CHECK( got.size() < limit, "iteration", name << " after " << after << ": iteration yields more elements than size()\n" << log );
      K const& k = Kind::key( *it );
      if( !last || !( *last == k ) ) { VM_CHECK( seen.insert( k ).second, "scattered", name << " after " << after << ": elements of key " << print( k ) << " are not adjacent\n" << log ); }
      last = &k;
      got.push_back( Kind::flat( *it ) );
    }
    std::vector< plain > again;
    for( const_iterator it = cc.begin(); it != cc.end() && again.size() < limit; ) { again.push_back( Kind::flat( *it++ ) ); }
    VM_CHECK( got == again, "const-iteration", name << " after " << after << ": iteration over the constant container differs\n" << log );
    std::sort( got.begin(), got.end() );
    std::vector< plain > want = sorted( s.m );
    VM_CHECK( got == want, "content", name << " after " << after << ": the content differs from the standard container's (" << got.size() << " elements, should be " << want.size() << ")\n" << log );
    size_t sum = 0;
    for( size_t b = 0; b < c.bucket_count(); ++b ) { sum += c.elems_in_bucket( b ); }
    VM_CHECK( sum == s.m.size(), "buckets", name << " after " << after << ": the buckets hold " << sum << " elements, size() is " << s.m.size() << "\n" << log );
    for( int i = 0; i < 2; ++i )
    {
      K k = some_key( s );
      size_t n = s.m.count( k );
      VM_CHECK( c.count( k ) == n, "count", name << " after " << after << ": count( " << print( k ) << " ) is " << c.count( k ) << " and should be " << n << "\n" << log );
      iterator f = c.find( k );
      const_iterator cf = cc.find( k );
      VM_CHECK( ( f != c.end() ) == ( n > 0 ) && ( cf != cc.end() ) == ( n > 0 ), "find", name << " after " << after << ": find( " << print( k ) << " ) is wrong\n" << log );
      if( n ) { VM_CHECK( Kind::key( *f ) == k && &*f == &*cf && const_iterator( f ) == cf, "find", name << " after " << after << ": find( " << print( k ) << " ) found another element\n" << log ); }
      std::pair< iterator, iterator > e = c.equal_range( k );
      std::pair< const_iterator, const_iterator > ce = cc.equal_range( k );
      std::vector< plain > in, cin, ref;
      for( iterator it = e.first; it != e.second && in.size() < limit; ++it ) { in.push_back( Kind::flat( *it ) ); }
      for( const_iterator it = ce.first; it != ce.second && cin.size() < limit; ++it ) { cin.push_back( Kind::flat( *it ) ); }
      auto p = s.m.equal_range( k );
      for( auto it = p.first; it != p.second; ++it ) { ref.push_back( Kind::flat( *it ) ); }
      VM_CHECK( in == cin, "range", name << " after " << after << ": equal_range( " << print( k ) << " ) differs for the constant container\n" << log );
      std::sort( in.begin(), in.end() );
      std::sort( ref.begin(), ref.end() );
      VM_CHECK( in == ref, "range", name << " after " << after << ": equal_range( " << print( k ) << " ) holds " << in.size() << " elements, should be " << ref.size() << "\n" << log );
      if( n > 1 ) { vm::event( "ranges of several elements" ); }
    }
    vm::event( "contents compared" );
  }

  // elements keep their place in memory, as in the standard containers
  std::vector< std::pair< plain, void const* > > places( C& c )
  {
    std::vector< std::pair< plain, void const* > > v;
    for( iterator it = c.begin(); it != c.end(); ++it ) { v.push_back( std::make_pair( Kind::flat( *it ), static_cast< void const* >( &*it ) ) ); }
    std::sort( v.begin(), v.end() );
    return v;
  }

  C* new_container( unsigned& h )
  {
    h = static_cast< unsigned >( r.below( 5 ) );
    size_t n = r.chance( 1, 2 ) ? r.below( 6 ) : r.below( 60 );
    if( h == 0 && r.chance( 1, 2 ) ) { return r.chance( 1, 2 ) ? new C : new C( n ); }
    return r.chance( 1, 2 ) ? new C( n, Hash( h ) ) : new C( n, Hash( h ), Equal< K >() );
  }


  void operation( Slot& s, int op )
  {
    C& c = *s.c;
    switch( op )
    {
      case 0: case 1: case 2:
      {
        value v = Kind::rnd( r, range );
        bool isnew = s.m.count( Kind::key( v ) ) == 0;
        bool grow = op != 2;
        log += ( grow ? "insert " : "insert_noresize " ) + print( Kind::key( v ) ) + "\n";
        auto before = places( c );
        size_t nb = c.bucket_count();
        auto res = grow ? c.insert( v ) : c.insert_noresize( v );
        if( grow ) { VM_CHECK( c.bucket_count() >= c.size(), "growth", name << " holds " << c.size() << " elements in " << c.bucket_count() << " buckets after insert\n" << log ); }
        if( c.bucket_count() != nb ) { vm::event( "grown" ); }
        VM_CHECK( fresh( res ) == ( Unique ? isnew : true ), "inserted", name << "::insert of " << ( isnew ? "a new" : "an old" ) << " key says otherwise\n" << log );
        iterator it = done( res );
        VM_CHECK( Kind::key( *it ) == Kind::key( v ) && ( !( isnew || !Unique ) || Kind::flat( *it ) == Kind::flat( v ) ), "inserted", name << "::insert returned another element\n" << log );
        s.m.insert( v );
        auto after = places( c );
        VM_CHECK( std::includes( after.begin(), after.end(), before.begin(), before.end() ), "moved", name << "::insert moved other elements\n" << log );
        break;
      }
      case 3:
      {
        size_t n = r.chance( 1, 8 ) ? r.below( 300 ) : r.below( 12 );
        std::list< value > l;
        for( size_t i = 0; i < n; ++i ) { l.push_back( Kind::rnd( r, range ) ); }
        log += "insert " + std::to_string( n ) + " elements\n";
        if( r.chance( 1, 2 ) ) { c.insert( l.begin(), l.end() ); vm::event( "ranges of a list inserted" ); }
        else
        {
          std::vector< value > v( l.begin(), l.end() );
          value const* b = v.data();
          if( r.chance( 1, 2 ) ) { c.insert( b, b + v.size() ); } else { c.insert( v.begin(), v.end() ); }
          vm::event( "ranges of an array inserted" );
        }
        for( auto const& v : l ) { s.m.insert( v ); }
        break;
      }
      case 4:
      {
        K k = some_key( s );
        log += "erase " + print( k ) + "\n";
        size_t n = s.m.erase( k );
        size_t m = c.erase( k );
        VM_CHECK( m == n, "erased", name << "::erase( " << print( k ) << " ) says " << m << " and should say " << n << "\n" << log );
        break;
      }
      case 5:
      {
        // the key is part of the element that goes
        if( s.m.empty() ) { break; }
        K k = some_key( s );
        auto range_ = c.equal_range( k );
        if( range_.first == range_.second ) { break; }
        iterator it = range_.first;
        for( size_t skip = r.below( s.m.count( k ) ); skip; --skip ) { ++it; }
        log += "erase by the key of an own element " + print( k ) + "\n";
        size_t n = s.m.erase( k );
        size_t m = c.erase( Kind::key( *it ) );
        VM_CHECK( m == n, "erased", name << "::erase( key of its own element ) says " << m << " and should say " << n << "\n" << log );
        vm::event( "erased by own key" );
        break;
      }
      case 6:
      {
        if( s.m.empty() ) { break; }
        iterator it = c.begin();
        for( size_t i = r.below( s.m.size() ); i; --i ) { ++it; }
        log += "erase one " + print( Kind::key( *it ) ) + "\n";
        remove_one( s.m, *it );
        auto before = places( c );
        c.erase( it );
        auto after = places( c );
        VM_CHECK( std::includes( before.begin(), before.end(), after.begin(), after.end() ), "moved", name << "::erase moved other elements\n" << log );
        break;
      }
      case 7:
      {
        size_t n = s.m.size();
        size_t a = r.below( n + 1 ), b = r.below( n + 1 );
        if( a > b ) { std::swap( a, b ); }
        if( r.chance( 1, 6 ) ) { b = n; }
        if( r.chance( 1, 8 ) ) { a = 0; }
        iterator f = c.begin();
        for( size_t i = 0; i < a; ++i ) { ++f; }
        iterator l = f;
        for( size_t i = a; i < b; ++i ) { remove_one( s.m, *l ); ++l; }
        log += "erase from " + std::to_string( a ) + " to " + std::to_string( b ) + " of " + std::to_string( n ) + "\n";
        c.erase( f, l );
        vm::event( "ranges erased" );
        break;
      }
      case 8: if( r.chance( 1, 3 ) ) { log += "clear\n"; c.clear(); s.m.clear(); vm::event( "cleared" ); } break;
      case 9:
      {
        size_t hint = r.chance( 1, 6 ) ? r.below( 4000 ) : r.below( 200 );
        log += "resize " + std::to_string( hint ) + "\n";
        auto before = places( c );
        c.resize( hint );
        VM_CHECK( c.bucket_count() >= hint, "growth", name << "::resize( " << hint << " ) leaves " << c.bucket_count() << " buckets\n" << log );
        VM_CHECK( places( c ) == before, "moved", name << "::resize moved elements\n" << log );
        break;
      }
      case 10:
      {
        log += "copy\n";
        Slot n;
        n.c.reset( new C( c ) );
        n.m = s.m;
        n.hash = s.hash;
        C const& cc = c;
        VM_CHECK( *n.c == cc && !( *n.c != cc ), "equality", name << ": a copy does not equal its original\n" << log );
        check( n, "copying" );
        if( slots.size() < 3 ) { slots.push_back( std::move( n ) ); }
        else { size_t i = r.below( slots.size() ); slots[ i ] = std::move( n ); }
        vm::event( "copied" );
        return;
      }
      case 11:
      {
        Slot& o = slots[ r.below( slots.size() ) ];
        log += &o == &s ? "assign to itself\n" : "assign from " + std::to_string( &o - slots.data() ) + "\n";
        C const& src = *o.c;
        C& ret = ( c = src );
        VM_CHECK( &ret == &c, "assignment", name << ": assignment returns another object" );
        if( &o != &s ) { s.m = o.m; s.hash = o.hash; }
        VM_CHECK( c == src, "equality", name << ": an assigned container does not equal its source\n" << log );
        check( o, "being assigned" );
        vm::event( &o == &s ? "assigned to itself" : "assigned" );
        break;
      }
      case 12:
      {
        Slot& o = slots[ r.below( slots.size() ) ];
        log += "swap with " + std::to_string( &o - slots.data() ) + "\n";
        auto pa = places( c ), pb = places( *o.c );
        switch( r.below( 3 ) ) { case 0: c.swap( *o.c ); break; case 1: { using std::swap; swap( c, *o.c ); break; } default: kwsys::swap( c, *o.c ); }
        if( &o != &s ) { std::swap( s.m, o.m ); std::swap( s.hash, o.hash ); }
        VM_CHECK( places( c ) == pb && places( *o.c ) == pa, "moved", name << "::swap moved elements in memory\n" << log );
        check( o, "swap" );
        vm::event( "swapped" );
        break;
      }
      case 13:
      {
        Slot& o = slots[ r.below( slots.size() ) ];
        bool same = sorted( s.m ) == sorted( o.m );
        if( !same ) { VM_CHECK( c != *o.c && !( c == *o.c ), "equality", name << "s with different elements are equal\n" << log ); vm::event( "unequal compared" ); }
        break;
      }
      case 14:
      {
        unsigned h;
        std::vector< value > v;
        size_t n = r.below( 30 );
        for( size_t i = 0; i < n; ++i ) { v.push_back( Kind::rnd( r, range ) ); }
        log += "construct from " + std::to_string( n ) + "\n";
        std::list< value > l( v.begin(), v.end() );
        h = 0;
        switch( r.below( 4 ) )
        {
          case 0: s.c.reset( new C( l.begin(), l.end() ) ); break;
          case 1: s.c.reset( new C( v.begin(), v.end(), r.below( 20 ) ) ); break;
          case 2: h = static_cast< unsigned >( r.below( 5 ) ); s.c.reset( new C( l.begin(), l.end(), r.below( 200 ), Hash( h ) ) ); break;
          default: h = static_cast< unsigned >( r.below( 5 ) ); s.c.reset( new C( v.begin(), v.end(), r.below( 20 ), Hash( h ), Equal< K >() ) ); break;
        }
        s.hash = h;
        s.m = R();
        for( auto const& e : v ) { s.m.insert( e ); }
        vm::event( "constructed from a range" );
        break;
      }
      case 15:
      {
        // the function objects are those given, also after copies and swaps
        VM_CHECK( c.hash_funct().kind == s.hash, "function-objects", name << " computes hash values by function " << c.hash_funct().kind << ", given was " << s.hash << "\n" << log );
        (void)c.key_eq();
        (void)c.get_allocator();
        VM_CHECK( c.max_size() >= c.size() && c.max_bucket_count() >= c.bucket_count(), "limits", name << ": the maximal sizes are too small" );
        break;
      }
      default: break;
    }
  }

  // an operation during which an element refuses to be copied, or a hash value to be computed
  void refused( Slot& s )
  {
    C& c = *s.c;
    bool in_hash = r.chance( 1, 3 );
    long n = static_cast< long >( r.below( r.chance( 1, 2 ) ? 2 : 20 ) );
    int what = static_cast< int >( r.below( 4 ) );
    value v = Kind::rnd( r, range );
    R before = s.m, other;
    std::vector< value > many;
    for( size_t i = 0; i < 6; ++i ) { many.push_back( Kind::rnd( r, range ) ); }
    size_t hint = c.bucket_count() + 1 + r.below( 50 );
    std::unique_ptr< C > target( new C( r.below( 20 ), Hash( 0 ) ) );
    target->insert( v );
    log += "refuse " + Str( in_hash ? "hash " : "copy " ) + std::to_string( n ) + " during " + std::to_string( what ) + "\n";
    bool threw = false;
    ( in_hash ? g_refuse_hash : g_refuse ) = n;
    try
    {
      switch( what )
      {
        case 0: c.insert_noresize( v ); break;
        case 1: { C copy( c ); ( in_hash ? g_refuse_hash : g_refuse ) = -1; break; }
        case 2: *target = c; break;
        default: if( in_hash && r.chance( 1, 2 ) ) { c.resize( hint ); } else { what = 4; c.insert( many.begin(), many.end() ); } break;
      }
    }
    catch( Refused& ) { threw = true; vm::event( in_hash ? "hash refused" : "copy refused" ); }
    g_refuse = g_refuse_hash = -1;
    if( what == 0 && !threw ) { s.m.insert( v ); }
    if( what == 2 )
    {
      size_t k = 0;
      for( typename C::iterator it = target->begin(); it != target->end(); ++it ) { ++k; }
      VM_CHECK( k == target->size(), "size", name << " after a refused assignment: size() is " << target->size() << ", iteration yields " << k << "\n" << log );
      if( !threw ) { VM_CHECK( *target == c, "equality", name << ": an assigned container does not equal its source\n" << log ); }
      target->insert( v );
      VM_CHECK( target->count( v_key( v ) ) >= 1, "count", name << ": unusable after a refused assignment\n" << log );
    }
    if( what == 4 || ( what == 3 && threw ) )
    {
      // what was done in part: some of them are in, and nothing else changed; a rehash that fails may drop elements
      R now;
      for( typename C::iterator it = c.begin(); it != c.end(); ++it ) { now.insert( *it ); }
      VM_CHECK( now.size() == c.size(), "size", name << " after a refused insertion: size() is " << c.size() << ", iteration yields " << now.size() << "\n" << log );
      if( what == 4 && !in_hash )
      {
        auto a = sorted( before ), b = sorted( now );
        VM_CHECK( std::includes( b.begin(), b.end(), a.begin(), a.end() ), "lost", name << " lost elements when a copy was refused\n" << log );
      }
      s.m = now;
    }
  }
  static K const& v_key( value const& v ) { return Kind::key( v ); }

  void run()
  {
    Slot a, b;
    a.c.reset( new_container( a.hash ) );
    b.c.reset( new_container( b.hash ) );
    slots.push_back( std::move( a ) );
    slots.push_back( std::move( b ) );
    int steps = static_cast< int >( r.range( 10, 60 ) );
    int bias = static_cast< int >( r.below( 4 ) );
    for( int i = 0; i < steps; ++i )
    {
      size_t which = r.below( slots.size() );
      int op = static_cast< int >( r.below( 16 ) );
      if( bias == 0 && r.chance( 1, 2 ) ) { op = 0; }
      if( bias == 1 && r.chance( 1, 2 ) ) { op = 2; }
      if( log.size() > 3000 ) { log.erase( 0, 1500 ); }
      log += "[" + std::to_string( which ) + "] ";
      if( Counted && r.chance( 1, 8 ) ) { refused( slots[ which ] ); check( slots[ which ], "a refusal" ); continue; }
      operation( slots[ which ], op );
      check( slots[ which ], "the operation" );
      extra( slots[ which ] );
      vm::sig( vm::hash( name, vm::hash( log, which ) ) );
    }
    vm::sample( Str( name ) + ", last of " + std::to_string( steps ) + " operations: " + log.substr( log.size() > 200 ? log.size() - 200 : 0 ) );
  }
  virtual void extra( Slot& ) {}
  virtual ~Trial() {}
};

// operator[] of the map
template < class K, class V, bool Counted >
struct MapTrial : Trial< kwsys::hash_map< K, V, Hash, Equal< K > >, std::map< K, V >, MapKind< K, V >, K, true, Counted >
{
  typedef Trial< kwsys::hash_map< K, V, Hash, Equal< K > >, std::map< K, V >, MapKind< K, V >, K, true, Counted > Base;
  MapTrial( vm::Rng& r, char const* n ) : Base( r, n ) {}
  void extra( typename Base::Slot& s ) override
  {
    if( !this->r.chance( 1, 4 ) ) { return; }
    K k = this->some_key( s );
    this->log += "[] " + print( k ) + "\n";
    V& a = ( *s.c )[ k ];
    V& b = s.m[ k ];
    VM_CHECK( a == b, "subscript", this->name << "[ " << print( k ) << " ] is another value\n" << this->log );
    V v;
    make( this->r, 6, v );
    a = v;
    b = v;
    VM_CHECK( &( *s.c )[ k ] == &a, "subscript", this->name << "[ " << print( k ) << " ] is another element the second time\n" << this->log );
    this->check( s, "[]" );
    vm::event( "subscripts" );
  }
};

template < class K, class V, bool Counted > struct MultimapTrial : Trial< kwsys::hash_multimap< K, V, Hash, Equal< K > >, std::multimap< K, V >, MapKind< K, V >, K, false, Counted >
{
  typedef Trial< kwsys::hash_multimap< K, V, Hash, Equal< K > >, std::multimap< K, V >, MapKind< K, V >, K, false, Counted > Base;
  MultimapTrial( vm::Rng& r, char const* n ) : Base( r, n ) {}
};
template < class K, bool Counted > struct SetTrial : Trial< kwsys::hash_set< K, Hash, Equal< K > >, std::set< K >, SetKind< K >, K, true, Counted >
{
  typedef Trial< kwsys::hash_set< K, Hash, Equal< K > >, std::set< K >, SetKind< K >, K, true, Counted > Base;
  SetTrial( vm::Rng& r, char const* n ) : Base( r, n ) {}
};
template < class K, bool Counted > struct MultisetTrial : Trial< kwsys::hash_multiset< K, Hash, Equal< K > >, std::multiset< K >, SetKind< K >, K, false, Counted >
{
  typedef Trial< kwsys::hash_multiset< K, Hash, Equal< K > >, std::multiset< K >, SetKind< K >, K, false, Counted > Base;
  MultisetTrial( vm::Rng& r, char const* n ) : Base( r, n ) {}
};

// ---- the hash functions given: every key type that has one, look-ups by equal keys ------
template < class T > void keys( vm::Rng& r )
{
  kwsys::hash_set< T > s;
  std::set< T > m;
  int n = static_cast< int >( r.below( 300 ) );
  for( int i = 0; i < n; ++i )
  {
    T k = static_cast< T >( r.u64() );
    s.insert( k );
    m.insert( k );
    if( r.chance( 1, 4 ) ) { T x = static_cast< T >( r.u64() ); VM_CHECK( s.erase( x ) == m.erase( x ), "keys", "erase of an integer key is wrong" ); }
  }
  VM_CHECK( s.size() == m.size(), "keys", "hash_set of integers holds " << s.size() << " of " << m.size() );
  for( T k : m ) { VM_CHECK( s.count( k ) == 1 && s.find( k ) != s.end() && *s.find( k ) == k, "keys", "hash_set lost " << +k ); }
  size_t k = 0;
  for( auto it = s.begin(); it != s.end(); ++it, ++k ) { VM_CHECK( m.count( *it ), "keys", "hash_set holds " << +*it ); }
  VM_CHECK( k == m.size(), "keys", "hash_set yields " << k << " of " << m.size() );
}

struct CstrEqual { bool operator()( char const* a, char const* b ) const { return !std::strcmp( a, b ); } };

void given( vm::Rng& r )
{
  keys< char >( r ); keys< signed char >( r ); keys< unsigned char >( r ); keys< short >( r ); keys< unsigned short >( r ); keys< int >( r ); keys< unsigned >( r );
  keys< long >( r ); keys< unsigned long >( r ); keys< long long >( r ); keys< unsigned long long >( r );
  // strings with any byte, equal text at different places
  kwsys::hash_map< char const*, int, kwsys::hash< char const* >, CstrEqual > m;
  kwsys::hash_map< Str, int > ms;
  std::map< Str, int > ref;
  std::list< Str > store;
  int n = static_cast< int >( r.below( 200 ) );
  for( int i = 0; i < n; ++i )
  {
    Str k;
    for( size_t j = r.below( 6 ); j; --j ) { k += static_cast< char >( r.range( 1, 255 ) ); }
    store.push_back( k );
    m[ store.back().c_str() ] = i;
    ms[ k ] = i;
    ref[ k ] = i;
  }
  VM_CHECK( m.size() == ref.size() && ms.size() == ref.size(), "keys", "maps by text hold " << m.size() << " and " << ms.size() << ", should be " << ref.size() );
  for( auto const& e : ref )
  {
    Str copy( e.first );
    VM_CHECK( m.count( copy.c_str() ) == 1 && m[ copy.c_str() ] == e.second, "keys", "the map by C strings lost " << vm::show( e.first ) );
    VM_CHECK( ms.count( copy ) == 1 && ms[ copy ] == e.second, "keys", "the map by strings lost " << vm::show( e.first ) );
  }
  vm::event( "key types" );
}

void trials( vm::Rng& r )
{
  { MapTrial< Item, Item, true > t( r, "hash_map<Item,Item>" ); t.run(); }
  { MultimapTrial< Item, Item, true > t( r, "hash_multimap<Item,Item>" ); t.run(); }
  { SetTrial< Item, true > t( r, "hash_set<Item>" ); t.run(); }
  { MultisetTrial< Item, true > t( r, "hash_multiset<Item>" ); t.run(); }
  switch( r.below( 4 ) )
  {
    case 0: { MapTrial< int, Str, false > t( r, "hash_map<int,string>" ); t.run(); break; }
    case 1: { MultimapTrial< Str, int, false > t( r, "hash_multimap<string,int>" ); t.run(); break; }
    case 2: { SetTrial< Str, false > t( r, "hash_set<string>" ); t.run(); break; }
    default: { MultisetTrial< int, false > t( r, "hash_multiset<int>" ); t.run(); break; }
  }
  if( r.chance( 1, 4 ) ) { given( r ); }
}

void body( vm::Rng& r, uint64_t )
{
  if( r.chance( 1, 16 ) )
  {
    // the same history twice: what the first leaves behind would show
    vm::Rng a = r, b = r;
    trials( a );
    size_t before = vm::live_bytes();
    uint64_t events = vm::st().events.size();
    { trials( b ); }
    size_t now = vm::live_bytes();
    if( events == vm::st().events.size() ) { VM_CHECK( now <= before + 4096, "leak", "the same history leaves " << now - before << " bytes behind" ); vm::event( "histories weighed" ); }
  }
  else { trials( r ); }
  VM_CHECK( g_alive == 0, "elements-left", "after all containers are gone " << g_alive << " elements live" );
  vm::event( "all elements gone" );
}

} // namespace
VM_MAIN( body )
