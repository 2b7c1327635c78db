// T01: images address, copy, share and compare pixels correctly in every layout.
#include "vm.h"
#include <vital/types/image.h>
#include <vital/types/image_container.h>
#include <memory>
#include <new>
#include <sys/mman.h>

using namespace kwiver::vital;
typedef image::byte byte;

namespace {

// what is known of one handle: where each pixel must be, and in which store
struct Handle
{
  std::unique_ptr< image > im;
  std::unique_ptr< simple_image_container > box;   // sometimes held through a container
  int store = -1;
  std::vector< byte* > cell;                        // address of (i,j,k), k fastest
  size_t w = 0, h = 0, d = 0;
  bool external = false;
  image& get() { return *im; }
};

struct Store { std::map< byte*, byte > bytes; };

struct World
{
  std::vector< Handle > hs;
  std::map< int, Store > stores;                    // expected value of every byte in use
  std::vector< std::vector< byte >* > buffers;      // external memory, freed at the end
  int next = 0;
  std::string log;
};

size_t cells_index( Handle const& h, size_t i, size_t j, size_t k ) { return ( j * h.w + i ) * h.d + k; }

void fill_cells( Handle& h, byte* base, ptrdiff_t ws, ptrdiff_t hs, ptrdiff_t ds )
{
  h.cell.assign( h.w * h.h * h.d, nullptr );
  for( size_t j = 0; j < h.h; ++j )
  {
    for( size_t i = 0; i < h.w; ++i )
    {
      for( size_t k = 0; k < h.d; ++k )
      {
        h.cell[ cells_index( h, i, j, k ) ] = base + static_cast< ptrdiff_t >( i ) * ws + static_cast< ptrdiff_t >( j ) * hs + static_cast< ptrdiff_t >( k ) * ds;
      }
    }
  }
}

// an image that allocated its own memory: all pixels distinct and inside that memory
void adopt_fresh( World& w, Handle& h, char const* what )
{
  image& im = h.get();
  h.w = im.width(); h.h = im.height(); h.d = im.depth();
  size_t n = h.w * h.h * h.d;
  VM_CHECK( im.memory(), "no-memory", what << "\n" << w.log );
  VM_CHECK( im.size() >= n && im.memory()->size() == im.size(), "memory-size", what << " " << im.size() << " for " << n << "\n" << w.log );
  fill_cells( h, im.first_pixel(), im.w_step(), im.h_step(), im.d_step() );
  byte* lo = static_cast< byte* >( im.memory()->data() );
  std::set< byte* > seen;
  for( byte* p : h.cell )
  {
    VM_CHECK( p >= lo && p < lo + im.size(), "pixel-outside-memory", what << " offset " << ( p - lo ) << " of " << im.size() << "\n" << w.log );
    VM_CHECK( seen.insert( p ).second, "pixels-share-a-byte", what << "\n" << w.log );
  }
  h.store = w.next++;
  h.external = false;
  Store& s = w.stores[ h.store ];
  s.bytes.clear();
}

void set_all( World& w, Handle& h, vm::Rng& r )
{
  for( size_t j = 0; j < h.h; ++j )
  {
    for( size_t i = 0; i < h.w; ++i )
    {
      for( size_t k = 0; k < h.d; ++k )
      {
        byte v = static_cast< byte >( r.below( 256 ) );
        h.get()( static_cast< unsigned >( i ), static_cast< unsigned >( j ), static_cast< unsigned >( k ) ) = v;
        w.stores[ h.store ].bytes[ h.cell[ cells_index( h, i, j, k ) ] ] = v;
      }
    }
  }
}

byte expected( World& w, Handle& h, size_t i, size_t j, size_t k ) { return w.stores[ h.store ].bytes[ h.cell[ cells_index( h, i, j, k ) ] ]; }

template < class F > bool refused( F f )
{
  try { f(); return false; }
  catch( std::out_of_range const& ) { return true; }
}

void verify( World& w, Handle& h )
{
  image const& im = h.get();
  VM_CHECK( im.width() == h.w && im.height() == h.h && im.depth() == h.d, "dimensions", im.width() << "x" << im.height() << "x" << im.depth() << "\n" << w.log );
  for( unsigned j = 0; j < h.h; ++j )
  {
    for( unsigned i = 0; i < h.w; ++i )
    {
      for( unsigned k = 0; k < h.d; ++k )
      {
        byte const* p = &im( i, j, k );
        VM_CHECK( p == h.cell[ cells_index( h, i, j, k ) ], "pixel-address", "(" << i << "," << j << "," << k << ")\n" << w.log );
        VM_CHECK( *p == expected( w, h, i, j, k ), "pixel-value", "(" << i << "," << j << "," << k << ") is " << int( *p ) << " want " << int( expected( w, h, i, j, k ) ) << "\n" << w.log );
      }
      if( h.d > 0 )
      {
        VM_CHECK( &im( i, j ) == h.cell[ cells_index( h, i, j, 0 ) ], "pixel-address-2", "(" << i << "," << j << ")\n" << w.log );
        rgb_color c = im.at( i, j );
        size_t g = h.d < 3 ? 0 : 1, b = h.d < 3 ? 0 : 2;
        VM_CHECK( c.r == expected( w, h, i, j, 0 ) && c.g == expected( w, h, i, j, g ) && c.b == expected( w, h, i, j, b ), "color",
                  "(" << i << "," << j << ") " << int( c.r ) << "," << int( c.g ) << "," << int( c.b ) << "\n" << w.log );
      }
    }
  }
  vm::event( "pixels_compared", h.cell.size() );
}

byte invert( byte const& b ) { return static_cast< byte >( 255 - b ); }
byte add7( byte const& b ) { return static_cast< byte >( b * 3 + 7 ); }
unsigned long calls = 0;
byte counted( byte const& b ) { ++calls; return static_cast< byte >( b + 1 ); }

struct tracked_memory : public image_memory
{
  static int alive;
  explicit tracked_memory( size_t n ) : image_memory( n ) { ++alive; }
  ~tracked_memory() { --alive; }
};
int tracked_memory::alive = 0;

size_t dim( vm::Rng& r ) { return r.chance( 1, 9 ) ? 0 : static_cast< size_t >( r.chance( 1, 8 ) ? r.range( 6, 17 ) : r.range( 1, 5 ) ); }

void case_body( vm::Rng& r )
{
  World w;
  std::string shape;
  int ops = static_cast< int >( r.range( 6, 30 ) );
  for( int op = 0; op < ops; ++op )
  {
    unsigned what = w.hs.empty() ? r.below( 3 ) : static_cast< unsigned >( r.below( 17 ) );
    if( w.hs.size() > 7 && what < 6 ) { what = 16; }
    Handle* h = w.hs.empty() ? nullptr : &w.hs[ r.below( w.hs.size() ) ];
    std::ostringstream step;
    step << "\n" << op << ": ";
    switch( what )
    {
    case 0: case 1:   // own memory
    {
      size_t ww = dim( r ), hh = dim( r ), dd = r.chance( 1, 3 ) ? 3 : dim( r );
      bool il = r.chance( 1, 2 );
      step << "image " << ww << "x" << hh << "x" << dd << ( il ? " interleaved" : "" );
      w.log += step.str();
      Handle n;
      if( dd == 1 && !il && r.chance( 1, 2 ) ) { n.im.reset( new image( ww, hh ) ); }
      else { n.im.reset( new image( ww, hh, dd, il ) ); }
      VM_CHECK( n.im->width() == ww && n.im->height() == hh && n.im->depth() == dd, "dimensions", w.log );
      adopt_fresh( w, n, "constructor" );
      if( n.cell.size() && dd > 1 )
      {
        if( il ) { VM_CHECK( n.im->d_step() == 1, "interleaved", w.log ); vm::event( "interleaved" ); }
        else { VM_CHECK( n.im->w_step() == 1, "planar", w.log ); vm::event( "planar" ); }
      }
      if( n.cell.empty() ) { vm::event( "empty_image" ); }
      set_all( w, n, r );
      w.hs.push_back( std::move( n ) );
      shape += il ? "I" : "P";
      break;
    }
    case 2:           // external memory, any axis order, signs and gaps; sometimes wrapped in shared memory
    {
      size_t n3[ 3 ] = { dim( r ), dim( r ), r.chance( 1, 3 ) ? 3 : dim( r ) };
      unsigned perm[ 3 ] = { 0, 1, 2 };
      for( unsigned i = 2; i > 0; --i ) { std::swap( perm[ i ], perm[ r.below( i + 1 ) ] ); }
      ptrdiff_t st[ 3 ];
      ptrdiff_t cur = 1;
      for( unsigned i = 0; i < 3; ++i )
      {
        cur *= r.chance( 1, 4 ) ? 2 : 1;
        cur += static_cast< ptrdiff_t >( r.chance( 1, 4 ) ? r.range( 1, 3 ) : 0 );
        st[ perm[ i ] ] = cur;
        cur *= static_cast< ptrdiff_t >( std::max< size_t >( 1, n3[ perm[ i ] ] ) );
      }
      ptrdiff_t lo = 0, hi = 0;
      for( unsigned i = 0; i < 3; ++i )
      {
        if( r.chance( 1, 4 ) ) { st[ i ] = -st[ i ]; }
        ptrdiff_t span = n3[ i ] ? st[ i ] * static_cast< ptrdiff_t >( n3[ i ] - 1 ) : 0;
        ( span < 0 ? lo : hi ) += span;
      }
      size_t bytes = static_cast< size_t >( hi - lo + 1 );
      bool shared = r.chance( 1, 2 );
      step << ( shared ? "shared" : "external" ) << " " << n3[ 0 ] << "x" << n3[ 1 ] << "x" << n3[ 2 ] << " steps " << st[ 0 ] << "," << st[ 1 ] << "," << st[ 2 ];
      w.log += step.str();
      Handle n;
      n.w = n3[ 0 ]; n.h = n3[ 1 ]; n.d = n3[ 2 ];
      byte* first;
      if( shared )
      {
        image_memory_sptr mem( new tracked_memory( bytes ) );
        first = static_cast< byte* >( mem->data() ) - lo;
        n.im.reset( new image( mem, first, n3[ 0 ], n3[ 1 ], n3[ 2 ], st[ 0 ], st[ 1 ], st[ 2 ] ) );
        VM_CHECK( n.im->size() == bytes, "size-of-shared", w.log );
        VM_CHECK( n.im->memory() == mem, "memory-of-shared", w.log );
      }
      else
      {
        w.buffers.push_back( new std::vector< byte >( bytes ) );
        first = w.buffers.back()->data() - lo;
        n.im.reset( new image( first, n3[ 0 ], n3[ 1 ], n3[ 2 ], st[ 0 ], st[ 1 ], st[ 2 ] ) );
        VM_CHECK( !n.im->memory() && n.im->size() == 0, "size-of-external", w.log );
        n.external = true;
      }
      VM_CHECK( n.im->first_pixel() == first && n.im->w_step() == st[ 0 ] && n.im->h_step() == st[ 1 ] && n.im->d_step() == st[ 2 ], "layout", w.log );
      fill_cells( n, first, st[ 0 ], st[ 1 ], st[ 2 ] );
      n.store = w.next++;
      w.stores[ n.store ];
      set_all( w, n, r );
      w.hs.push_back( std::move( n ) );
      if( st[ 0 ] < 0 || st[ 1 ] < 0 || st[ 2 ] < 0 ) { vm::event( "negative_steps" ); }
      shape += "E";
      break;
    }
    case 3: case 4:   // window onto the same memory: crop, flip, subsample, transpose, channel
    {
      Handle& o = *h;
      size_t n3[ 3 ] = { o.w, o.h, o.d };
      ptrdiff_t st[ 3 ] = { o.get().w_step(), o.get().h_step(), o.get().d_step() };
      byte* first = o.get().first_pixel();
      for( unsigned a = 0; a < 3; ++a )
      {
        if( !n3[ a ] || !r.chance( 1, 2 ) ) { continue; }
        size_t from = r.below( n3[ a ] ), by = 1 + r.below( 2 );
        size_t len = 1 + r.below( ( n3[ a ] - from + by - 1 ) / by );
        first += static_cast< ptrdiff_t >( from ) * st[ a ];
        st[ a ] *= static_cast< ptrdiff_t >( by );
        n3[ a ] = len;
        if( r.chance( 1, 3 ) ) { first += static_cast< ptrdiff_t >( len - 1 ) * st[ a ]; st[ a ] = -st[ a ]; }
      }
      unsigned p[ 3 ] = { 0, 1, 2 };
      if( r.chance( 1, 4 ) ) { std::swap( p[ 0 ], p[ 1 + r.below( 2 ) ] ); }
      Handle n;
      n.w = n3[ p[ 0 ] ]; n.h = n3[ p[ 1 ] ]; n.d = n3[ p[ 2 ] ];
      step << "window " << n.w << "x" << n.h << "x" << n.d << " of store " << o.store;
      w.log += step.str();
      if( o.external ) { n.im.reset( new image( first, n.w, n.h, n.d, st[ p[ 0 ] ], st[ p[ 1 ] ], st[ p[ 2 ] ] ) ); n.external = true; }
      else { n.im.reset( new image( o.get().memory(), first, n.w, n.h, n.d, st[ p[ 0 ] ], st[ p[ 1 ] ], st[ p[ 2 ] ] ) ); }
      fill_cells( n, first, st[ p[ 0 ] ], st[ p[ 1 ] ], st[ p[ 2 ] ] );
      n.store = o.store;
      w.hs.push_back( std::move( n ) );
      vm::event( "windows" );
      shape += "W";
      break;
    }
    case 5:           // shallow copies
    {
      Handle n;
      switch( r.below( 3 ) )
      {
      case 0: n.im.reset( new image( h->get() ) ); step << "copy"; break;
      case 1: n.im.reset( new image( 3, 2, 1 ) ); *n.im = h->get(); step << "assigned"; break;
      default:
        {
          std::unique_ptr< simple_image_container > box( new simple_image_container( h->get() ) );
          image_container const& ic = *box;
          VM_CHECK( ic.width() == h->w && ic.height() == h->h && ic.depth() == h->d && ic.size() == h->get().size(), "container", w.log );
          n.im.reset( new image( ic.get_image() ) );
          if( r.chance( 1, 2 ) ) { n.box = std::move( box ); }
          step << "through container";
        }
      }
      step << " of store " << h->store;
      w.log += step.str();
      n.w = h->w; n.h = h->h; n.d = h->d; n.cell = h->cell; n.store = h->store; n.external = h->external;
      VM_CHECK( n.im->memory() == h->get().memory() && n.im->first_pixel() == h->get().first_pixel() && n.im->size() == h->get().size(), "shallow-copy", w.log );
      w.hs.push_back( std::move( n ) );
      vm::event( "shallow_copies" );
      shape += "S";
      break;
    }
    case 6: case 7:   // deep copy
    {
      Handle& src = w.hs[ r.below( w.hs.size() ) ];
      Handle tmp;
      Handle* dst;
      bool fresh = r.chance( 1, 2 );
      if( fresh )
      {
        if( r.chance( 1, 2 ) )
        {
          tmp.im.reset( new image() );
          image const& e = *tmp.im;
          VM_CHECK( !e.width() && !e.height() && !e.depth() && !e.w_step() && !e.h_step() && !e.d_step() && !e.size() && !e.memory() && !e.first_pixel(), "default-image", w.log );
        }
        else { tmp.im.reset( new image( dim( r ), dim( r ), dim( r ), r.chance( 1, 2 ) ) ); }
        tmp.w = tmp.im->width(); tmp.h = tmp.im->height(); tmp.d = tmp.im->depth();
        if( tmp.im->memory() ) { adopt_fresh( w, tmp, "destination" ); set_all( w, tmp, r ); }
        else { tmp.store = w.next++; w.stores[ tmp.store ]; }
        dst = &tmp;
      }
      else { dst = h; }
      bool same_size = dst->w == src.w && dst->h == src.h && dst->d == src.d;
      // overlapping memory of different layout is not specified
      if( dst != &src && dst->store == src.store && same_size && dst->cell != src.cell ) { break; }
      step << "deep copy " << dst->w << "x" << dst->h << "x" << dst->d << " (store " << dst->store << ") from " << src.w << "x" << src.h << "x" << src.d << " (store " << src.store << ")";
      w.log += step.str();
      std::vector< byte > want;
      for( byte* p : src.cell ) { want.push_back( w.stores[ src.store ].bytes[ p ] ); }
      image_memory_sptr before = dst->get().memory();
      byte* first_before = dst->get().first_pixel();
      dst->get().copy_from( src.get() );
      if( !same_size )
      {
        adopt_fresh( w, *dst, "deep copy" );
        VM_CHECK( dst->get().memory() != src.get().memory(), "deep-copy-shares", w.log );
        vm::event( "deep_copy_new_memory" );
      }
      else
      {
        VM_CHECK( dst->get().memory() == before && dst->get().first_pixel() == first_before, "deep-copy-same-size-reallocates", w.log );
        vm::event( "deep_copy_same_size" );
      }
      VM_CHECK( dst->get().width() == src.w && dst->get().height() == src.h && dst->get().depth() == src.d, "deep-copy-size", w.log );
      for( size_t i = 0; i < want.size(); ++i ) { w.stores[ dst->store ].bytes[ dst->cell[ i ] ] = want[ i ]; }
      VM_CHECK( equal_content( dst->get(), src.get() ), "deep-copy-not-equal", w.log );
      // into memory laid out alike, or alike but mirrored: nothing beside the pixels changes
      if( !src.cell.empty() && r.chance( 1, 2 ) )
      {
        image const& from = src.get();
        ptrdiff_t st[ 3 ] = { from.w_step(), from.h_step(), from.d_step() };
        size_t n3[ 3 ] = { src.w, src.h, src.d };
        if( r.chance( 1, 4 ) ) { size_t a = r.below( 3 ); st[ a ] = -st[ a ]; }
        ptrdiff_t lo = 0, hi = 0;
        for( unsigned i = 0; i < 3; ++i ) { ptrdiff_t span = st[ i ] * static_cast< ptrdiff_t >( n3[ i ] - 1 ); ( span < 0 ? lo : hi ) += span; }
        size_t bytes = static_cast< size_t >( hi - lo + 1 );
        if( bytes < 100000 )
        {
          image_memory_sptr mem( new image_memory( bytes ) );
          byte* base = static_cast< byte* >( mem->data() );
          std::vector< byte > model( bytes );
          for( auto& b : model ) { b = static_cast< byte >( r.below( 256 ) ); }
          std::copy( model.begin(), model.end(), base );
          image twin( mem, base - lo, src.w, src.h, src.d, st[ 0 ], st[ 1 ], st[ 2 ] );
          twin.copy_from( from );
          VM_CHECK( twin.first_pixel() == base - lo && twin.memory() == mem && twin.w_step() == st[ 0 ] && twin.h_step() == st[ 1 ] && twin.d_step() == st[ 2 ], "deep-copy-same-size-reallocates", w.log );
          for( size_t j = 0; j < src.h; ++j ) { for( size_t i = 0; i < src.w; ++i ) { for( size_t k = 0; k < src.d; ++k )
          {
            model[ static_cast< size_t >( static_cast< ptrdiff_t >( i ) * st[ 0 ] + static_cast< ptrdiff_t >( j ) * st[ 1 ] + static_cast< ptrdiff_t >( k ) * st[ 2 ] - lo ) ] = want[ cells_index( src, i, j, k ) ];
          } } }
          VM_CHECK( std::equal( model.begin(), model.end(), base ), "deep-copy-beside-pixels", "bytes beside the pixels changed\n" << w.log );
          if( bytes > src.cell.size() ) { vm::event( "deep_copy_with_gaps" ); }
        }
      }
      if( fresh ) { w.hs.push_back( std::move( tmp ) ); }
      shape += same_size ? "d" : "D";
      break;
    }
    case 8:           // resize
    {
      size_t ww = dim( r ), hh = dim( r ), dd = r.chance( 1, 3 ) ? h->d : dim( r );
      if( r.chance( 1, 4 ) ) { ww = h->w; hh = h->h; dd = h->d; }
      bool same = ww == h->w && hh == h->h && dd == h->d;
      step << "set_size " << ww << "x" << hh << "x" << dd << " on store " << h->store;
      w.log += step.str();
      h->get().set_size( ww, hh, dd );
      if( !same )
      {
        VM_CHECK( h->get().width() == ww && h->get().height() == hh && h->get().depth() == dd, "resize", w.log );
        adopt_fresh( w, *h, "set_size" );
        set_all( w, *h, r );
        vm::event( "resized" );
      }
      shape += same ? "r" : "R";
      break;
    }
    case 9: case 10:  // write
    {
      if( h->cell.empty() ) { break; }
      unsigned i = static_cast< unsigned >( r.below( h->w ) ), j = static_cast< unsigned >( r.below( h->h ) ), k = static_cast< unsigned >( r.below( h->d ) );
      byte v = static_cast< byte >( r.below( 256 ) );
      step << "write (" << i << "," << j << "," << k << ")=" << int( v ) << " store " << h->store;
      w.log += step.str();
      if( k == 0 && r.chance( 1, 2 ) ) { h->get()( i, j ) = v; } else { h->get()( i, j, k ) = v; }
      w.stores[ h->store ].bytes[ h->cell[ cells_index( *h, i, j, k ) ] ] = v;
      vm::event( "writes" );
      shape += "w";
      break;
    }
    case 11:          // out of range
    {
      image& im = h->get();
      image const& ci = im;
      unsigned i = static_cast< unsigned >( r.below( h->w + 2 ) ), j = static_cast< unsigned >( r.below( h->h + 2 ) ), k = static_cast< unsigned >( r.below( h->d + 2 ) );
      if( r.chance( 1, 8 ) ) { i = 0xffffffffu; }
      if( r.chance( 1, 8 ) ) { j = 0xffffffffu; }
      if( r.chance( 1, 8 ) ) { k = 0xffffffffu; }
      bool o3 = i >= h->w || j >= h->h || k >= h->d, o2 = i >= h->w || j >= h->h || 0 >= h->d;
      step << "access (" << i << "," << j << "," << k << ") of " << h->w << "x" << h->h << "x" << h->d;
      w.log += step.str();
      VM_CHECK( refused( [ & ] { (void) im( i, j, k ); } ) == o3, "range-check-3", w.log );
      VM_CHECK( refused( [ & ] { (void) ci( i, j, k ); } ) == o3, "range-check-3-const", w.log );
      VM_CHECK( refused( [ & ] { volatile byte b = im( i, j ); (void) b; } ) == o2, "range-check-2", w.log );
      VM_CHECK( refused( [ & ] { volatile byte b = ci( i, j ); (void) b; } ) == o2, "range-check-2-const", w.log );
      VM_CHECK( refused( [ & ] { volatile byte b = ci.at( i, j ).r; (void) b; } ) == o2, "range-check-at", w.log );
      vm::event( o3 ? "out_of_range_refused" : "in_range_allowed" );
      shape += "o";
      break;
    }
    case 12: case 13: // compare
    {
      Handle& b = w.hs[ r.below( w.hs.size() ) ];
      bool want = h->w == b.w && h->h == b.h && h->d == b.d;
      size_t diffs = 0;
      if( want ) { for( size_t i = 0; i < b.cell.size(); ++i ) { if( w.stores[ h->store ].bytes[ h->cell[ i ] ] != w.stores[ b.store ].bytes[ b.cell[ i ] ] ) { want = false; ++diffs; } } }
      step << "compare store " << h->store << " with " << b.store;
      w.log += step.str();
      VM_CHECK( equal_content( h->get(), b.get() ) == want, "comparison", "want " << want << " differing pixels " << diffs << w.log );
      VM_CHECK( equal_content( b.get(), h->get() ) == want, "comparison", "want " << want << w.log );
      // the same pixels in another layout are equal; one changed pixel, anywhere, is not
      image other( h->w, h->h, h->d, r.chance( 1, 2 ) );
      for( unsigned j = 0; j < h->h; ++j ) { for( unsigned i = 0; i < h->w; ++i ) { for( unsigned k = 0; k < h->d; ++k ) { other( i, j, k ) = expected( w, *h, i, j, k ); } } }
      VM_CHECK( equal_content( h->get(), other ) && equal_content( other, h->get() ), "comparison-layout", w.log );
      if( !h->cell.empty() )
      {
        unsigned i = static_cast< unsigned >( r.below( h->w ) ), j = static_cast< unsigned >( r.below( h->h ) ), k = static_cast< unsigned >( r.below( h->d ) );
        other( i, j, k ) ^= static_cast< byte >( 1u << r.below( 8 ) );
        VM_CHECK( !equal_content( h->get(), other ) && !equal_content( other, h->get() ), "comparison-one-pixel", "(" << i << "," << j << "," << k << ")" << w.log );
        vm::event( "compared_one_pixel_apart" );
      }
      shape += want ? "=" : "#";
      break;
    }
    case 14:          // transform
    {
      unsigned which = static_cast< unsigned >( r.below( 3 ) );
      step << "transform store " << h->store;
      w.log += step.str();
      byte ( * f )( byte const& ) = which == 0 ? invert : which == 1 ? add7 : counted;
      calls = 0;
      transform_image( h->get(), f );
      if( which == 2 ) { VM_CHECK( calls == h->cell.size(), "transform-calls", calls << " for " << h->cell.size() << w.log ); }
      for( byte* p : h->cell ) { byte& e = w.stores[ h->store ].bytes[ p ]; e = f( e ); }
      vm::event( "transforms" );
      shape += "t";
      break;
    }
    case 15:          // memory block copies
    {
      step << "memory copies";
      w.log += step.str();
      size_t n = r.below( 4 ) ? r.below( 40 ) : 0, m = r.below( 2 ) ? n : r.below( 40 );
      std::unique_ptr< image_memory > a( r.chance( 1, 5 ) ? new image_memory() : new image_memory( n ) ), b( r.chance( 1, 5 ) ? new image_memory() : new image_memory( m ) );
      for( size_t i = 0; i < a->size(); ++i ) { static_cast< byte* >( a->data() )[ i ] = static_cast< byte >( i * 31 + 1 ); }
      for( size_t i = 0; i < b->size(); ++i ) { static_cast< byte* >( b->data() )[ i ] = static_cast< byte >( i ); }
      image_memory c( *a );
      *b = *a;
      VM_CHECK( c.size() == a->size() && b->size() == a->size(), "memory-copy-size", w.log );
      for( size_t i = 0; i < a->size(); ++i )
      {
        byte v = static_cast< byte >( i * 31 + 1 );
        VM_CHECK( static_cast< byte* >( c.data() )[ i ] == v && static_cast< byte* >( b->data() )[ i ] == v, "memory-copy-content", w.log );
      }
      VM_CHECK( a->size() == 0 || ( c.data() != a->data() && b->data() != a->data() ), "memory-copy-shares", w.log );
      image_memory& self = *b;
      self = *b;
      {
        image e, f( e ), g( 2, 2, 1 ), k( 3, 1, 2 );
        k = e;
        for( image const* x : { &e, &f, &k } )
        {
          VM_CHECK( x->width() == 0 && x->height() == 0 && x->depth() == 0 && x->size() == 0 && !x->memory() && !x->first_pixel() && x->w_step() == 0 && x->h_step() == 0 && x->d_step() == 0, "no-image", w.log );
        }
        g.copy_from( e );
        VM_CHECK( g.width() * g.height() * g.depth() == 0 && equal_content( g, e ) && equal_content( e, f ), "no-image-copied", w.log );
        image const& gs = k;
        k = gs;
        VM_CHECK( k.width() == 0, "assigned-to-itself", w.log );
        vm::event( "no_images" );
      }
      vm::event( "memory_copies" );
      shape += "m";
      break;
    }
    default:          // drop a handle; what it shared stays
      step << "drop store " << h->store;
      w.log += step.str();
      w.hs.erase( w.hs.begin() + ( h - &w.hs[ 0 ] ) );
      vm::event( "dropped" );
      shape += "x";
    }
    for( auto& x : w.hs )
    {
      verify( w, x );
      if( x.box ) { VM_CHECK( equal_content( x.box->get_image(), x.get() ) || x.box->width() != x.w || x.box->get_image().first_pixel() != x.get().first_pixel(), "container-content", w.log ); }
    }
  }
  vm::sig( shape );
  vm::sample( w.log );
  w.hs.clear();
  VM_CHECK( tracked_memory::alive == 0, "memory-not-released", tracked_memory::alive << " blocks alive\n" << w.log );
  for( auto* b : w.buffers ) { delete b; }
}

// pixels that lie gigabytes apart: views of a reserved stretch of address
// space of which only the pixels' pages are ever touched
void far_case( vm::Rng& r )
{
  static size_t const span = size_t( 40 ) << 30;
  void* mem = mmap( nullptr, span, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 );
  if( mem == MAP_FAILED ) { vm::event( "no_address_space" ); return; }
  byte* base = static_cast< byte* >( mem );
  static ptrdiff_t const steps[] = { 1, 3, 4096, 0x7fffffffll, 0x80000000ll, 0x80000001ll, 0xffffffffll, 0x100000000ll, 0x100000007ll, 0x140000000ll };
  std::ostringstream log;
  for( int round = 0; round < 6; ++round )
  {
    size_t n[ 2 ][ 3 ];
    ptrdiff_t st[ 2 ][ 3 ];
    std::vector< size_t > at[ 2 ];
    std::unique_ptr< image > im[ 2 ];
    size_t size[ 3 ] = { static_cast< size_t >( r.range( 1, 3 ) ), static_cast< size_t >( r.range( 1, 3 ) ), static_cast< size_t >( r.range( 1, 4 ) ) };
    for( int v = 0; v < 2; ++v )
    {
      size_t zone = v * ( span / 2 );
      std::set< size_t > used;
      for( int tries = 0; ; ++tries )
      {
        size_t lo = 0, hi = 0;
        for( int k = 0; k < 3; ++k )
        {
          n[ v ][ k ] = size[ k ];
          st[ v ][ k ] = tries > 50 ? ( k == 0 ? 1 : k == 1 ? 3 : 9 ) : steps[ r.below( 10 ) ] * ( r.chance( 1, 3 ) ? -1 : 1 );
          if( st[ v ][ k ] < 0 ) { lo += -st[ v ][ k ] * ( size[ k ] - 1 ); } else { hi += st[ v ][ k ] * ( size[ k ] - 1 ); }
        }
        if( lo + hi >= span / 2 ) { continue; }
        size_t start = zone + lo + r.below( span / 2 - lo - hi );
        used.clear();
        at[ v ].clear();
        for( size_t j = 0; j < size[ 1 ]; ++j ) for( size_t i = 0; i < size[ 0 ]; ++i ) for( size_t k = 0; k < size[ 2 ]; ++k )
        {
          size_t p = start + st[ v ][ 0 ] * ptrdiff_t( i ) + st[ v ][ 1 ] * ptrdiff_t( j ) + st[ v ][ 2 ] * ptrdiff_t( k );
          at[ v ].push_back( p );
          used.insert( p );
        }
        if( used.size() != at[ v ].size() ) { continue; }
        im[ v ].reset( new image( base + start, size[ 0 ], size[ 1 ], size[ 2 ], st[ v ][ 0 ], st[ v ][ 1 ], st[ v ][ 2 ] ) );
        break;
      }
      log << "view " << size[ 0 ] << "x" << size[ 1 ] << "x" << size[ 2 ] << " steps " << st[ v ][ 0 ] << " " << st[ v ][ 1 ] << " " << st[ v ][ 2 ] << "\n";
    }
    std::vector< byte > want( at[ 0 ].size() );
    size_t c = 0;
    for( unsigned j = 0; j < size[ 1 ]; ++j ) for( unsigned i = 0; i < size[ 0 ]; ++i ) for( unsigned k = 0; k < size[ 2 ]; ++k, ++c )
    {
      VM_CHECK( &( *im[ 0 ] )( i, j, k ) == base + at[ 0 ][ c ], "far:address", "(" << i << "," << j << "," << k << ")\n" << log.str() );
      want[ c ] = static_cast< byte >( r.below( 255 ) + 1 );
      ( *im[ 0 ] )( i, j, k ) = want[ c ];
      if( k == 0 ) { VM_CHECK( &( *im[ 0 ] )( i, j ) == base + at[ 0 ][ c ], "far:address-2", log.str() ); }
    }
    c = 0;
    for( unsigned j = 0; j < size[ 1 ]; ++j ) for( unsigned i = 0; i < size[ 0 ]; ++i, c += size[ 2 ] )
    {
      rgb_color col = im[ 0 ]->at( i, j );
      size_t g = size[ 2 ] < 3 ? 0 : 1, b = size[ 2 ] < 3 ? 0 : 2;
      VM_CHECK( col.r == want[ c ] && col.g == want[ c + g ] && col.b == want[ c + b ], "far:color", log.str() );
    }
    image fresh;
    fresh.copy_from( *im[ 0 ] );
    im[ 1 ]->copy_from( *im[ 0 ] );
    c = 0;
    for( unsigned j = 0; j < size[ 1 ]; ++j ) for( unsigned i = 0; i < size[ 0 ]; ++i ) for( unsigned k = 0; k < size[ 2 ]; ++k, ++c )
    {
      VM_CHECK( base[ at[ 1 ][ c ] ] == want[ c ] && base[ at[ 0 ][ c ] ] == want[ c ] && fresh( i, j, k ) == want[ c ], "far:copied", "(" << i << "," << j << "," << k << ")\n" << log.str() );
    }
    VM_CHECK( equal_content( *im[ 0 ], *im[ 1 ] ) && equal_content( fresh, *im[ 1 ] ), "far:equal", log.str() );
    size_t one = r.below( want.size() );
    base[ at[ 1 ][ one ] ] ^= 64;
    VM_CHECK( ! equal_content( *im[ 0 ], *im[ 1 ] ), "far:different", log.str() );
    base[ at[ 1 ][ one ] ] ^= 64;
    transform_image( *im[ 1 ], add7 );
    for( c = 0; c < want.size(); ++c ) { VM_CHECK( base[ at[ 1 ][ c ] ] == add7( want[ c ] ) && base[ at[ 0 ][ c ] ] == want[ c ], "far:transformed", log.str() ); }
    vm::event( "far_pixels", want.size() );
  }
  munmap( mem, span );
}

// images of more than four gigabytes, of which only the corners are touched
void vast_case( vm::Rng& r )
{
  size_t const w = 65536 + r.below( 9 ), h = 65536 / 2 + r.below( 9 ), d = 2 + r.below( 2 );
  bool const mix = r.chance( 1, 2 );
  try
  {
    for( int how = 0; how < 2; ++how )
    {
      image im( how ? 1 : w, how ? 1 : h, how ? 3 - d + 2 : d, mix );
      if( how ) { im.set_size( w, h, d ); }
      VM_CHECK( im.width() == w && im.height() == h && im.depth() == d && im.size() == w * h * d, "vast:size", im.size() << " for " << w << "x" << h << "x" << d );
      byte* lo = static_cast< byte* >( im.memory()->data() );
      std::set< byte* > seen;
      for( int c = 0; c < 8; ++c )
      {
        unsigned i = c & 1 ? w - 1 : 0, j = c & 2 ? h - 1 : 0, k = c & 4 ? d - 1 : 0;
        byte* p = &im( i, j, k );
        VM_CHECK( p >= lo && p < lo + w * h * d && seen.insert( p ).second, "vast:corner", "(" << i << "," << j << "," << k << ") at " << ( p - lo ) << " of " << w * h * d << ( mix ? " interleaved" : "" ) );
        *p = static_cast< byte >( c + 1 );
      }
      for( int c = 0; c < 8; ++c ) { VM_CHECK( im( c & 1 ? w - 1 : 0, c & 2 ? h - 1 : 0, c & 4 ? d - 1 : 0 ) == c + 1, "vast:kept", c ); }
    }
    vm::event( "vast_images", 2 );
  }
  catch( std::bad_alloc const& ) { vm::event( "no_memory_for_vast" ); }
}

void body( vm::Rng& r, uint64_t idx )
{
  tracked_memory::alive = 0;
  if( idx % 3000 == 1500 ) { vast_case( r ); }
  if( r.chance( 1, 25 ) ) { far_case( r ); return; }
  case_body( r );
}

}

VM_MAIN( body )
