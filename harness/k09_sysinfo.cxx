// K09: system information agrees with what the kernel reports.
// The kernel's tables and answers are replaced, within the process, by generated ones; what the library
// reports is compared with what the generator put there. Signal dispositions are compared with sigaction's
// own view, stacks with dladdr and the demangler.
#include "vm.h"
#include <algorithm>
#include <kwsys/SystemInformation.hxx>
#include <arpa/inet.h>
#include <cerrno>
#include <cmath>
#include <ifaddrs.h>
#include <netdb.h>
#include <netinet/in.h>
#include <set>
#include <stdarg.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <sys/utsname.h>
#include <time.h>

typedef std::string Str;
typedef kwsys::SystemInformation Info;

extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void*, size_t ), void ( * )( const volatile void* ) ) __attribute__( ( weak ) );
extern "C" size_t __sanitizer_get_allocated_size( const volatile void* ) __attribute__( ( weak ) );

// -- the kernel's answers -----------------------------------------------------
namespace fake {

bool armed = false;
struct File { enum Kind { TEXT, MISSING, UNREADABLE } kind; Str path; };
std::map< Str, File > files;
int opens = 0, closes = 0;

bool name_fails = false;
utsname name;

bool limit_fails = false;
std::map< int, rlim64_t > limits;

int load_answer = 0;
double load[ 3 ];

bool host_fails = false;
Str host;
bool list_fails = false;
struct Iface { int family; Str text; int error; };   // family -1: no address
std::vector< Iface > ifaces;
std::vector< std::pair< ifaddrs*, int > > lists;     // given out, freed
int asked = 0, bad_length = 0;

char const* redirect( char const* p )
{
  static Str missing = "/nonexistent/k09";
  if( !armed || !p ) { return p; }
  auto i = files.find( p );
  if( i == files.end() ) { return p; }
  return i->second.kind == File::MISSING ? missing.c_str() : i->second.path.c_str();
}

} // namespace fake

extern "C" {

FILE* fopen( char const* p, char const* m )
{
  static FILE* ( *real )( char const*, char const* ) = reinterpret_cast< FILE* ( * )( char const*, char const* ) >( dlsym( RTLD_NEXT, "fopen" ) );
  return real( fake::redirect( p ), m );
}

FILE* fopen64( char const* p, char const* m )
{
  static FILE* ( *real )( char const*, char const* ) = reinterpret_cast< FILE* ( * )( char const*, char const* ) >( dlsym( RTLD_NEXT, "fopen64" ) );
  return real( fake::redirect( p ), m );
}

__attribute__( ( no_sanitize( "address" ), no_sanitize( "undefined" ) ) ) int uname( utsname* u ) noexcept
{
  if( !fake::armed ) { return static_cast< int >( syscall( SYS_uname, u ) ); }
  if( fake::name_fails ) { std::memset( u, 'x', sizeof *u ); errno = EFAULT; return -1; }
  *u = fake::name;
  return 0;
}

// (asked by the sanitizer before anything is set up)
#define RAW __attribute__( ( no_sanitize( "address" ), no_sanitize( "undefined" ) ) )
__attribute__( ( noinline ) ) int k09_limit( int what, rlimit64* l )
{
  if( fake::limit_fails ) { l->rlim_cur = l->rlim_max = 1024; errno = EINVAL; return -1; }
  auto i = fake::limits.find( what );
  l->rlim_cur = i == fake::limits.end() ? RLIM64_INFINITY : i->second;
  l->rlim_max = RLIM64_INFINITY;
  return 0;
}

RAW int getrlimit64( __rlimit_resource_t what, rlimit64* l ) noexcept
{
  return fake::armed ? k09_limit( what, l ) : static_cast< int >( syscall( SYS_prlimit64, 0, what, nullptr, l ) );
}

RAW int getrlimit( __rlimit_resource_t what, rlimit* l ) noexcept
{
  return fake::armed ? k09_limit( what, reinterpret_cast< rlimit64* >( l ) ) : static_cast< int >( syscall( SYS_prlimit64, 0, what, nullptr, l ) );
}

int getloadavg( double* l, int n ) noexcept
{
  static int ( *real )( double*, int ) = reinterpret_cast< int ( * )( double*, int ) >( dlsym( RTLD_NEXT, "getloadavg" ) );
  if( !fake::armed ) { return real( l, n ); }
  int m = std::min( n, fake::load_answer );
  for( int i = 0; i < m; ++i ) { l[ i ] = fake::load[ i ]; }
  return m;
}

int gethostname( char* p, size_t n ) noexcept
{
  static int ( *real )( char*, size_t ) = reinterpret_cast< int ( * )( char*, size_t ) >( dlsym( RTLD_NEXT, "gethostname" ) );
  if( !fake::armed ) { return real( p, n ); }
  if( fake::host_fails || fake::host.size() + 1 > n ) { errno = ENAMETOOLONG; return -1; }
  std::memcpy( p, fake::host.c_str(), fake::host.size() + 1 );
  return 0;
}

int __gethostname_chk( char* p, size_t n, size_t ) noexcept { return gethostname( p, n ); }

int getifaddrs( ifaddrs** out ) noexcept
{
  static int ( *real )( ifaddrs** ) = reinterpret_cast< int ( * )( ifaddrs** ) >( dlsym( RTLD_NEXT, "getifaddrs" ) );
  if( !fake::armed ) { return real( out ); }
  if( fake::list_fails ) { errno = ENOBUFS; return -1; }
  ifaddrs* head = nullptr;
  for( size_t i = fake::ifaces.size(); i-- > 0; )
  {
    ifaddrs* a = static_cast< ifaddrs* >( std::calloc( 1, sizeof( ifaddrs ) ) );
    a->ifa_next = head;
    int f = fake::ifaces[ i ].family;
    if( f == AF_INET )
    {
      sockaddr_in* s = static_cast< sockaddr_in* >( std::calloc( 1, sizeof( sockaddr_in ) ) );
      s->sin_family = AF_INET;
      s->sin_port = static_cast< in_port_t >( i );
      a->ifa_addr = reinterpret_cast< sockaddr* >( s );
    }
    else if( f == AF_INET6 )
    {
      sockaddr_in6* s = static_cast< sockaddr_in6* >( std::calloc( 1, sizeof( sockaddr_in6 ) ) );
      s->sin6_family = AF_INET6;
      s->sin6_port = static_cast< in_port_t >( i );
      a->ifa_addr = reinterpret_cast< sockaddr* >( s );
    }
    else if( f >= 0 )
    {
      sockaddr* s = static_cast< sockaddr* >( std::calloc( 1, sizeof( sa_family_t ) ) );
      s->sa_family = static_cast< sa_family_t >( f );
      a->ifa_addr = s;
    }
    head = a;
  }
  fake::lists.push_back( { head, 0 } );
  *out = head;
  return 0;
}

void freeifaddrs( ifaddrs* l ) noexcept
{
  static void ( *real )( ifaddrs* ) = reinterpret_cast< void ( * )( ifaddrs* ) >( dlsym( RTLD_NEXT, "freeifaddrs" ) );
  if( !fake::armed ) { real( l ); return; }
  for( auto& e : fake::lists ) { if( e.first == l ) { ++e.second; if( e.second > 1 ) { return; } } }
  while( l )
  {
    ifaddrs* n = l->ifa_next;
    std::free( l->ifa_addr );
    std::free( l );
    l = n;
  }
}

int getnameinfo( sockaddr const* a, socklen_t n, char* host, socklen_t hn, char* serv, socklen_t sn, int flags )
{
  typedef int ( *fn )( sockaddr const*, socklen_t, char*, socklen_t, char*, socklen_t, int );
  static fn real = reinterpret_cast< fn >( dlsym( RTLD_NEXT, "getnameinfo" ) );
  if( !fake::armed ) { return real( a, n, host, hn, serv, sn, flags ); }
  ++fake::asked;
  size_t i;
  if( a->sa_family == AF_INET ) { if( n != sizeof( sockaddr_in ) ) { ++fake::bad_length; } i = reinterpret_cast< sockaddr_in const* >( a )->sin_port; }
  else { if( n != sizeof( sockaddr_in6 ) ) { ++fake::bad_length; } i = reinterpret_cast< sockaddr_in6 const* >( a )->sin6_port; }
  fake::Iface const& f = fake::ifaces[ i ];
  if( f.error )
  {
    // what the answer leaves in the buffer counts for nothing
    if( hn > 40 ) { std::snprintf( host, hn, "%.20s.left-over", fake::host.c_str() ); }
    return f.error;
  }
  if( f.text.size() + 1 > hn ) { return EAI_OVERFLOW; }
  std::memcpy( host, f.text.c_str(), f.text.size() + 1 );
  return 0;
}

} // extern "C"

namespace {

// the library speaks of problems on cout
struct Quiet
{
  std::ostringstream text;
  std::streambuf* old;
  Quiet() : old( std::cout.rdbuf( text.rdbuf() ) ) { }
  ~Quiet() { std::cout.rdbuf( old ); }
};

struct Armed
{
  Armed() { fake::armed = true; }
  ~Armed() { fake::armed = false; fake::files.clear(); }
};

// -- memory taken ------------------------------------------------------------
size_t g_live = 0, g_peak = 0;
bool g_weigh = false;
void hook_malloc( const volatile void*, size_t n ) { if( g_weigh ) { g_live += n; g_peak = std::max( g_peak, g_live ); } }
void hook_free( const volatile void* p )
{
  if( g_weigh && p )
  {
    size_t n = __sanitizer_get_allocated_size( p );
    g_live -= std::min( g_live, n );
  }
}

void provide( Str const& path, Str const& text )
{
  static int n = 0;
  Str real = vm::dir() + "/table" + vm::str( n++ % 4 );
  vm::spit( real, text );
  fake::files[ path ] = { fake::File::TEXT, real };
}

// -- words ---------------------------------------------------------------------
Str word( vm::Rng& r )
{
  static char const* trap[] = { "cpu", "model", "flags", "stepping", "physical id", "processor", "cpu cores", "vendor_id", "cache size", "MHz", "@", "3.40GHz", "(R)", "(TM)", "Xeon", "Core", "name", "cpu family", "KB", "I-cache", "ncpus active" };
  if( r.chance( 1, 2 ) ) { return trap[ r.below( sizeof trap / sizeof *trap ) ]; }
  return r.str( "abcxyzABC0123456789-_/.,()", 1, 9 );
}

Str phrase( vm::Rng& r, int lo, int hi )
{
  Str s;
  for( long n = r.range( lo, hi ); n > 0; --n ) { s += word( r ); if( n > 1 ) { s += Str( r.chance( 1, 6 ) ? 1 + r.below( 5 ) : 1, ' ' ); } }
  return s;
}

Str sep( vm::Rng& r, Str const& key )
{
  if( r.chance( 1, 8 ) ) { return ": "; }
  if( r.chance( 1, 8 ) ) { return " : "; }
  return Str( key.size() < 8 ? 2 : 1, '\t' ) + ": ";
}

// -- the processors ------------------------------------------------------------
struct Table
{
  Str text;
  unsigned logical = 0, physical = 1;
  float mhz = 0;
  Str family = "0", model = "0", stepping = "0", vendor, maker = "Unknown Manufacturer", model_name, processor;
  bool processor_known = false;        // else any non-empty text
  int cache = 0;
  std::set< Str > flags;
  Str kind;
};

struct Known { char const* vendor; int family, model; char const* name; };
Known const g_known[] = {
  { "GenuineIntel", 3, 2, "Newer i80386 family" }, { "GenuineIntel", 4, 0, "i80486DX-25/33" }, { "GenuineIntel", 4, 9, "i80486DX4 WriteBack" }, { "GenuineIntel", 5, 2, "P54C" },
  { "GenuineIntel", 6, 7, "Pentium III (0.25 micron)" }, { "GenuineIntel", 6, 11, "Pentium III (0.13 micron) With 256 Or 512 KB On-Die L2 Cache " }, { "GenuineIntel", 7, 0, "Intel Merced (IA-64)" },
  { "GenuineIntel", 15, 2, "Pentium IV (0.13 micron)" }, { "AuthenticAMD", 4, 14, "5x86" }, { "AuthenticAMD", 5, 9, "K6-III" }, { "AuthenticAMD", 6, 4, "Athlon- (Thunderbird core)" },
  { "AMD ISBETTER", 5, 8, "K6-2" }, { "GenuineTMx86", 5, 4, "Crusoe TM3x00 and TM5x00" }, { "TransmetaCPU", 5, 4, "Crusoe TM3x00 and TM5x00" }, { "RiseRiseRise", 5, 2, "mP6 (0.18 micron)" },
  { "UMC UMC UMC ", 4, 2, "U5S" }, { "CentaurHauls", 5, 9, "C3" }, { "CentaurHauls", 6, 6, "VIA Cyrix III - Samuel" }, { "CyrixInstead", 5, 4, "MediaGX GXm" }, { "CyrixInstead", 6, 5, "Cyrix M2 Core" },
  { "NexGenDriven", 5, 0, "Nx586 or Nx586FPU" }, { "Geode By NSC", 5, 4, "Cx486SLC \\ DLC \\ Cx486S A-Step" },
};

struct Maker { char const* vendor; char const* id; };
Maker const g_makers[] = {
  { "GenuineIntel", "Intel Corporation" }, { "UMC UMC UMC ", "United Microelectronics Corp." }, { "AuthenticAMD", "Advanced Micro Devices" }, { "AMD ISBETTER", "Advanced Micro Devices" },
  { "CyrixInstead", "Cyrix Corp., VIA Inc." }, { "NexGenDriven", "NexGen Inc., Advanced Micro Devices" }, { "CentaurHauls", "IDT\\Centaur, Via Inc." }, { "RiseRiseRise", "Rise" },
  { "GenuineTMx86", "Transmeta" }, { "TransmetaCPU", "Transmeta" }, { "Geode By NSC", "National Semiconductor" }, { "Sun", "Sun Microelectronics" }, { "IBM", "IBM" },
  { "Hewlett-Packard", "Hewlett-Packard" }, { "Motorola", "Motorola" },
};

Str maker_of( Str const& vendor )
{
  for( auto const& m : g_makers ) { if( vendor == m.vendor ) { return m.id; } }
  return "Unknown Manufacturer";
}

char const* const g_flags[] = { "fpu", "vme", "de", "tsc", "msr", "cx8", "apic", "sep", "mtrr", "cmov", "pat", "mmx", "mmxext", "fxsr", "sse", "sse2", "sse4_1", "sse2x", "acpi", "x2apic", "3dnow", "3dnowext",
  "3dnowprefetch", "fcmov", "xsse", "ht", "tsc_adjust", "nonstop_tsc", "cpu", "model" };

typedef std::pair< Str, Str > Line;

Table make_x86( vm::Rng& r )
{
  Table t;
  t.kind = "x86";
  unsigned sockets = r.chance( 1, 2 ) ? 1 : static_cast< unsigned >( r.range( 2, 6 ) ), cores = r.chance( 1, 3 ) ? 1 : static_cast< unsigned >( r.range( 2, 12 ) ), threads = r.chance( 1, 2 ) ? 1 : 2;
  if( r.chance( 1, 60 ) ) { sockets = 8; cores = 24; threads = 2; }
  bool topology = r.chance( 5, 6 );
  std::set< unsigned > ids;
  while( ids.size() < sockets )
  {
    unsigned far = r.chance( 1, 2 ) ? sockets : 12;
    ids.insert( static_cast< unsigned >( r.below( far ) ) );
  }
  std::vector< unsigned > order( ids.begin(), ids.end() );
  if( r.chance( 1, 2 ) ) { for( size_t i = order.size(); i > 1; --i ) { std::swap( order[ i - 1 ], order[ r.below( i ) ] ); } }
  if( !topology ) { t.physical = 1; } else { t.physical = sockets * cores; }
  t.logical = sockets * cores * threads;

  int family, model;
  if( r.chance( 1, 2 ) )
  {
    Known const& k = g_known[ r.below( sizeof g_known / sizeof *g_known ) ];
    t.vendor = k.vendor; family = k.family; model = k.model; t.processor = k.name; t.processor_known = true;
  }
  else
  {
    t.vendor = r.chance( 1, 2 ) ? Str( g_makers[ r.below( sizeof g_makers / sizeof *g_makers ) ].vendor ) : phrase( r, 1, 2 );
    family = static_cast< int >( r.range( 20, 40 ) );
    model = static_cast< int >( r.range( 0, 255 ) );
    if( t.vendor == "Geode By NSC" ) { t.processor = "Cx486SLC \\ DLC \\ Cx486S A-Step"; t.processor_known = true; }
  }
  t.maker = maker_of( t.vendor );
  t.family = vm::str( family );
  t.model = vm::str( model );
  bool named = r.chance( 5, 6 );
  t.model_name = named ? phrase( r, 1, 6 ) : Str();
  t.stepping = vm::str( r.range( 0, 20 ) );
  char mhz[ 40 ];
  std::snprintf( mhz, sizeof mhz, "%.3f", r.real( 16, 6000 ) );
  t.mhz = static_cast< float >( std::atof( mhz ) );
  t.cache = static_cast< int >( r.range( 1, 400000 ) );
  Str flags;
  for( char const* f : g_flags ) { if( r.chance( 1, 2 ) ) { t.flags.insert( f ); } }
  std::vector< Str > fl( t.flags.begin(), t.flags.end() );
  for( size_t i = fl.size(); i > 1; --i ) { std::swap( fl[ i - 1 ], fl[ r.below( i ) ] ); }
  for( auto const& f : fl ) { flags += ( flags.empty() ? "" : " " ) + f; }
  bool empties = r.chance( 1, 3 );              // values that are empty: the colon is all there is
  if( empties && r.chance( 1, 3 ) ) { flags.clear(); t.flags.clear(); }
  bool stepping = r.chance( 5, 6 );
  if( !stepping ) { t.stepping = "0"; }
  bool has_flags = r.chance( 9, 10 );
  if( !has_flags ) { t.flags.clear(); }

  bool shuffle = r.chance( 1, 3 );
  uint64_t order_seed = r.u64();
  unsigned number = 0;
  for( unsigned th = 0; th < threads; ++th )
  {
    for( unsigned s : order )
    {
      for( unsigned c = 0; c < cores; ++c )
      {
        std::vector< Line > l;
        if( !t.vendor.empty() ) { l.push_back( { "vendor_id", t.vendor } ); }
        l.push_back( { "cpu family", t.family } );
        l.push_back( { "model", t.model } );
        if( named || empties ) { l.push_back( { "model name", t.model_name } ); }
        if( stepping ) { l.push_back( { "stepping", t.stepping } ); }
        l.push_back( { "microcode", "0x2b000603" } );
        if( number == 0 ) { l.push_back( { "cpu MHz", mhz } ); }
        else { l.push_back( { "cpu MHz", "999.000" } ); }
        l.push_back( { "cache size", vm::str( t.cache ) + " KB" } );
        if( topology )
        {
          l.push_back( { "physical id", vm::str( s ) } );
          l.push_back( { "siblings", vm::str( cores * threads ) } );
          l.push_back( { "core id", vm::str( c ) } );
          l.push_back( { "cpu cores", vm::str( cores ) } );
        }
        l.push_back( { "fpu", "yes" } );
        l.push_back( { "cpuid level", "22" } );
        if( has_flags ) { l.push_back( { "flags", flags } ); }
        l.push_back( { "bugs", "cpu_meltdown spectre_v1 mds" } );
        l.push_back( { "bogomips", "5200.00" } );
        if( shuffle )
        {
          vm::Rng o( order_seed );
          for( size_t i = l.size(); i > 1; --i ) { std::swap( l[ i - 1 ], l[ o.below( i ) ] ); }
        }
        if( empties ) { l.push_back( { "power management", "" } ); }
        l.insert( l.begin(), { "processor", vm::str( number ) } );
        for( auto const& e : l )
        {
          Str s2 = e.first == "processor" ? Str( "\t: " ) : sep( r, e.first );
          if( e.second.empty() && r.chance( 2, 3 ) ) { s2.resize( s2.size() - 1 ); }
          t.text += e.first + s2 + e.second + "\n";
        }
        t.text += "\n";
        ++number;
      }
    }
  }
  return t;
}

Table make_arm( vm::Rng& r )
{
  Table t;
  t.kind = "arm";
  t.logical = static_cast< unsigned >( r.range( 1, 16 ) );
  t.physical = 1;
  t.family = vm::str( r.range( 4, 9 ) );
  t.stepping = vm::str( r.range( 0, 9 ) );
  for( unsigned i = 0; i < t.logical; ++i )
  {
    t.text += "processor\t: " + vm::str( i ) + "\n";
    t.text += "BogoMIPS\t: 48.00\nFeatures\t: fp asimd fpu sse mmx\nCPU implementer\t: 0x41\n";
    t.text += r.chance( 1, 2 ) ? "CPU architecture: " + t.family + "\n" : "CPU architecture\t: " + t.family + "\n";
    t.text += "CPU variant\t: 0x3\nCPU part\t: 0xd0c\nCPU revision\t: " + t.stepping + "\n\n";
  }
  return t;
}

Table make_sparc( vm::Rng& r )
{
  Table t;
  t.kind = "sparc";
  unsigned n = static_cast< unsigned >( r.range( 1, 64 ) );
  t.logical = 0;
  t.physical = n;
  t.processor = "TI UltraSparc II  (BlackBird)";
  t.processor_known = true;
  unsigned long long hz = r.chance( 1, 4 ) ? 0x100000000ull + r.below( 2000000000ull ) : r.below( 4000000000ull );
  char h[ 40 ];
  std::snprintf( h, sizeof h, "%016llx", hz );
  t.mhz = static_cast< float >( hz ) / 1000000.0f;
  t.text = "cpu\t\t: " + t.processor + "\nfpu\t\t: UltraSparc II integrated FPU\nprom\t\t: OBP 3.23.1 1999/07/16 12:08\ntype\t\t: sun4u\nncpus probed\t: " + vm::str( n + r.below( 3 ) ) +
           "\nncpus active\t: " + vm::str( n ) + "\nCpu0Bogo\t: 897.43\nCpu0ClkTck\t: " + h + "\n";
  for( unsigned i = 1; i < n; ++i ) { t.text += "Cpu" + vm::str( i ) + "Bogo\t: 897.43\nCpu" + vm::str( i ) + "ClkTck\t: 0000000000000001\n"; }
  t.text += "MMU Type\t: Spitfire\n";
  return t;
}

Table make_parisc( vm::Rng& r )
{
  Table t;
  t.kind = "parisc";
  t.logical = static_cast< unsigned >( r.range( 1, 4 ) );
  t.physical = 1;
  bool two = r.chance( 1, 2 );
  t.family = two ? "512" : "282";
  t.maker = "Hewlett-Packard";
  t.processor = "PA8700 (PCX-W2)";
  t.processor_known = true;
  t.model = "9000";
  t.model_name = "Allegro W2";
  int i = static_cast< int >( r.range( 1, 2048 ) ), d = static_cast< int >( r.range( 1, 2048 ) );
  t.cache = i + d;
  t.mhz = 750;
  for( unsigned n = 0; n < t.logical; ++n )
  {
    t.text += "processor\t: " + vm::str( n ) + "\ncpu family\t: " + ( two ? "PA-RISC 2.0" : "PA-RISC 1.1a" ) + "\ncpu\t\t: " + t.processor + "\ncpu MHz\t\t: 750.000000\ncapabilities\t: os64\nmodel\t\t: 9000/785/C3750\n" +
              "model name\t: Allegro W2\nhversion\t: 0x00005dc0\nsversion\t: 0x00000481\nI-cache\t\t: " + vm::str( i ) + " KB\nD-cache\t\t: " + vm::str( d ) + " KB (WB, direct mapped)\nITLB entries\t: 240\n" +
              "DTLB entries\t: 240 - shared with ITLB\nbogomips\t: 1495.04\nsoftware id\t: 1853454216\n\n";
  }
  return t;
}

Table make_ppc( vm::Rng& r )
{
  Table t;
  t.kind = "ppc";
  t.logical = static_cast< unsigned >( r.range( 1, 8 ) );
  t.physical = 1;
  t.processor = "POWER8 (raw), altivec supported";
  t.processor_known = true;
  for( unsigned n = 0; n < t.logical; ++n ) { t.text += "processor\t: " + vm::str( n ) + "\ncpu\t\t: " + t.processor + "\nclock\t\t: 3425.000000MHz\nrevision\t: 2.1 (pvr 004b 0201)\n\n"; }
  t.text += "timebase\t: 512000000\nplatform\t: PowerNV\nmachine\t\t: PowerNV 8247-22L\n";
  return t;
}

Table make_table( vm::Rng& r )
{
  switch( r.below( 9 ) )
  {
    case 0: return make_arm( r );
    case 1: return make_sparc( r );
    case 2: return make_parisc( r );
    case 3: return make_ppc( r );
    default: return make_x86( r );
  }
}

Str squeezed( Str s )
{
  size_t p;
  while( ( p = s.find( "  " ) ) != Str::npos ) { s.erase( p, 1 ); }
  return s;
}

void check_table( Info& i, Table const& t )
{
  auto const& x = t.text;
#define SAME( got, want, what ) do { auto g_ = ( got ); decltype( g_ ) w_( want ); VM_CHECK( g_ == w_, what, "reported " << g_ << ", the table says " << w_ << "\n" << x.substr( 0, 1500 ) ); } while( 0 )
  SAME( i.GetNumberOfLogicalCPU(), t.logical, "logical" );
  SAME( i.GetNumberOfPhysicalCPU(), t.physical, "physical" );
  SAME( i.GetLogicalProcessorsPerPhysical(), t.logical / t.physical, "per-physical" );
  SAME( i.GetProcessorClockFrequency(), t.mhz, "clock" );
  SAME( i.GetFamilyID(), t.family, "family" );
  SAME( Str( i.GetVendorString() ), t.vendor, "vendor" );
  SAME( Str( i.GetVendorID() ), t.maker, "manufacturer" );
  SAME( i.GetModelID(), t.model, "model" );
  SAME( i.GetModelName(), t.model_name, "model-name" );
  SAME( i.GetSteppingCode(), t.stepping, "stepping" );
  SAME( i.GetProcessorCacheSize(), t.cache, "cache" );
  SAME( i.GetProcessorCacheXSize( 0x8000 ), t.cache, "cache" );
  SAME( i.GetProcessorCacheXSize( 0x10000 ), 0, "cache" );
  SAME( i.GetProcessorCacheXSize( 0x20000 ), 0, "cache" );
  SAME( i.GetProcessorCacheXSize( 12345 ), -1, "cache" );
  if( t.processor_known ) { SAME( Str( i.GetExtendedProcessorName() ), t.processor, "processor" ); }
  else { VM_CHECK( Str( i.GetExtendedProcessorName() ).compare( 0, 7, "Unknown" ) == 0, "processor", "the processor is called " << i.GetExtendedProcessorName() << "\n" << x.substr( 0, 1500 ) ); }
  struct { char const* flag; long bit; } const bits[] = { { "mmx", 1 }, { "sse", 4 }, { "sse2", 8 }, { "3dnow", 0x10 }, { "apic", 0x400 }, { "cmov", 0x2000 }, { "mtrr", 0x4000 }, { "acpi", 0x40000 } };
  for( auto const& b : bits )
  {
    SAME( i.DoesCPUSupportFeature( b.bit ), t.flags.count( b.flag ) > 0, "feature" );
    if( t.flags.count( b.flag ) ) { vm::event( "features found" ); } else { vm::event( "features absent" ); }
  }
  std::ostringstream d;
  d << t.physical << " core ";
  if( t.model_name.empty() ) { d << t.mhz << " MHz " << t.vendor << " " << i.GetExtendedProcessorName(); }
  else { d << t.model_name; }
  SAME( i.GetCPUDescription(), squeezed( d.str() ), "description" );
#undef SAME
}

void cpus( vm::Rng& r )
{
  Table t = make_table( r );
  switch( r.below( 4 ) )              // how the text ends
  {
    case 0: { while( t.text.size() && t.text.back() == '\n' ) { t.text.pop_back(); } vm::event( "last line open" ); break; }
    case 1: { while( t.text.size() && t.text.back() == '\n' ) { t.text.pop_back(); } t.text += "\n"; vm::event( "no blank line at the end" ); break; }
    case 2: { t.text += "\n\n"; break; }
    default: break;
  }
  vm::note( "processor table " + t.kind + ":\n" + t.text.substr( 0, 2500 ) );
  provide( "/proc/cpuinfo", t.text );
  Info i;
  struct timespec a, b;
  g_live = g_peak = 0;
  {
    Armed arm;
    Quiet q;
    clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &a );
    g_weigh = true;
    i.RunCPUCheck();
    g_weigh = false;
    clock_gettime( CLOCK_PROCESS_CPUTIME_ID, &b );
  }
  VM_CHECK( g_peak <= 16 * t.text.size() + ( 1u << 20 ), "memory-taken", "a table of " << t.text.size() << " bytes took " << g_peak << " bytes of memory to read" );
  double sec = static_cast< double >( b.tv_sec - a.tv_sec ) + 1e-9 * static_cast< double >( b.tv_nsec - a.tv_nsec );
  VM_CHECK( sec < 20, "time-taken", "a table of " << t.text.size() << " bytes took " << sec << " seconds" );
  check_table( i, t );
  vm::event( "tables " + t.kind );
  if( t.logical >= 300 ) { vm::event( "many processors" ); }
  if( t.physical > 1 ) { vm::event( "several cores" ); }
  if( r.chance( 1, 4 ) )
  {
    // asked once more: the same table gives the same answers
    provide( "/proc/cpuinfo", t.text );
    { Armed arm; Quiet q; i.RunCPUCheck(); }
    check_table( i, t );
    vm::event( "asked again" );
  }
  vm::sig( t.kind + vm::str( t.logical ) + "/" + vm::str( t.physical ) + t.vendor + t.model_name + t.family );
}

// anything at all in the table: an answer, in time, within memory
void odd_cpus( vm::Rng& r )
{
  Info i;
  Str what;
  Str text;
  switch( r.below( 6 ) )
  {
    case 0: { fake::files[ "/proc/cpuinfo" ] = { fake::File::MISSING, "" }; what = "missing"; break; }
    case 1: { fake::files[ "/proc/cpuinfo" ] = { fake::File::UNREADABLE, vm::dir() }; what = "unreadable"; break; }
    case 2: { text = ""; provide( "/proc/cpuinfo", text ); what = "empty"; break; }
    case 3:
    {
      text = make_table( r ).text;
      text.resize( r.below( text.size() + 1 ) );
      provide( "/proc/cpuinfo", text );
      what = "cut off";
      break;
    }
    case 4:
    {
      text = make_table( r ).text;
      for( size_t n = 1 + r.below( 12 ); n && text.size() > 1; --n )
      {
        size_t p = r.below( text.size() );
        switch( r.below( 5 ) )
        {
          case 0: text[ p ] = static_cast< char >( r.below( 256 ) ); break;
          case 1: text.erase( p, 1 + r.below( 12 ) ); break;
          case 2: text.insert( p, r.str( ":\t\n 0", 1, 5 ) ); break;
          case 3: { size_t c = text.find( ':', p ); if( c != Str::npos ) { size_t e = text.find( '\n', c ); if( e != Str::npos ) { text.erase( c + 1, e - c - 1 - ( r.chance( 1, 2 ) ? 0 : 0 ) ); } } break; }
          default: { size_t c = text.find( ':', p ); if( c != Str::npos ) { text.insert( c + 1, r.chance( 1, 2 ) ? " 99999999999999999999999" : " -17" ); } break; }
        }
      }
      provide( "/proc/cpuinfo", text );
      what = "mutated";
      break;
    }
    default:
    {
      static char const* const shorts[] = { "\n", "\n\n", ":", "x", "processor\t", "processor\t:", "cpu", "cpu:", "cpu\n:", "model:\n", "physical id", "physical id:", "physical id\t: 0", "flags:\nstepping:\n", "vendor_id\t:\n", "stepping\t:\nflags\t:\n" };
      text = shorts[ r.below( sizeof shorts / sizeof *shorts ) ];
      provide( "/proc/cpuinfo", text );
      what = "tiny";
      break;
    }
  }
  vm::note( "processor table " + what + ":\n" + text.substr( 0, 2500 ) );
  {
    Armed arm;
    Quiet q;
    i.RunCPUCheck();
  }
  // every value reported is usable
  Str all = i.GetCPUDescription() + i.GetFamilyID() + i.GetModelID() + i.GetModelName() + i.GetSteppingCode() + i.GetVendorString() + i.GetVendorID() + i.GetExtendedProcessorName() + i.GetProcessorSerialNumber() + i.GetTypeID();
  if( what != "missing" )
  {
    unsigned n = 0;
    for( size_t p = text.find( "processor\t" ); p != Str::npos; p = text.find( "processor\t", p + 1 ) ) { ++n; }
    VM_CHECK( i.GetNumberOfLogicalCPU() <= n, "odd-table", what << ": " << i.GetNumberOfLogicalCPU() << " processors from a table that names " << n );
  }
  if( what == "unreadable" || what == "empty" || what == "missing" )
  {
    VM_CHECK( i.GetNumberOfLogicalCPU() == 0 && i.GetNumberOfPhysicalCPU() <= 1 && i.GetModelName().empty() && i.GetVendorString() == Str() && i.GetProcessorClockFrequency() == 0 && i.GetProcessorCacheSize() == 0, "odd-table",
              "a table that is " << what << " gives " << i.GetNumberOfLogicalCPU() << "/" << i.GetNumberOfPhysicalCPU() << " processors, \"" << i.GetModelName() << "\"" );
  }
  Str line = i.GetModelName() + i.GetVendorString();
  VM_CHECK( line.find( '\n' ) == Str::npos, "value-spans-lines", "a value of the " << what << " table spans lines: " << vm::show( line.substr( 0, 200 ) ) << "\n" << text.substr( 0, 1000 ) );
  VM_CHECK( Str( i.GetExtendedProcessorName() ).find( '\n' ) == Str::npos, "value-spans-lines", "the processor's name spans lines: " << vm::show( Str( i.GetExtendedProcessorName() ).substr( 0, 200 ) ) << "\n" << text.substr( 0, 1000 ) );
  vm::event( "odd tables" );
  vm::event( "table " + what );
  vm::sig( what + vm::str( vm::hash( text ) ) );
  (void)all;
}

// -- memory -----------------------------------------------------------------------
Str field( vm::Rng& r, Str const& name, unsigned long v )
{
  Str s = name + ":";
  Str n = vm::str( v );
  if( r.chance( 3, 4 ) && s.size() + n.size() < 24 ) { s += Str( 24 - s.size() - n.size(), ' ' ); } else { s += " "; }
  return s + n + " kB\n";
}

unsigned long amount( vm::Rng& r )
{
  switch( r.below( 5 ) )
  {
    case 0: return r.below( 3000 );
    case 1: return r.below( 1ul << 22 );
    case 2: return r.below( 1ul << 34 );
    case 3: return r.below( 1ul << 42 );
    default: return 1024 * r.below( 5000000 );
  }
}

void set_release( Str const& rel )
{
  std::memset( &fake::name, 0, sizeof fake::name );
  std::strcpy( fake::name.sysname, "Linux" );
  std::strcpy( fake::name.nodename, "node" );
  std::strncpy( fake::name.release, rel.c_str(), sizeof fake::name.release - 1 );
  std::strcpy( fake::name.version, "#1" );
  std::strcpy( fake::name.machine, "x86_64" );
}

void memory( vm::Rng& r )
{
  unsigned long total = amount( r ), free = amount( r ), buffers = amount( r ), cached = amount( r ), stotal = amount( r ), sfree = amount( r );
  bool old = r.chance( 1, 4 );
  Str rel;
  if( old ) { static char const* const v[] = { "2.4.37", "2.2.26-smp", "2.4.18-3bigmem", "2.0.40" }; rel = v[ r.below( 4 ) ]; }
  else
  {
    static char const* const v[] = { "2.6.3-15mdk-i686-up-4GB", "2.6.32", "3.10.0-1160.el7.x86_64", "3.2.0", "4.4.0-210-generic", "4.19", "5.15.0-91-generic", "6.1.0", "7.0.0", "10.2.1", "12.0.3-rc1", "20.4", "100.1" };
    rel = v[ r.below( 13 ) ];
  }
  set_release( rel );
  fake::name_fails = false;
  std::vector< Str > lines;
  Str missing;
  struct { char const* n; unsigned long v; } const all[] = { { "MemTotal", total }, { "MemFree", free }, { "MemAvailable", 777 }, { "Buffers", buffers }, { "SwapCached", 555 }, { "Cached", cached }, { "Active", 1 }, { "HighTotal", 3 }, { "LowFree", 5 },
    { "SwapTotal", stotal }, { "SwapFree", sfree }, { "VmallocTotal", 34359738367ul }, { "CmaFree", 9 } };
  if( r.chance( 1, 8 ) ) { static char const* const miss[] = { "MemTotal", "MemFree", "Buffers", "Cached", "SwapTotal", "SwapFree" }; missing = miss[ r.below( 6 ) ]; }
  for( auto const& e : all ) { if( missing != e.n ) { lines.push_back( field( r, e.n, e.v ) ); } }
  if( r.chance( 1, 3 ) ) { for( size_t i = lines.size(); i > 1; --i ) { std::swap( lines[ i - 1 ], lines[ r.below( i ) ] ); } }
  Str text;
  for( auto const& l : lines ) { text += l; }
  if( r.chance( 1, 6 ) ) { text += "HugePages_Total:       0\nDirectMap4k:      161600 kB\n"; }
  if( r.chance( 1, 6 ) && !text.empty() ) { text.pop_back(); }
  if( old )
  {
    std::ostringstream o;
    o << "        total:    used:    free:  shared: buffers:  cached:\nMem:  " << total * 1024 << " " << 1 << " " << free * 1024 << " " << 0 << " " << buffers * 1024 << " " << cached * 1024 << "\nSwap: " << stotal * 1024 << " " << 2 << " " << sfree * 1024 << "\n";
    text = o.str() + text;
  }
  Str state = "there";
  if( r.chance( 1, 10 ) ) { state = r.chance( 1, 2 ) ? "missing" : "unreadable"; }
  vm::note( "memory table, kernel " + rel + " " + state + ":\n" + text );
  auto offer = [ & ]
  {
    if( state == "there" ) { provide( "/proc/meminfo", text ); }
    else if( state == "missing" ) { fake::files[ "/proc/meminfo" ] = { fake::File::MISSING, "" }; }
    else { fake::files[ "/proc/meminfo" ] = { fake::File::UNREADABLE, vm::dir() }; }
  };
  offer();
  Info i;
  { Armed arm; Quiet q; i.RunMemoryCheck(); }
  bool ok = state == "there" && ( missing.empty() || old );
  size_t got[] = { i.GetTotalPhysicalMemory(), i.GetAvailablePhysicalMemory(), i.GetTotalVirtualMemory(), i.GetAvailableVirtualMemory() };
  size_t want[] = { total / 1024, ( free + buffers + cached ) / 1024, stotal / 1024, sfree / 1024 };
  for( int k = 0; k < 4; ++k )
  {
    size_t w = ok ? want[ k ] : 0;
    VM_CHECK( got[ k ] == w, "memory", "value " << k << " is " << got[ k ] << " MiB, the table of kernel " << rel << " (" << state << ", without " << missing << ") says " << w << "\n" << text );
  }
  vm::event( ok ? ( old ? "old memory tables" : "memory tables" ) : "memory tables refused" );
  if( rel.size() > 2 && rel[ 1 ] != '.' ) { vm::event( "two-digit kernels" ); }

  // KiB
  offer();
  long long ht, hu;
  { Armed arm; Quiet q; ht = i.GetHostMemoryTotal(); }
  offer();
  { Armed arm; Quiet q; hu = i.GetHostMemoryUsed(); }
  bool okt = state == "there" && missing != "MemTotal", oku = okt && missing != "MemFree";
  VM_CHECK( okt ? ht == static_cast< long long >( total ) : ht < 0, "host-total", "the host's memory is " << ht << " KiB, the table (" << state << ") says " << total << "\n" << text );
  VM_CHECK( oku ? hu == static_cast< long long >( total ) - static_cast< long long >( free ) : hu < 0, "host-used", "memory used is " << hu << " KiB, the table (" << state << ") says " << total << " - " << free << "\n" << text );

  // limits
  auto limit_text = [ & ]() -> Str
  {
    switch( r.below( 6 ) )
    {
      case 0: return "0";
      case 1: return "-5";
      case 2: return "lots";
      case 3: return "";
      default: return vm::str( amount( r ) );
    }
  };
  bool h = r.chance( 1, 2 ), p = r.chance( 1, 2 );
  Str hv = limit_text(), pv = limit_text();
  ::unsetenv( "K09_HOST" );
  ::unsetenv( "K09_PROC" );
  if( h ) { ::setenv( "K09_HOST", hv.c_str(), 1 ); }
  if( p ) { ::setenv( "K09_PROC", pv.c_str(), 1 ); }
  fake::limits.clear();
  fake::limit_fails = r.chance( 1, 8 );
  auto lim = [ & ]( int which )
  {
    switch( r.below( 4 ) )
    {
      case 0: fake::limits[ which ] = RLIM64_INFINITY; break;
      case 1: fake::limits[ which ] = RLIM64_INFINITY - 1 - r.below( 1000 ); break;       // large, but a limit
      case 2: fake::limits[ which ] = r.below( 5000 ); break;
      default: fake::limits[ which ] = amount( r ) * 1024 + r.below( 1024 ); break;
    }
  };
  lim( RLIMIT_DATA );
  lim( RLIMIT_AS );
  offer();
  long long ha, pa, ha0;
  Str d;
  { Armed arm; Quiet q; ha0 = i.GetHostMemoryAvailable( nullptr ); }
  offer();
  { Armed arm; Quiet q; ha = i.GetHostMemoryAvailable( "K09_HOST" ); }
  offer();
  { Armed arm; Quiet q; pa = i.GetProcMemoryAvailable( "K09_HOST", "K09_PROC" ); }
  offer();
  { Armed arm; Quiet q; d = i.GetMemoryDescription( "K09_HOST", "K09_PROC" ); }
  VM_CHECK( ha0 == ht, "host-available", "with no limit named " << ha0 << " KiB are available of " << ht );
  if( okt )
  {
    long long w = ht;
    long long hl = std::strtoll( hv.c_str(), nullptr, 10 ), pl = std::strtoll( pv.c_str(), nullptr, 10 );
    if( h && hl > 0 ) { w = std::min( w, hl ); }
    VM_CHECK( ha == w, "host-available", "available to the host: " << ha << " KiB, total " << ht << ", limit \"" << ( h ? hv : "(none)" ) << "\" make " << w );
    if( p && pl > 0 ) { w = std::min( w, pl ); }
    if( !fake::limit_fails )
    {
      for( auto const& e : fake::limits ) { if( e.second != RLIM64_INFINITY ) { unsigned long long kib = e.second / 1024; if( kib < static_cast< unsigned long long >( w ) ) { w = static_cast< long long >( kib ); } } }
    }
    VM_CHECK( pa == w, "process-available", "available to the process: " << pa << " KiB; total " << ht << ", host limit \"" << ( h ? hv : "(none)" ) << "\", process limit \"" << ( p ? pv : "(none)" ) << "\", RLIMIT_DATA " << fake::limits[ RLIMIT_DATA ] << ", RLIMIT_AS " << fake::limits[ RLIMIT_AS ]
              << ( fake::limit_fails ? " (unknown)" : "" ) << " make " << w );
    vm::event( "limits combined" );
    Str wd = "Host Total: " + vm::str( ht ) + " KiB, Host Available: " + vm::str( ha ) + " KiB, Process Available: " + vm::str( pa ) + " KiB";
    VM_CHECK( d == wd, "memory-description", "described as \"" << d << "\", should be \"" << wd << "\"" );
  }

  // this process
  unsigned long rss = amount( r );
  static char const* const names[] = { "cat", "VmRSS: 12 kB", "a VmRSS:5", "MemTotal:", "" };
  Str st = Str( "Name:\t" ) + names[ r.below( 5 ) ] + "\nUmask:\t0022\nState:\tR (running)\nVmPeak:\t    5984 kB\nVmHWM:\t     100 kB\n";
  bool has = r.chance( 7, 8 );
  if( has ) { st += "VmRSS:\t" + vm::str( rss ) + " kB\n"; }
  st += "RssAnon:\t     88 kB\nThreads:\t1\n";
  vm::note( "status table:\n" + st );
  Str sstate = r.chance( 1, 10 ) ? "missing" : r.chance( 1, 10 ) ? "unreadable" : "there";
  if( sstate == "there" ) { provide( "/proc/self/status", st ); }
  else if( sstate == "missing" ) { fake::files[ "/proc/self/status" ] = { fake::File::MISSING, "" }; }
  else { fake::files[ "/proc/self/status" ] = { fake::File::UNREADABLE, vm::dir() }; }
  long long used;
  { Armed arm; Quiet q; used = i.GetProcMemoryUsed(); }
  if( sstate == "there" && has ) { VM_CHECK( used == static_cast< long long >( rss ), "process-used", "the process uses " << used << " KiB, the table says " << rss << "\n" << st ); vm::event( "process tables" ); }
  else { VM_CHECK( used < 0, "process-used", "the process uses " << used << " KiB, though the table (" << sstate << ") does not say\n" << st ); vm::event( "process tables refused" ); }
  vm::sig( rel + state + missing + vm::str( total ) + vm::str( rss ) );
}

// garbled memory tables: answers in time, no memory error
void odd_memory( vm::Rng& r )
{
  Str text = "MemTotal:       16384256 kB\nMemFree:         1000 kB\nBuffers:          20 kB\nCached:         5000 kB\nSwapTotal:      100 kB\nSwapFree:     10 kB\n";
  if( r.chance( 1, 3 ) ) { text = "        total:    used:\nMem:  1 2 3 4 5 6\nSwap: 1 2 3\n"; }
  if( r.chance( 1, 6 ) ) { text = Str( r.below( 5000 ), 'x' ) + ( r.chance( 1, 2 ) ? "MemTotal: 5 kB\n" : "" ); }
  for( size_t n = r.below( 8 ); n && text.size() > 1; --n )
  {
    size_t p = r.below( text.size() );
    switch( r.below( 4 ) )
    {
      case 0: text[ p ] = static_cast< char >( r.below( 256 ) ); break;
      case 1: text.erase( p, 1 + r.below( 20 ) ); break;
      case 2: text.insert( p, Str( 1 + r.below( 1100 ), r.pick( "0 9:x\n" ) ) ); break;
      default: text.resize( p ); break;
    }
  }
  static char const* const rels[] = { "", "2", "2.", "x.y.z", "2.4.1", "6.1", "..", "999999999999.1", "-3.2", "2.x" };
  set_release( rels[ r.below( 10 ) ] );
  fake::name_fails = r.chance( 1, 8 );
  vm::note( "memory table, kernel \"" + Str( fake::name.release ) + "\":\n" + text );
  provide( "/proc/meminfo", text );
  provide( "/proc/self/status", text );
  Info i;
  {
    Armed arm;
    Quiet q;
    i.RunMemoryCheck();
    i.GetHostMemoryTotal();
    i.GetHostMemoryUsed();
    i.GetProcMemoryUsed();
  }
  fake::name_fails = false;
  vm::event( "odd memory tables" );
  vm::sig( "odd" + vm::str( vm::hash( text ) ) );
}

// -- names -------------------------------------------------------------------------
void names( vm::Rng& r )
{
  std::memset( &fake::name, 0, sizeof fake::name );
  auto fill = [ & ]( char* p, size_t n )
  {
    Str s = r.str( "abcdeXYZ0189.-_ #", 0, r.chance( 1, 6 ) ? n - 1 : 12 );
    std::memcpy( p, s.data(), s.size() );
  };
  fill( fake::name.sysname, sizeof fake::name.sysname );
  fill( fake::name.nodename, sizeof fake::name.nodename );
  fill( fake::name.release, sizeof fake::name.release );
  fill( fake::name.version, sizeof fake::name.version );
  fill( fake::name.machine, sizeof fake::name.machine );
  fake::name_fails = r.chance( 1, 6 );
  Info i;
  vm::note( "names" );
  bool before = r.chance( 1, 2 );
  Str h0;
  { Armed arm; Quiet q; if( before ) { h0 = i.GetHostname(); } i.RunOSCheck(); }
  Str h1;
  { Armed arm; h1 = i.GetHostname(); }
  bool ok = !fake::name_fails;
  Str want[] = { ok ? fake::name.sysname : "", ok ? fake::name.release : "", ok ? fake::name.version : "", ok ? fake::name.machine : "" };
  Str got[] = { i.GetOSName(), i.GetOSRelease(), i.GetOSVersion(), i.GetOSPlatform() };
  for( int k = 0; k < 4; ++k ) { VM_CHECK( got[ k ] == want[ k ], "system-name", "value " << k << " is \"" << got[ k ] << "\", uname said \"" << want[ k ] << "\"" ); }
  VM_CHECK( i.GetOSDescription() == want[ 0 ] + " " + want[ 1 ] + " " + want[ 2 ], "system-name", "described as \"" << i.GetOSDescription() << "\"" );
  VM_CHECK( i.GetOSIsLinux() == 1 && i.GetOSIsWindows() == 0 && i.GetOSIsApple() == 0 && i.Is64Bits() == ( sizeof( void* ) == 8 ), "system-name", "the system is taken for another" );
  Str host = ok ? Str( fake::name.nodename ) : Str( "localhost" );
  if( before ) { VM_CHECK( h0 == host, "host-name", "the host is called \"" << h0 << "\", uname said \"" << host << "\"" ); }
  VM_CHECK( h1 == host, "host-name", "the host is called \"" << h1 << "\", uname said \"" << host << "\"" );
  vm::event( ok ? "system names" : "system names unknown" );
  fake::name_fails = false;

  // load
  fake::load_answer = static_cast< int >( r.range( -1, 3 ) );
  for( double& l : fake::load ) { l = r.real( 0, 900 ); }
  double l;
  { Armed arm; l = i.GetLoadAverage(); }
  if( fake::load_answer > 0 ) { VM_CHECK( l == fake::load[ 0 ], "load", "the load is " << l << ", not " << fake::load[ 0 ] ); vm::event( "loads" ); }
  else { VM_CHECK( l == 0.0, "load", "the load is " << l << " though it cannot be known" ); vm::event( "loads unknown" ); }
  VM_CHECK( i.GetProcessId() == ::getpid(), "process-id", "the process id is " << i.GetProcessId() << ", not " << ::getpid() );

  // the full name of the host
  fake::host = r.chance( 1, 12 ) ? Str() : r.chance( 1, 8 ) ? r.str( "abcdefghij-", 60, 64 ) : r.str( "abc", 1, 4 );
  fake::host_fails = r.chance( 1, 10 );
  fake::list_fails = r.chance( 1, 10 );
  fake::ifaces.clear();
  fake::lists.clear();
  fake::asked = fake::bad_length = 0;
  for( size_t n = r.below( 7 ); n; --n )
  {
    fake::Iface f;
    switch( r.below( 6 ) ) { case 0: f.family = -1; break; case 1: f.family = AF_PACKET; break; case 2: f.family = AF_UNIX; break; case 3: f.family = AF_INET6; break; default: f.family = AF_INET; break; }
    f.error = r.chance( 1, 4 ) ? EAI_NONAME : 0;
    switch( r.below( 6 ) )
    {
      case 0: f.text = fake::host; break;
      case 1: f.text = "localhost"; break;
      case 2: f.text = fake::host + ".example.org"; break;
      case 3: f.text = "n-" + fake::host; break;
      case 4: f.text = r.str( "abc.", 0, 9 ); break;
      default: f.text = fake::host + "." + r.str( "abcdefgh.", 3, 900 ); break;
    }
    fake::ifaces.push_back( f );
  }
  Str want_name = fake::host_fails ? Str( "localhost" ) : fake::host;
  if( !fake::host_fails && !fake::list_fails )
  {
    for( auto const& f : fake::ifaces )
    {
      if( ( f.family == AF_INET || f.family == AF_INET6 ) && !f.error && f.text.size() > fake::host.size() && f.text.find( fake::host ) != Str::npos ) { want_name = f.text; vm::event( "full names found" ); break; }
    }
  }
  Str full;
  { Armed arm; full = i.GetFullyQualifiedDomainName(); }
  std::ostringstream o;
  for( auto const& f : fake::ifaces ) { o << " " << f.family << ":" << f.text << ( f.error ? "(unknown)" : "" ); }
  VM_CHECK( full == want_name, "full-name", "the full name of host \"" << fake::host << "\" is \"" << full << "\", should be \"" << want_name << "\"; interfaces" << o.str() );
  VM_CHECK( fake::bad_length == 0, "full-name", "an address was passed with a wrong length" );
  for( auto const& e : fake::lists ) { VM_CHECK( e.second == 1 || ( !e.first && e.second <= 1 ), "interface-list", "the list of interfaces was freed " << e.second << " times" ); }
  if( fake::host_fails || fake::list_fails ) { vm::event( "full names refused" ); }
  vm::event( "full names" );
  vm::sig( "n" + full + h1 + vm::str( l ) );
}

// -- stacks ---------------------------------------------------------------------------
} // namespace

struct k09_frames { Str text; int first = 0, whole = 0; std::vector< int > plan; };

// names with external linkage, so that the dynamic symbol table has them
template < class A, class B > struct K09_pair { };
typedef K09_pair< int, char > k09_p0;
typedef K09_pair< K09_pair< k09_p0, double >, K09_pair< k09_p0, float > > k09_p1;
typedef K09_pair< K09_pair< k09_p1, double >, K09_pair< k09_p1, float > > k09_p2;
typedef K09_pair< K09_pair< k09_p2, double >, K09_pair< k09_p2, float > > k09_p3;
typedef K09_pair< K09_pair< k09_p3, double >, K09_pair< k09_p3, float > > k09_p4;
typedef K09_pair< K09_pair< k09_p4, double >, K09_pair< k09_p4, float > > k09_p5;

#define K09_VISIBLE __attribute__( ( noinline, visibility( "default" ), optimize( "no-optimize-sibling-calls" ) ) )
K09_VISIBLE void k09_next( k09_frames& f, size_t at );
K09_VISIBLE void k09_short( k09_frames& f, size_t at ) { k09_next( f, at ); __asm__ volatile( "" ::: "memory" ); }
template < class T > K09_VISIBLE void k09_long( k09_frames& f, size_t at, T const* ) { k09_next( f, at ); __asm__ volatile( "" ::: "memory" ); }
extern "C" K09_VISIBLE void k09_plain_c( k09_frames* f, size_t at ) { k09_next( *f, at ); __asm__ volatile( "" ::: "memory" ); }
struct k09_class { K09_VISIBLE void method( k09_frames& f, size_t at ) const { k09_next( f, at ); __asm__ volatile( "" ::: "memory" ); } K09_VISIBLE int operator()( k09_frames& f, size_t at ) { k09_next( f, at ); __asm__ volatile( "" ::: "memory" ); return 1; } };
template void k09_long< k09_p1 >( k09_frames&, size_t, k09_p1 const* );
template void k09_long< k09_p3 >( k09_frames&, size_t, k09_p3 const* );
template void k09_long< k09_p5 >( k09_frames&, size_t, k09_p5 const* );

void k09_next( k09_frames& f, size_t at )
{
  if( at >= f.plan.size() ) { f.text = Info::GetProgramStack( f.first, f.whole ); __asm__ volatile( "" ::: "memory" ); return; }
  switch( f.plan[ at ] )
  {
    case 0: k09_short( f, at + 1 ); break;
    case 1: k09_plain_c( &f, at + 1 ); break;
    case 2: { k09_class c; c.method( f, at + 1 ); break; }
    case 3: { k09_class c; c( f, at + 1 ); break; }
    case 4: k09_long< k09_p1 >( f, at + 1, nullptr ); break;
    case 5: k09_long< k09_p3 >( f, at + 1, nullptr ); break;
    default: k09_long< k09_p5 >( f, at + 1, nullptr ); break;
  }
  __asm__ volatile( "" ::: "memory" );
}

namespace {

void stack( vm::Rng& r )
{
  k09_frames f;
  size_t depth = r.chance( 1, 12 ) ? 150 + r.below( 60 ) : 1 + r.below( 8 );
  for( size_t i = 0; i < depth; ++i ) { f.plan.push_back( depth > 100 ? static_cast< int >( r.below( 4 ) ) : static_cast< int >( r.below( 7 ) ) ); }
  f.first = r.chance( 1, 2 ) ? 0 : static_cast< int >( r.below( 6 ) );
  if( r.chance( 1, 20 ) ) { f.first = 100000; }
  f.whole = static_cast< int >( r.below( 2 ) );
  vm::note( "a stack of " + vm::str( depth ) + " calls" );
  k09_next( f, 0 );
  // every line says what dladdr says of the address it names
  std::istringstream in( f.text );
  Str line;
  std::vector< Str > seen;
  size_t n = 0;
  while( std::getline( in, line ) )
  {
    ++n;
    void* a = nullptr;
    VM_CHECK( std::sscanf( line.c_str(), "%p : ", &a ) == 1, "stack-line", "a frame reads \"" << line << "\"" );
    Dl_info d;
    Str fn = "???", bin = "???";
    if( ::dladdr( a, &d ) && d.dli_sname && d.dli_saddr )
    {
      fn = vm::demangle( d.dli_sname );
      bin = d.dli_fname;
      if( !f.whole && bin.rfind( '/' ) != Str::npos ) { bin = bin.substr( bin.rfind( '/' ) + 1 ); }
      if( fn.size() > 1024 ) { vm::event( "names beyond 1024 characters" ); }
    }
    std::ostringstream w;
    w << std::hex << a << " : " << fn << " [(" << bin << ") ???:-1]";
    VM_CHECK( line == w.str(), "stack-line", "a frame reads\n" << line << "\nshould be\n" << w.str() );
    seen.push_back( fn );
  }
  if( f.first > 1000 ) { VM_CHECK( f.text.empty(), "stack", "a stack from frame " << f.first << " is not empty: " << f.text ); vm::event( "stacks beyond the end" ); return; }
  // the functions called, innermost first
  std::vector< Str > want;
  for( size_t i = f.plan.size(); i-- > 0; )
  {
    switch( f.plan[ i ] )
    {
      case 0: want.push_back( "k09_short(" ); break;
      case 1: want.push_back( "k09_plain_c" ); break;
      case 2: want.push_back( "k09_class::method(" ); break;
      case 3: want.push_back( "k09_class::operator()(" ); break;
      case 4: case 5: default: want.push_back( "void k09_long<" ); break;
    }
  }
  size_t skip = static_cast< size_t >( f.first );
  std::vector< Str > got;
  for( auto const& s : seen ) { if( s.find( "k09_" ) != Str::npos && s.find( "k09_next" ) == Str::npos ) { got.push_back( s ); } }
  // which of the first frames were left out depends on the library's own; the outermost calls are all there
  size_t lost = skip <= 1 ? 0 : ( skip + 1 ) / 2;
  size_t total = std::min( want.size(), static_cast< size_t >( n ) );
  if( n < 250 )
  {
    VM_CHECK( got.size() + lost >= want.size(), "stack", "of " << want.size() << " calls, " << got.size() << " are in the stack from frame " << f.first << "\n" << f.text.substr( 0, 3000 ) );
    for( size_t i = 0; i < got.size() && i < want.size(); ++i )
    {
      Str const& g = got[ got.size() - 1 - i ];
      Str const& w = want[ want.size() - 1 - i ];
      VM_CHECK( g.compare( 0, w.size(), w ) == 0, "stack", "call " << i << " is " << g.substr( 0, 200 ) << ", should be " << w );
    }
    if( f.first == 0 ) { vm::event( "whole stacks" ); }
  }
  else { vm::event( "stacks beyond 256 frames" ); VM_CHECK( n <= 256 && n + skip >= 250, "stack", n << " frames" ); }
  (void)total;
  vm::event( "stacks" );
  vm::event( f.whole ? "paths whole" : "paths cut" );
  vm::sig( "s" + vm::str( depth ) + vm::str( f.first ) + vm::str( f.whole ) + vm::str( vm::hash( Str( f.plan.begin(), f.plan.end() ) ) ) );
}

// -- signals ---------------------------------------------------------------------------
int const g_signals[] = { SIGABRT, SIGSEGV, SIGTERM, SIGINT, SIGILL, SIGBUS, SIGFPE };
void on_a( int ) { }
void on_b( int ) { }
void on_c( int, siginfo_t*, void* ) { }
void on_abort( int ) { ::_exit( 77 ); }

bool same_action( struct sigaction const& a, struct sigaction const& b )
{
  int const restorer = 0x04000000;          // the C library's own mark
  if( ( a.sa_flags | restorer ) != ( b.sa_flags | restorer ) || a.sa_handler != b.sa_handler ) { return false; }
  for( int s = 1; s < 64; ++s ) { if( s != SIGKILL && s != SIGSTOP && sigismember( &a.sa_mask, s ) != sigismember( &b.sa_mask, s ) ) { return false; } }
  return true;
}

void handlers( vm::Rng& r )
{
  vm::note( "handlers" );
  vm::in_child( [ & ]
  {
    auto random_action = [ & ]( int sig )
    {
      struct sigaction a;
      std::memset( &a, 0, sizeof a );
      sigemptyset( &a.sa_mask );
      switch( r.below( 5 ) )
      {
        case 0: a.sa_handler = SIG_DFL; break;
        case 1: a.sa_handler = SIG_IGN; break;
        case 2: a.sa_handler = on_a; break;
        case 3: a.sa_handler = on_b; break;
        default: a.sa_sigaction = on_c; a.sa_flags |= SA_SIGINFO; break;
      }
      if( r.chance( 1, 3 ) ) { a.sa_flags |= SA_RESTART; }
      if( r.chance( 1, 4 ) ) { a.sa_flags |= SA_NODEFER; }
      if( r.chance( 1, 4 ) ) { a.sa_flags |= SA_ONSTACK; }
      if( r.chance( 1, 3 ) ) { sigaddset( &a.sa_mask, SIGUSR1 ); }
      if( r.chance( 1, 3 ) ) { sigaddset( &a.sa_mask, SIGTERM ); }
      ::sigaction( sig, &a, nullptr );
    };
    auto current = []
    {
      std::map< int, struct sigaction > m;
      for( int s = 1; s < 32; ++s ) { if( s != SIGKILL && s != SIGSTOP ) { ::sigaction( s, nullptr, &m[ s ] ); } }
      return m;
    };
    bool on = false;
    std::map< int, struct sigaction > saved;
    Str log;
    for( long n = r.range( 3, 14 ); n > 0; --n )
    {
      switch( r.below( 3 ) )
      {
        case 0:
        {
          if( on ) { break; }             // handlers set while reporting is on: unspecified
          int s = g_signals[ r.below( 7 ) ];
          random_action( s );
          log += " set" + vm::str( s );
          break;
        }
        case 1:
        {
          if( !on ) { saved = current(); }
          Info::SetStackTraceOnError( r.chance( 1, 2 ) ? 1 : 5 );
          log += " on";
          auto now = current();
          for( int s : g_signals )
          {
            VM_CHECK( ( now[ s ].sa_flags & SA_SIGINFO ) && now[ s ].sa_handler != SIG_DFL && now[ s ].sa_handler != SIG_IGN && ( on || !same_action( now[ s ], saved[ s ] ) ), "handlers-on", "signal " << s << " is not reported after" << log );
          }
          for( auto const& e : saved )
          {
            bool ours = std::find( g_signals, g_signals + 7, e.first ) != g_signals + 7;
            if( !ours ) { VM_CHECK( same_action( e.second, now[ e.first ] ), "handlers-others", "the handling of signal " << e.first << " changed after" << log ); }
          }
          vm::event( on ? "switched on twice" : "switched on" );
          on = true;
          break;
        }
        default:
        {
          auto before = current();
          Info::SetStackTraceOnError( 0 );
          log += " off";
          auto now = current();
          for( auto const& e : on ? saved : before ) { VM_CHECK( same_action( e.second, now[ e.first ] ), "handlers-off", "the handling of signal " << e.first << " is not what it was before; after" << log ); }
          vm::event( on ? "switched off" : "switched off when off" );
          on = false;
          break;
        }
      }
    }
    vm::sig( "h" + log );
  }, 60 );
}

} // namespace

// the faults themselves are wanted
__attribute__( ( noinline, visibility( "default" ), no_sanitize( "undefined" ), no_sanitize( "address" ) ) ) int k09_fault( int kind, void* p )
{
  volatile int zero = 0;
  switch( kind )
  {
    case 0: return 7 / zero;
    case 1: *static_cast< volatile char* >( p ) = 1; return 1;
    case 2: __asm__ volatile( "ud2" ); return 2;
    default: ::raise( kind - 100 ); return 3;
  }
}

namespace {

void faults( vm::Rng& r )
{
  vm::note( "a fatal signal" );
  std::fflush( nullptr );
  int fds[ 2 ];
  if( ::pipe( fds ) ) { throw vm::CaseSkip(); }
  int what = static_cast< int >( r.below( 12 ) );
  // any cause the system can give, as if the processor had met it
  struct Cause { int sig, code; char const* says; };
  static std::vector< Cause > const causes = {
    { SIGFPE, FPE_INTDIV, "integer division by zero" }, { SIGFPE, FPE_INTOVF, "integer overflow" }, { SIGFPE, FPE_FLTDIV, "floating point divide by zero" }, { SIGFPE, FPE_FLTOVF, "floating point overflow" },
    { SIGFPE, FPE_FLTUND, "floating point underflow" }, { SIGFPE, FPE_FLTRES, "floating point inexact result" }, { SIGFPE, FPE_FLTINV, "floating point invalid operation" }, { SIGFPE, FPE_FLTSUB, "floating point subscript out of range" },
    { SIGFPE, 77, "code 77" }, { SIGSEGV, SEGV_MAPERR, "address not mapped to object" }, { SIGSEGV, SEGV_ACCERR, "invalid permission for mapped object" }, { SIGSEGV, 77, "code 77" },
    { SIGBUS, BUS_ADRALN, "invalid address alignment" }, { SIGBUS, BUS_ADRERR, "nonexistent physical address" }, { SIGBUS, BUS_OBJERR, "object-specific hardware error" }, { SIGBUS, 4, "Hardware memory error consumed" },
    { SIGBUS, 5, "Hardware memory error detected in process but not consumed" }, { SIGBUS, 77, "code 77" }, { SIGILL, ILL_ILLOPC, "illegal opcode" }, { SIGILL, ILL_ILLOPN, "illegal operand" }, { SIGILL, ILL_ILLADR, "illegal addressing mode" }, { SIGILL, ILL_ILLTRP, "illegal trap" },
    { SIGILL, ILL_PRVOPC, "privileged opcode" }, { SIGILL, ILL_PRVREG, "privileged register" }, { SIGILL, ILL_COPROC, "co-processor error" }, { SIGILL, ILL_BADSTK, "internal stack error" }, { SIGILL, 77, "code 77" } };
  Cause cause = r.pick( causes );
  uintptr_t place = r.chance( 1, 6 ) ? 0 : static_cast< uintptr_t >( r.u64() >> r.below( 60 ) );
  bool user = r.chance( 1, 3 ), off = r.chance( 1, 8 );
  pid_t pid = ::fork();
  if( pid == 0 )
  {
    struct rlimit none = { 0, 0 };
    ::setrlimit( RLIMIT_CORE, &none );
    ::alarm( 60 );
    ::dup2( fds[ 1 ], 2 );
    ::close( fds[ 0 ] );
    for( int s : g_signals ) { ::signal( s, SIG_DFL ); }
    if( user ) { ::signal( SIGABRT, on_abort ); }
    Info::SetStackTraceOnError( 1 );
    if( off ) { Info::SetStackTraceOnError( 0 ); }
    if( what == 0 ) { k09_fault( 0, nullptr ); }
    else if( what == 1 ) { k09_fault( 1, reinterpret_cast< void* >( 16 ) ); }
    else if( what == 2 ) { k09_fault( 1, ::mmap( nullptr, 4096, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0 ) ); }
    else if( what == 3 )
    {
      Str p = vm::dir() + "/short";
      int fd = ::open( p.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600 );
      k09_fault( 1, ::mmap( nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0 ) );
    }
    else if( what == 4 ) { k09_fault( 2, nullptr ); }
    else if( what == 11 )
    {
      siginfo_t si;
      std::memset( &si, 0, sizeof si );
      si.si_signo = cause.sig;
      si.si_code = cause.code;
      si.si_addr = reinterpret_cast< void* >( place );
      ::syscall( SYS_rt_tgsigqueueinfo, ::getpid(), static_cast< pid_t >( ::syscall( SYS_gettid ) ), cause.sig, &si );
    }
    else { static int const s[] = { SIGINT, SIGTERM, SIGABRT, SIGSEGV, SIGBUS, SIGILL }; k09_fault( 100 + s[ what - 5 ], nullptr ); }
    ::_exit( 55 );
  }
  ::close( fds[ 1 ] );
  Str text;
  char b[ 65536 ];
  ssize_t n;
  while( ( n = ::read( fds[ 0 ], b, sizeof b ) ) > 0 ) { text.append( b, static_cast< size_t >( n ) ); }
  ::close( fds[ 0 ] );
  int status = 0;
  ::waitpid( pid, &status, 0 );
  char const* const name[] = { "SIGFPE", "SIGSEGV", "SIGSEGV", "SIGBUS", "SIGILL", "SIGINT", "SIGTERM", "SIGABRT", "SIGSEGV", "SIGBUS", "SIGILL", cause.sig == SIGFPE ? "SIGFPE" : cause.sig == SIGSEGV ? "SIGSEGV" : cause.sig == SIGBUS ? "SIGBUS" : "SIGILL" };
  char const* const reason[] = { "integer division by zero", "address not mapped to object", "invalid permission for mapped object", "nonexistent physical address", "illegal operand", "", "", "", "code -6", "code -6", "code -6", cause.says };
  int const number[] = { SIGFPE, SIGSEGV, SIGSEGV, SIGBUS, SIGILL, SIGINT, SIGTERM, SIGABRT, SIGSEGV, SIGBUS, SIGILL, cause.sig };
  if( off )
  {
    VM_CHECK( text.find( "Program Stack" ) == Str::npos && ( ( WIFSIGNALED( status ) && WTERMSIG( status ) == number[ what ] ) || ( user && number[ what ] == SIGABRT && WIFEXITED( status ) && WEXITSTATUS( status ) == 77 ) ), "report-off",
              name[ what ] << " with reporting switched off again ends the process with status " << status << " and says\n" << text.substr( 0, 1000 ) );
    vm::event( "not reported" );
    return;
  }
  Str want = "Process id " + vm::str( pid ) + " Caught " + name[ what ];
  VM_CHECK( text.find( want ) != Str::npos && text.find( reason[ what ] ) != Str::npos && text.find( "Program Stack:" ) != Str::npos, "report", "the report of " << name[ what ] << " (" << reason[ what ] << ") reads\n" << text.substr( 0, 2000 ) );
  if( what == 11 )
  {
    // the place is named, and no other cause
    std::ostringstream at;
    at << std::hex << "at 0x" << place << " " << cause.says;
    VM_CHECK( place == 0 || text.find( at.str() ) != Str::npos, "report", "the report of a cause at " << std::hex << place << " reads\n" << text.substr( 0, 2000 ) );
    for( Cause const& c : causes ) { Str s = c.says; VM_CHECK( s == cause.says || c.sig != cause.sig || text.find( s ) == Str::npos || Str( cause.says ).find( s ) != Str::npos, "report", "the report of " << cause.says << " also says " << s ); }
    vm::event( "causes reported" );
    vm::event( Str( "cause " ) + cause.says );
  }
  VM_CHECK( what >= 5 || text.find( "k09_fault(int, void*)" ) != Str::npos, "report", "the report of " << name[ what ] << " does not name the function at fault\n" << text.substr( 0, 2000 ) );
  VM_CHECK( user ? ( WIFEXITED( status ) && WEXITSTATUS( status ) == 77 ) : ( WIFSIGNALED( status ) && WTERMSIG( status ) == SIGABRT ), "report-end", "after the report of " << name[ what ] << ( user ? ", with an own handler for SIGABRT," : "" ) << " the process ends with status " << status << "\n" << text.substr( 0, 2000 ) );
  vm::event( "signals reported" );
  vm::event( Str( "reported " ) + name[ what ] );
  vm::sig( Str( "f" ) + name[ what ] + vm::str( what ) + ( user ? "u" : "" ) );
}

// the system the check runs on
void here( vm::Rng& )
{
  vm::note( "this system" );
  Str cpu = vm::slurp( "/proc/cpuinfo" ), mem = vm::slurp( "/proc/meminfo" );
  Info i;
  {
    Quiet q;
    i.RunCPUCheck();
    i.RunOSCheck();
    i.RunMemoryCheck();
  }
  unsigned n = 0;
  for( size_t p = cpu.find( "processor\t" ); p != Str::npos; p = cpu.find( "processor\t", p + 1 ) ) { ++n; }
  VM_CHECK( i.GetNumberOfLogicalCPU() == n, "here", "this system has " << n << " processors, reported are " << i.GetNumberOfLogicalCPU() );
  utsname u;
  if( ::uname( &u ) == 0 ) { VM_CHECK( i.GetOSName() == Str( u.sysname ) && i.GetOSRelease() == Str( u.release ) && i.GetHostname() == Str( u.nodename ), "here", "the names of this system are wrong" ); }
  size_t p = mem.find( "MemTotal:" );
  if( p != Str::npos )
  {
    long long t = std::atoll( mem.c_str() + p + 9 );
    VM_CHECK( i.GetHostMemoryTotal() == t && i.GetTotalPhysicalMemory() == static_cast< size_t >( t / 1024 ), "here", "this system has " << t << " KiB, reported are " << i.GetHostMemoryTotal() );
  }
  vm::event( "this system" );
}

void body( vm::Rng& r, uint64_t i )
{
  static bool once = false;
  if( !once )
  {
    once = true;
    if( __sanitizer_install_malloc_and_free_hooks ) { __sanitizer_install_malloc_and_free_hooks( hook_malloc, hook_free ); }
  }
  fake::files.clear();
  if( i % 97 == 0 ) { here( r ); return; }
  switch( r.below( 13 ) )
  {
    case 0: case 1: case 2: cpus( r ); break;
    case 3: case 4: odd_cpus( r ); break;
    case 5: case 6: memory( r ); break;
    case 7: odd_memory( r ); break;
    case 8: case 9: names( r ); break;
    case 10: stack( r ); break;
    default: if( r.chance( 1, 2 ) ) { handlers( r ); } else { faults( r ); } break;
  }
}

} // namespace
VM_MAIN( body )
