// U01: a program that says where it is; with -DU01_LOADER it loads a module that says so.
#include <cstdio>
#include <cstdlib>
#include <string>
#include <dlfcn.h>
#include <unistd.h>
#ifndef U01_LOADER
#include <vital/util/get_paths.h>
#endif

int main( int argc, char** argv )
{
  char const* so = nullptr;
  bool wait = false;
  for( int i = 1; i < argc; ++i ) { if( argv[ i ][ 0 ] == 'w' ) { wait = true; } else { so = argv[ i ]; } }
  std::string a, b;
  void* h = so ? dlopen( so, RTLD_NOW ) : nullptr;
  if( so && !h ) { std::fprintf( stderr, "%s\n", dlerror() ); return 5; }
  char c;
  if( wait ) { if( write( 1, "R", 1 ) != 1 || read( 0, &c, 1 ) != 1 ) { return 4; } }
  for( int k = 0; k < 2; ++k )
  {
#ifdef U01_LOADER
    typedef void ( *fn )( std::string&, std::string& );
    fn f = reinterpret_cast< fn >( dlsym( h, "u01_where" ) );
    if( !f ) { return 6; }
    f( a, b );
#else
    a = kwiver::vital::get_executable_path();
    b = kwiver::vital::get_module_path();
#endif
    std::fwrite( a.c_str(), 1, a.size() + 1, stdout );
    std::fwrite( b.c_str(), 1, b.size() + 1, stdout );
  }
  return 0;
}
