/* The program a launcher starts: says on descriptor 62 everything it was given. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
extern char** environ;
static void put( char const* s ) { size_t n = strlen( s ) + 1; while( n ) { ssize_t k = write( 62, s, n ); if( k <= 0 ) { _exit( 99 ); } s += k; n -= (size_t)k; } }
int main( int argc, char** argv )
{
  static char b[ 20000 ];
  int i, n = 0;
  ssize_t k;
  snprintf( b, sizeof b, "%ld", (long)getpid() ); put( b );
  if( !getcwd( b, sizeof b ) ) { strcpy( b, "?" ); } put( b );
  k = readlink( "/proc/self/exe", b, sizeof b - 1 ); b[ k < 0 ? 0 : k ] = 0; put( b );
  snprintf( b, sizeof b, "%d", argc ); put( b );
  for( i = 0; i < argc; ++i ) { put( argv[ i ] ); }
  while( environ[ n ] ) { ++n; }
  snprintf( b, sizeof b, "%d", n ); put( b );
  for( i = 0; i < n; ++i ) { put( environ[ i ] ); }
  return argc > 1 && strncmp( argv[ argc - 1 ], "exit", 4 ) == 0 ? atoi( argv[ argc - 1 ] + 4 ) : 0;
}
