/* K05: the child program: does what its arguments say. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <time.h>
#include <unistd.h>

static void ms( long n )
{
  struct timespec t = { n / 1000, ( n % 1000 ) * 1000000L };
  while( nanosleep( &t, &t ) && errno == EINTR ) { }
}
static void put( int fd, char const* p, size_t n )
{
  while( n )
  {
    ssize_t w = write( fd, p, n );
    if( w < 0 ) { if( errno == EINTR ) { continue; } _exit( 97 ); }
    p += w; n -= (size_t)w;
  }
}
static void stream( int fd, unsigned long n, unsigned long k, unsigned long chunk )
{
  static char b[ 1 << 16 ];
  unsigned long i = 0;
  if( !chunk || chunk > sizeof b ) { chunk = sizeof b; }
  while( i < n )
  {
    unsigned long c = n - i < chunk ? n - i : chunk, j;
    for( j = 0; j < c; ++j, ++i ) { b[ j ] = (char)( k * 131 + i * 7 + ( i >> 8 ) * 13 + ( i >> 16 ) * 29 ); }
    put( fd, b, c );
  }
}
static int code_on_int;
static void on_int( int s ) { (void)s; _exit( code_on_int ); }

static void pid_file( char const* path, pid_t pid )
{
  char b[ 32 ];
  int fd = open( path, O_WRONLY | O_CREAT | O_APPEND, 0600 );
  int n = snprintf( b, sizeof b, "%d\n", (int)pid );
  if( fd >= 0 ) { put( fd, b, (size_t)n ); close( fd ); }
}

int main( int argc, char** argv )
{
  int i;
  for( i = 1; i < argc; ++i )
  {
    char* a = argv[ i ];
    unsigned long n = 0, k = 0, c = 0;
    char path[ 2000 ] = "";
    switch( a[ 0 ] )
    {
    case 'o': case 'e':
      sscanf( a + 1, ":%lu:%lu:%lu", &n, &k, &c );
      stream( a[ 0 ] == 'o' ? 1 : 2, n, k, c );
      break;
    case 's': ms( atol( a + 2 ) ); break;
    case 'c':
    {
      char b[ 5000 ]; ssize_t r; ssize_t j;
      k = strtoul( a + 2, 0, 10 );
      while( ( r = read( 0, b, sizeof b ) ) > 0 || ( r < 0 && errno == EINTR ) )
      {
        for( j = 0; j < r; ++j ) { b[ j ] = (char)( b[ j ] ^ (char)k ); }
        if( r > 0 ) { put( 1, b, (size_t)r ); }
      }
      break;
    }
    case 'r':   /* read so many bytes of the input and leave the rest */
    {
      char b; n = strtoul( a + 2, 0, 10 );
      while( n && read( 0, &b, 1 ) == 1 ) { --n; put( 1, &b, 1 ); }
      break;
    }
    case 'x': exit( atoi( a + 2 ) );
    case 'k':
    {
      struct rlimit z = { 0, 0 };
      setrlimit( RLIMIT_CORE, &z );
      kill( getpid(), atoi( a + 2 ) );
      ms( 20000 );
      exit( 96 );
    }
    case 'F':
    {
      pid_t p;
      sscanf( a + 1, ":%lu:%1999s", &n, path );
      /* process names are free: one that looks like the next field of /proc/N/stat, too */
      char old[ 32 ] = "";
      static char const* const names[] = { "plain", "a) R 1 (b", ")", "( 1 ) 1", "two words" };
      prctl( PR_GET_NAME, old );
      prctl( PR_SET_NAME, names[ (unsigned)( getpid() + i ) % 5 ] );
      p = fork();
      if( p == 0 ) { close( 0 ); close( 1 ); close( 2 ); ms( (long)n ); _exit( 0 ); }
      prctl( PR_SET_NAME, old );
      pid_file( path, p );
      break;
    }
    case 'i': signal( SIGINT, SIG_IGN ); signal( SIGTERM, SIG_IGN ); break;
    case 'h': code_on_int = atoi( a + 2 ); signal( SIGINT, on_int ); break;
    case 'w':
      if( getcwd( path, sizeof path - 2 ) ) { strcat( path, "\n" ); put( 1, path, strlen( path ) ); }
      break;
    case 'd':
    {
      char used[ 4096 ] = { 0 }; int m = 0; char b[ 32 ];
      DIR* d = opendir( "/proc/self/fd" ); struct dirent* e;
      while( d && ( e = readdir( d ) ) ) { int f = atoi( e->d_name ); if( e->d_name[ 0 ] != '.' && f != dirfd( d ) && f < 4096 ) { used[ f ] = 1; if( f > m ) { m = f; } } }
      if( d ) { closedir( d ); }
      put( 1, "fds:", 4 );
      for( ; (int)n <= m; ++n ) { if( used[ n ] ) { int l = snprintf( b, sizeof b, "%lu,", n ); put( 1, b, (size_t)l ); } }
      put( 1, "\n", 1 );
      break;
    }
    case 'g':
    {
      char const* t = getsid( 0 ) == getpid() && getpgrp() == getpid() ? "own\n" : "shared\n";
      put( 1, t, strlen( t ) );
      break;
    }
    case 'm':
    {
      char b[ 300 ]; FILE* f = fopen( "/proc/self/status", "r" );
      while( f && fgets( b, sizeof b, f ) ) { if( !strncmp( b, "SigBlk", 6 ) || !strncmp( b, "SigCgt", 6 ) ) { put( 1, b, strlen( b ) ); } }
      if( f ) { fclose( f ); }
      break;
    }
    case 'a':
      for( ++i; i < argc; ++i )
      {
        int l = snprintf( path, sizeof path, "%lu:", (unsigned long)strlen( argv[ i ] ) );
        put( 1, path, (size_t)l ); put( 1, argv[ i ], strlen( argv[ i ] ) );
      }
      return 0;
    case 'C': close( atoi( a + 2 ) ); break;
    case 'p': pid_file( a + 2, getpid() ); break;
    default: return 99;
    }
  }
  return 0;
}
