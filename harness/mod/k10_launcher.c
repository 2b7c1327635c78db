/* A launcher built the way SharedForward.h describes; descriptor 61 stands for the folder it was "built" under. */
#ifdef K10_CONFIG
# define kwiversys_SHARED_FORWARD_CONFIG_NAME "Debug"
# define kwiversys_SHARED_FORWARD_DIR_BUILD "/proc/self/fd/61/build/bin"
# define kwiversys_SHARED_FORWARD_PATH_BUILD "Debug", "../more libs/Debug", "/proc/self/fd/61/abs lib"
# define kwiversys_SHARED_FORWARD_PATH_INSTALL 0
# define kwiversys_SHARED_FORWARD_EXE_BUILD "Debug/foo-real"
# define kwiversys_SHARED_FORWARD_EXE_INSTALL "/proc/self/fd/61/abs bin/foo real"
#else
# define kwiversys_SHARED_FORWARD_DIR_BUILD "/proc/self/fd/61/build/bin"
# define kwiversys_SHARED_FORWARD_PATH_BUILD "."
# define kwiversys_SHARED_FORWARD_PATH_INSTALL "../lib/foo-1.2", "/proc/self/fd/61/abs lib", "../lib/bar 4.5"
# define kwiversys_SHARED_FORWARD_EXE_BUILD "foo-real"
# define kwiversys_SHARED_FORWARD_EXE_INSTALL "../lib/foo-1.2/foo-real"
# define kwiversys_SHARED_FORWARD_OPTION_COMMAND "--command"
# define kwiversys_SHARED_FORWARD_OPTION_PRINT "--print"
# define kwiversys_SHARED_FORWARD_OPTION_LDD "--ldd"
#endif
#include <kwiversys/SharedForward.h>
int main( int argc, char** argv )
{
  return kwiversys_shared_forward_to_real( argc, argv );
}
