// U01: a module that says where it is.
#include <string>
#include <vital/util/get_paths.h>
extern "C" void u01_where( std::string& a, std::string& b )
{
  a = kwiver::vital::get_executable_path();
  b = kwiver::vital::get_module_path();
}
