#ifndef A03_TYPES_H
#define A03_TYPES_H
#include <vital/algo/algorithm.h>

extern "C" void a03_called( char const* module );

// default visibility: host and modules share the type
template < int N > struct __attribute__( ( visibility( "default" ) ) ) a03_def : public kwiver::vital::algorithm_def< a03_def< N > >
{
  static std::string static_type_name() { return N ? "painter" : "paint"; }
  virtual std::string work( std::string const& in ) const = 0;
};
#endif
