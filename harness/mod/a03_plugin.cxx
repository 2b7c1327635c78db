// A03: a plugin module whose behaviour is told by the file <module>.cfg beside it:
//   result N
//   impl <type 0|1> <name> <payload>
#include <vital/algo/algorithm.h>
#include <vital/algo/algorithm.txx>
#include <vital/registrar.h>
#include "a03_types.h"
#include <dlfcn.h>
#include <fstream>

using namespace kwiver::vital;

namespace {

int const anchor = 0;

template < int N > struct impl : public algorithm_impl< impl< N >, a03_def< N > >
{
  std::string name, payload, setting = "initial";
  virtual std::string impl_name() const { return name; }
  virtual std::string description() const { return "from a module: " + payload; }
  virtual std::string work( std::string const& in ) const { return payload + "/" + in + "/" + setting; }
  virtual config_block_sptr get_configuration() const
  {
    config_block_sptr c = algorithm::get_configuration();
    c->set_value( "setting", setting, "what to add" );
    return c;
  }
  virtual void set_configuration( config_block_sptr c ) { setting = c->get_value< std::string >( "setting", "none" ); }
  virtual bool check_configuration( config_block_sptr c ) const { return c->has_value( "setting" ); }
};

template < int N > void add( registrar& reg, std::string const& name, std::string const& payload )
{
  auto p = std::make_shared< impl< N > >();
  p->name = name;
  p->payload = payload;
  a03_def< N >::register_instance( reg, p );
}

} // namespace

extern "C" __attribute__( ( visibility( "default" ) ) ) int private_register_algo_impls( registrar& reg )
{
  Dl_info di;
  if( !::dladdr( &anchor, &di ) ) { return 99; }
  a03_called( di.dli_fname );
  std::ifstream f( std::string( di.dli_fname ) + ".cfg" );
  std::string word;
  int result = 0;
  while( f >> word )
  {
    if( word == "result" ) { f >> result; continue; }
    int type;
    std::string name, payload;
    f >> type >> name >> payload;
    if( type ) { add< 1 >( reg, name, payload ); } else { add< 0 >( reg, name, payload ); }
  }
  return result;
}
