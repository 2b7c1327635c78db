// A03: the plugin listing tool, under another name for its main
#define main explorer_main
#include <vital/tools/plugin_explorer.cxx>
