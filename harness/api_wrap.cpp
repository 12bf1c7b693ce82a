// gdxcppwrap.hpp, the C++ class over the loaded library (same class name as the library's own: renamed here).
#include <stdexcept>
#define gdx gdxwrapped
#include "gdxcppwrap.hpp"
#undef gdx
#include "api.hpp"

namespace api
{
namespace
{
#define VPNS gdxwrapped
struct RWrap : Route {
   struct Ready {
      Ready()
      {
         char b[GMS_SSSIZE];
         if( !gdxLibraryLoaded() && !gdxGetReadyD( getenv( "VP_TOOLS" ), b, sizeof b ) ) throw std::runtime_error( b );
      }
   } ready;
   std::string msg;
   gdxwrapped::TGXFileObj o { msg };
   void doCall( const Call &x, Res &r ) override
   {
      switch( x.fn )
      {
#define VP_ROUTE_CPP
#include "api_gen.inc"
#undef VP_ROUTE_CPP
      }
   }
};
}
std::unique_ptr<Route> routeWrap( const std::string &dir )
{
   auto p = std::make_unique<RWrap>();
   p->dir = dir;
   return p;
}
}
