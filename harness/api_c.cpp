// The loader (gdxcc.c) and its C function pointers.
#include "gdxcc.h"
#include "api.hpp"
#include <dlfcn.h>
#include <stdexcept>

namespace api
{
namespace
{
struct RC : Route {
   gdxHandle_t o {};
   RC()
   {
      char b[GMS_SSSIZE];
      if( !gdxCreateD( &o, getenv( "VP_TOOLS" ), b, sizeof b ) ) throw std::runtime_error( std::string( "gdxCreateD: " ) + b );
   }
   ~RC() override { gdxFree( &o ); }
   void doCall( const Call &x, Res &r ) override
   {
      switch( x.fn )
      {
#define VP_ROUTE_C
#include "api_gen.inc"
#undef VP_ROUTE_C
      }
   }
};

std::vector<char> pas( const std::string &s )
{
   std::vector<char> b( 257, '~' );
   size_t n = std::min<size_t>( s.size(), 255 );
   b[0] = (char) (unsigned char) n;
   memcpy( b.data() + 1, s.data(), n );
   return b;
}
std::vector<char> pasv( const std::string *s )
{
   std::vector<char> b( 256 * NS + 1, '~' );
   for( int i = 0; i < NS; i++ )
   {
      size_t n = std::min<size_t>( s[i].size(), 255 );
      b[i * 256] = (char) (unsigned char) n;
      memcpy( b.data() + i * 256 + 1, s[i].data(), n );
   }
   return b;
}
void unpas( char *q )
{
   int n = (unsigned char) q[0];
   bool untouched = n == '#' && q[1] == '#' && q[254] == '#';
   if( untouched ) return;
   char t[256];
   memcpy( t, q + 1, n );
   t[n] = 0;
   strcpy( q, t );
}

struct RPas : Route {
   static void *lib()
   {
      static void *h = dlopen( ( std::string( getenv( "VP_TOOLS" ) ) + "/libgdxcclib64.so" ).c_str(), RTLD_NOW | RTLD_LOCAL );
      if( !h ) throw std::runtime_error( dlerror() );
      return h;
   }
   static void *sym( const char *n )
   {
      static std::vector<std::pair<std::string, void *>> cache;
      for( auto &c: cache )
         if( c.first == n ) return c.second;
      void *p = dlsym( lib(), n );
      if( !p ) throw std::runtime_error( std::string( "missing export " ) + n );
      cache.emplace_back( n, p );
      return p;
   }
   void *o {};
   RPas() { ( (void ( * )( void ** )) sym( "xcreate" ) )( &o ); }
   ~RPas() override { ( (void ( * )( void ** )) sym( "xfree" ) )( &o ); }
   void doCall( const Call &x, Res &r ) override
   {
      if( x.alt )
         switch( x.fn )
         {
            case F_DataReadStr: r.ret = ( (int ( * )( void *, char *, double *, int * )) sym( "n__gdxdatareadstr" ) )( o, r.oss[0], r.od, &r.oi[0] ); return;
            case F_DataSliceUELS: r.ret = ( (int ( * )( void *, const int *, char * )) sym( "n__gdxdatasliceuels" ) )( o, x.ia[0], r.oss[0] ); return;
            case F_SymbolGetDomainX: r.ret = ( (int ( * )( void *, int, char * )) sym( "n__gdxsymbolgetdomainx" ) )( o, x.i[0], r.oss[0] ); return;
            case F_DataReadRawFast: r.ret = ( (int ( * )( void *, int, void *, int * )) sym( "f__gdxdatareadrawfast" ) )( o, x.i[0], (void *) &cbPlain, &r.oi[0] ); return;
            case F_DataReadRawFastEx: r.ret = ( (int ( * )( void *, int, void *, int *, void * )) sym( "f__gdxdatareadrawfastex" ) )( o, x.i[0], (void *) &cbEx, &r.oi[0], r.uptr() ); return;
            case F_DataReadRawFastFilt: r.ret = ( (int ( * )( void *, int, const char **, void * )) sym( "f__gdxdatareadrawfastfilt" ) )( o, x.i[0], x.ptrs(), (void *) &cbFilt ); return;
            case F_DataReadSlice: r.ret = ( (int ( * )( void *, const char **, int *, void * )) sym( "f__gdxdatareadslice" ) )( o, x.ptrs(), &r.oi[0], (void *) &cbPlain ); return;
            default: break;
         }
      switch( x.fn )
      {
#define VP_ROUTE_D
#include "api_gen.inc"
#undef VP_ROUTE_D
      }
   }
};
}
std::unique_ptr<Route> routeC( const std::string &dir )
{
   auto p = std::make_unique<RC>();
   p->dir = dir;
   return p;
}
std::unique_ptr<Route> routePas( const std::string &dir )
{
   auto p = std::make_unique<RPas>();
   p->dir = dir;
   return p;
}
}
