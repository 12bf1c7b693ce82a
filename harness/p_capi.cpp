// C18: the C library, the loader, the C++ wrapper over it and the Pascal-string exports do what the C++ class does.
#include "model.hpp"
#include "ops.hpp"
#include <sys/stat.h>

using namespace vp;

static std::string slurp( const std::string &p )
{
   std::string r;
   if( FILE *f = fopen( p.c_str(), "rb" ) )
   {
      char b[65536];
      size_t n;
      while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.append( b, n );
      fclose( f );
   }
   else
      r = "<no file>";
   return r;
}

VP_PROP( C18, routes, "history of at least 20 calls in which a file was written and read and at least 12 different functions succeeded", 12000, 300000 )
{
   static const char *names[] { "C++ class", "C functions through the loader", "C++ wrapper over the library", "Pascal-string, flat and by-reference exports" };
   std::unique_ptr<api::Route> R[4];
   for( int i = 0; i < 4; i++ )
   {
      std::string d = c.path( "r" + std::to_string( i ) );
      mkdir( d.c_str(), 0777 );
      for( int f = 0; f < 3; f++ ) remove( ( d + "/f" + std::to_string( f ) + ".gdx" ).c_str() );
      R[i] = i == 0 ? api::routeCpp( d ) : i == 1 ? api::routeC( d )
                                   : i == 2       ? api::routeWrap( d )
                                                  : api::routePas( d );
   }
   ops::St st;
   int n = s.range( s.chance( 1, 4 ) ? 10 : 60, s.chance( 1, 4 ) ? 300 : 150 );
   std::set<int> okFns;
   bool wrote {}, read {};
   auto files = [&] {
      for( int f = 0; f < 3; f++ )
      {
         std::string a = slurp( R[0]->dir + "/f" + std::to_string( f ) + ".gdx" );
         for( int i = 1; i < 4; i++ )
            c.check( slurp( R[i]->dir + "/f" + std::to_string( f ) + ".gdx" ) == a, "file ", f, " written through ", names[i], " differs from the one written through the C++ class" );
      }
   };
   for( int k = 0; k < n; k++ )
   {
      api::Call x = ops::gen( s, st );
      api::Res r[4];
      std::string t[4], tf;
      c.log( api::show( x ) );
      for( int i = 0; i < 4; i++ )
      {
         R[i]->call( x, r[i] );
         t[i] = api::show( x, r[i], true );
         if( i == 0 ) tf = api::show( x, r[i], false );
         if( i == 3 ) t[i] = api::show( x, r[i], false );
      }
      c.log( "   ", t[0].substr( 0, 300 ) );
      for( int i = 1; i < 4; i++ )
         c.check( t[i] == ( i == 3 ? tf : t[0] ), "call ", k, " ", api::show( x ), " through ", names[i], " gives ", t[i].substr( 0, 600 ), " but the C++ class gives ", t[0].substr( 0, 600 ) );
      ops::after( st, x, r[0] );
      if( r[0].ret > 0 )
      {
         okFns.insert( x.fn );
         c.label( api::fnInfo[x.fn].name );
         wrote |= x.fn == api::F_DataWriteStr || x.fn == api::F_DataWriteRaw || x.fn == api::F_DataWriteMap;
         read |= x.fn == api::F_DataReadStr || x.fn == api::F_DataReadRaw || x.fn == api::F_DataReadMap || r[0].cbCount > 0;
      }
      if( x.fn == api::F_Close ) files();
   }
   for( auto &p: R )
   {
      api::Call x;
      x.fn = api::F_Close;
      api::Res q;
      p->call( x, q );
   }
   files();
   for( auto &p: R ) p.reset();
   c.nontrivial = n >= 20 && wrote && read && okFns.size() >= 12;
   c.desc = std::to_string( n ) + " calls, " + std::to_string( okFns.size() ) + " functions with success";
}
