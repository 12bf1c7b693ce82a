// C19: objects do not affect each other, interleaved in one thread or run by several threads.
#include "model.hpp"
#include "ops.hpp"
#include <atomic>
#include <sys/stat.h>
#include <thread>

using namespace vp;

namespace
{
std::string slurp( const std::string &p )
{
   std::string r;
   if( FILE *f = fopen( p.c_str(), "rb" ) )
   {
      char b[65536];
      size_t n;
      while( ( n = fread( b, 1, sizeof b, f ) ) > 0 ) r.append( b, n );
      fclose( f );
   }
   else
      r = "<no file>";
   return r;
}

struct Stream {
   std::vector<api::Call> calls;
   std::vector<std::string> want;
   std::string files[3];
   bool wrote {}, read {};
};

std::string prepDir( Ctx &c, const std::string &n )
{
   std::string d = c.path( n );
   mkdir( d.c_str(), 0777 );
   for( int f = 0; f < 3; f++ ) remove( ( d + "/f" + std::to_string( f ) + ".gdx" ).c_str() );
   return d;
}

// run a generated history alone and remember everything it returned
Stream solo( Src &s, Ctx &c, int k, int n )
{
   Stream r;
   auto o = api::routeCpp( prepDir( c, "s" + std::to_string( k ) ) );
   ops::St st;
   for( int i = 0; i <= n; i++ )
   {
      api::Call x;
      if( i < n ) x = ops::gen( s, st );
      else x.fn = api::F_Close;
      api::Res q;
      o->call( x, q );
      ops::after( st, x, q );
      r.want.push_back( api::show( x, q ) );
      r.calls.push_back( x );
      r.wrote |= q.ret > 0 && ( x.fn == api::F_DataWriteStr || x.fn == api::F_DataWriteRaw || x.fn == api::F_DataWriteMap );
      r.read |= q.ret > 0 && ( x.fn == api::F_DataReadStr || x.fn == api::F_DataReadRaw || x.fn == api::F_DataReadMap || q.cbCount );
   }
   for( int f = 0; f < 3; f++ ) r.files[f] = slurp( o->dir + "/f" + std::to_string( f ) + ".gdx" );
   return r;
}

void sameFiles( Ctx &c, const Stream &t, const std::string &dir, int k )
{
   for( int f = 0; f < 3; f++ )
      c.check( slurp( dir + "/f" + std::to_string( f ) + ".gdx" ) == t.files[f], "file ", f, " of object ", k, " differs from the one it writes alone" );
}
}// namespace

VP_PROP( C19, interleaved, "two or more objects of which at least two wrote or read records, calls interleaved with at least 10 switches", 4000, 200000 )
{
   int K = s.range( 2, 4 );
   std::vector<Stream> t;
   for( int k = 0; k < K; k++ ) t.push_back( solo( s, c, k, s.range( 5, 90 ) ) );
   std::vector<std::unique_ptr<api::Route>> o( K );
   std::vector<size_t> pos( K );
   int last = -1, switches {}, active {};
   for( int k = 0; k < K; k++ )
      if( s.flip() ) o[k] = api::routeCpp( prepDir( c, "i" + std::to_string( k ) ) );// some objects exist from the start, others come later
   int burst = 1;
   for( ;; )
   {
      std::vector<int> live;
      for( int k = 0; k < K; k++ )
         if( pos[k] < t[k].calls.size() ) live.push_back( k );
      if( live.empty() ) break;
      int k = last >= 0 && burst > 0 && pos[last] < t[last].calls.size() ? last : s.pick( live );
      if( k != last ) switches++, burst = s.chance( 1, 2 ) ? 0 : s.range( 0, 8 );
      else burst--;
      last = k;
      if( !o[k] ) o[k] = api::routeCpp( prepDir( c, "i" + std::to_string( k ) ) );
      api::Res q;
      const auto &x = t[k].calls[pos[k]];
      o[k]->call( x, q );
      std::string got = api::show( x, q );
      c.log( "object ", k, ": ", api::show( x ), " ", got.substr( 0, 200 ) );
      c.check( got == t[k].want[pos[k]], "object ", k, " call ", pos[k], " ", api::show( x ), " gives ", got.substr( 0, 500 ), " but ", t[k].want[pos[k]].substr( 0, 500 ), " when the object is used alone" );
      if( ++pos[k] == t[k].calls.size() )
      {
         std::string dir = o[k]->dir;
         if( s.flip() ) o[k].reset();// some objects end early
         sameFiles( c, t[k], dir, k );
      }
   }
   for( int k = 0; k < K; k++ ) active += t[k].wrote || t[k].read;
   c.nontrivial = active >= 2 && switches >= 10;
   c.desc = std::to_string( K ) + " objects, " + std::to_string( switches ) + " switches";
}

VP_PROP( C19, threads, "two or more threads, each with its own object, of which at least two wrote or read records", 1500, 60000 )
{
   int K = s.range( 2, 4 );
   std::vector<Stream> t;
   for( int k = 0; k < K; k++ ) t.push_back( solo( s, c, k, s.range( 5, 90 ) ) );
   std::vector<std::string> err( K ), dir( K );
   for( int k = 0; k < K; k++ ) dir[k] = prepDir( c, "t" + std::to_string( k ) );
   std::atomic<int> ready {};
   std::vector<std::thread> th;
   int rounds = s.range( 1, 3 );
   for( int k = 0; k < K; k++ )
      th.emplace_back( [&, k] {
         ready++;
         while( ready < K ) std::this_thread::yield();
         for( int r = 0; r < rounds && err[k].empty(); r++ )
         {
            for( int f = 0; f < 3; f++ ) remove( ( dir[k] + "/f" + std::to_string( f ) + ".gdx" ).c_str() );
            auto o = api::routeCpp( dir[k] );
            for( size_t i = 0; i < t[k].calls.size(); i++ )
            {
               api::Res q;
               o->call( t[k].calls[i], q );
               std::string got = api::show( t[k].calls[i], q );
               if( got != t[k].want[i] )
               {
                  err[k] = "call " + std::to_string( i ) + " " + api::show( t[k].calls[i] ) + " gives " + got.substr( 0, 500 ) + " but " + t[k].want[i].substr( 0, 500 ) + " when the object is used alone";
                  break;
               }
            }
         }
      } );
   for( auto &x: th ) x.join();
   for( int k = 0; k < K; k++ ) c.check( err[k].empty(), "thread ", k, ": ", err[k] );
   int active {};
   for( int k = 0; k < K; k++ ) sameFiles( c, t[k], dir[k], k ), active += t[k].wrote || t[k].read;
   c.nontrivial = active >= 2;
   c.desc = std::to_string( K ) + " threads x " + std::to_string( rounds ) + " rounds";
}
