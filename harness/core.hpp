// Generated-input search engine: choice-sequence generator, forked workers, crash/hang
// isolation, shrinking on the choice sequence, replay.
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace vp
{

struct Fail : std::runtime_error {
   using std::runtime_error::runtime_error;
};

inline uint64_t splitmix( uint64_t &s )
{
   uint64_t z = ( s += 0x9e3779b97f4a7c15ULL );
   z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ULL;
   z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebULL;
   return z ^ ( z >> 31 );
}

// Source of choices: random (recording) or replay of a recorded sequence.
class Src
{
public:
   std::vector<uint32_t> rec;
   bool replay {};
   size_t pos {};
   uint64_t st {};
   int tier {};// 0 quick, 1 thorough
   uint32_t *sink {};

   uint32_t raw( uint64_t n )// value in [0,n)
   {
      if( n <= 1 ) { n = 1; }
      uint32_t v;
      if( replay )
      {
         v = pos < rec.size() ? rec[pos] : 0;
         if( v >= n ) v = static_cast<uint32_t>( v % n );
         pos++;
         used.push_back( v );
      }
      else
      {
         if( rec.size() > 4000000 ) throw std::runtime_error( "generator: too many choices" );
         v = static_cast<uint32_t>( splitmix( st ) % n );
         rec.push_back( v );
         if( sink ) { sink[1 + sink[0]] = v; sink[0]++; }
         pos++;
      }
      return v;
   }
   std::vector<uint32_t> used;

   // uniform integer in [lo,hi]; 0 choice -> lo
   int range( int lo, int hi )
   {
      if( hi <= lo ) return lo;
      return static_cast<int>( static_cast<int64_t>( lo ) + raw( static_cast<uint64_t>( static_cast<int64_t>( hi ) - lo + 1 ) ) );
   }
   // true with probability num/den; shrinks to false
   bool chance( int num, int den ) { return static_cast<int>( raw( den ) ) >= den - num; }
   bool flip() { return raw( 2 ) == 1; }
   // weighted pick; index 0 is the simplest
   int weighted( std::initializer_list<int> w )
   {
      int tot {};
      for( int x: w ) tot += x;
      int r = static_cast<int>( raw( tot ) ), i {};
      for( int x: w )
      {
         if( r < x ) return i;
         r -= x;
         i++;
      }
      return 0;
   }
   uint32_t bits32() { return raw( 0x100000000ULL ); }
   uint64_t bits64()
   {
      uint64_t hi = bits32();
      return ( hi << 32 ) | bits32();
   }
   // small sizes most of the time, bounded by hi
   int size( int hi )
   {
      switch( weighted( { 6, 6, 3, 1 } ) )
      {
         case 0: return range( 0, std::min( 3, hi ) );
         case 1: return range( 0, std::min( 10, hi ) );
         case 2: return range( 0, std::min( 40, hi ) );
         default: return range( 0, hi );
      }
   }
   template<typename T>
   const T &pick( const std::vector<T> &v ) { return v[range( 0, static_cast<int>( v.size() ) - 1 )]; }
};

// Per-case context.
struct Ctx {
   std::string dir;   // private scratch directory of the worker
   bool nontrivial {};// set by the property when the case met its stated rule
   bool verbose {};   // replay: describe what is done
   std::string desc;  // short description of the case (evidence sample)
   std::map<std::string, uint64_t> labels;
   int tier {};
   long index {};// case index, -1 when shrinking/replaying
   void label( const std::string &s, uint64_t n = 1 ) { labels[s] += n; }
   std::string path( const std::string &n ) const { return dir + "/" + n; }
   template<typename... A>
   [[noreturn]] void fail( A &&...a ) const
   {
      std::ostringstream o;
      ( o << ... << a );
      throw Fail( o.str() );
   }
   template<typename... A>
   void check( bool ok, A &&...a ) const
   {
      if( !ok ) fail( std::forward<A>( a )... );
   }
   template<typename... A>
   void log( A &&...a ) const
   {
      if( !verbose ) return;
      std::ostringstream o;
      ( o << ... << a );
      fprintf( stderr, "    %s\n", o.str().c_str() );
   }
};

using PropFn = std::function<void( Src &, Ctx & )>;

struct Prop {
   std::string id;
   std::string sub;   // name of this generator/oracle pair
   std::string rule;  // what makes a case non-trivial
   long quickCases, thoroughCases;
   PropFn fn;
   int caseTimeout { 90 };// seconds
};

std::vector<Prop> &registry();
struct Reg {
   explicit Reg( Prop p ) { registry().push_back( std::move( p ) ); }
};

#define VP_PROP( ID, SUB, RULE, Q, T ) \
   static void prop_##ID##_##SUB( vp::Src &s, vp::Ctx &c ); \
   static vp::Reg reg_##ID##_##SUB( { #ID, #SUB, RULE, Q, T, prop_##ID##_##SUB } ); \
   static void prop_##ID##_##SUB( vp::Src &s, vp::Ctx &c )

std::string hexd( double d );// printable double with its bits
std::string q( const std::string &s );

}// namespace vp
