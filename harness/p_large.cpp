// Large files: label tables beyond the 16-bit limits, hundreds of thousands of records, tens of thousands of set texts,
// thousands of symbols. Content follows from a few drawn sizes and a seed, so that every expectation can be computed.
// One file shape, looked at from the side of several properties.
#include "model.hpp"
#include <memory>
#include <unordered_map>

using namespace vp;

namespace
{
struct R2 {
   int k[2];
   double v;
   bool operator<( const R2 &o ) const { return k[0] != o.k[0] ? k[0] < o.k[0] : k[1] < o.k[1]; }
   bool same( const R2 &o ) const { return k[0] == o.k[0] && k[1] == o.k[1] && bitsOf( v ) == bitsOf( o.v ); }
};

struct Big {
   uint64_t seed {};
   int L {}, T {}, R {}, N {}, M {};// labels, set texts, records of P, scalars, records of V
   bool compress {};
   int mode {};// of P: 0 raw, 1 map, 2 strings
   std::vector<std::string> lab;// by number, from 1
   std::vector<int> inS;        // members of the set
   std::vector<R2> P;           // sorted
   std::vector<std::array<int, 5>> Vk;
   std::string fn;

   uint64_t hash( uint64_t x ) const
   {
      uint64_t s = seed ^ ( x * 0x9e3779b97f4a7c15ULL );
      return splitmix( s );
   }
   bool member( int i ) const { return hash( 17 + (uint64_t) i ) % 4 != 0; }
   double value( int a, int b ) const
   {
      uint64_t h = hash( ( (uint64_t) a << 32 ) ^ (uint64_t) b );
      static const double sp[] { 1, 2, -1, 0.5, GMS_SV_EPS, GMS_SV_NA, GMS_SV_PINF, GMS_SV_MINF };
      if( h % 5 == 0 ) return sp[( h >> 8 ) % 8];
      return double( int64_t( h >> 20 ) - ( int64_t( 1 ) << 42 ) ) / 1024;
   }
   std::string text( int t ) const { return "text " + std::to_string( t ) + std::string( size_t( t % 7 ), 'x' ); }
   int usr( int i ) const { return L + 1 - i; }// user numbers run backwards
};

std::vector<int> shuffled( const Big &b, int n )
{
   std::vector<int> o( (size_t) n );
   for( int i = 0; i < n; i++ ) o[(size_t) i] = i;
   uint64_t st = b.seed ^ 77;
   for( int i = n - 1; i > 0; i-- ) std::swap( o[(size_t) i], o[size_t( splitmix( st ) % uint64_t( i + 1 ) )] );
   return o;
}

Big draw( Src &s, Ctx &c )
{
   static const std::vector<int> Ls { 1000, 255, 256, 257, 4095, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 131073, 200000 };
   Big b;
   b.seed = (uint64_t) s.bits32();
   b.L = s.pick( Ls );
   b.T = s.pick( std::vector<int> { 0, 10, 300, 32769, 65536, 70000 } );
   b.R = s.pick( std::vector<int> { 500, 5000, 20000, 66000, 150000 } );
   b.N = s.pick( std::vector<int> { 0, 5, 300, 3000 } );
   b.M = s.pick( std::vector<int> { 0, 100, 5000 } );
   b.mode = s.range( 0, 2 );
   b.compress = s.flip();
   b.fn = c.path( "large.gdx" );
   b.lab.resize( size_t( b.L ) + 1 );
   for( int i = 1; i <= b.L; i++ )
   {
      auto &t = b.lab[(size_t) i];
      t = ( i % 3 ? "u" : "Lab " ) + std::to_string( i );
      if( i % 97 == 5 ) t += std::string( size_t( 63 - (int) t.size() - i % 11 ), i % 2 ? 'q' : 'Q' );
      if( b.member( i ) ) b.inS.push_back( i );
   }
   // the first key runs over few labels, many, or all of them
   const int width = s.pick( std::vector<int> { 3, 200, b.L } );
   uint64_t st = b.seed ^ 5;
   for( int r = 0; r < b.R; r++ )
   {
      R2 x;
      x.k[0] = b.L - int( splitmix( st ) % (uint64_t) std::min( width, b.L ) );
      x.k[1] = 1 + int( splitmix( st ) % (uint64_t) b.L );
      x.v = b.value( x.k[0], x.k[1] );
      b.P.push_back( x );
   }
   std::sort( b.P.begin(), b.P.end() );
   b.P.erase( std::unique( b.P.begin(), b.P.end(), []( const R2 &x, const R2 &y ) { return x.k[0] == y.k[0] && x.k[1] == y.k[1]; } ), b.P.end() );
   for( int r = 0; r < b.M; r++ )
   {
      std::array<int, 5> k;
      for( auto &e: k ) e = 1 + int( splitmix( st ) % (uint64_t) b.L );
      b.Vk.push_back( k );
   }
   std::sort( b.Vk.begin(), b.Vk.end() );
   b.Vk.erase( std::unique( b.Vk.begin(), b.Vk.end() ), b.Vk.end() );
   return b;
}

std::string sizes( const Big &b )
{
   return std::to_string( b.L ) + " labels, " + std::to_string( b.P.size() ) + " + " + std::to_string( b.inS.size() ) + " + " + std::to_string( b.Vk.size() ) + " records, " + std::to_string( b.T ) + " texts, " + std::to_string( b.N + 3 ) + " symbols, mode " + std::to_string( b.mode ) + ( b.compress ? ", compressed" : "" );
}
#define MUST( cond, ... ) \
   do {                   \
      if( !( cond ) ) c.check( false, __VA_ARGS__ ); \
   } while( 0 )

void open( Ctx &c, TGXFileObj &g, const std::string &fn )
{
   int e;
   c.check( g.gdxOpenRead( fn.c_str(), e ) == 1 && e == 0, "cannot be read: ", e );
}

void writeP( Ctx &c, TGXFileObj &g, const Big &b, const char *name, const char **dom )
{
   int ok = b.mode == 0 ? g.gdxDataWriteRawStart( name, "two positions", 2, GMS_DT_PAR, 0 ) : b.mode == 1 ? g.gdxDataWriteMapStart( name, "two positions", 2, GMS_DT_PAR, 0 )
                                                                                                 : g.gdxDataWriteStrStart( name, "two positions", 2, GMS_DT_PAR, 0 );
   c.check( ok == 1, "start of ", name );
   if( dom ) c.check( g.gdxSymbolSetDomain( dom ) == 1, "domain of ", name );
   std::vector<int> order;
   if( b.mode ) order = shuffled( b, (int) b.P.size() );
   for( size_t i = 0; i < b.P.size(); i++ )
   {
      const R2 &x = b.P[b.mode ? (size_t) order[i] : i];
      double v[5] { x.v };
      int r;
      bool in = !dom || ( b.member( x.k[0] ) && b.member( x.k[1] ) );
      if( b.mode == 0 ) r = g.gdxDataWriteRaw( x.k, v );
      else if( b.mode == 1 )
      {
         int k[2] { b.usr( x.k[0] ), b.usr( x.k[1] ) };
         r = g.gdxDataWriteMap( k, v );
      }
      else
      {
         const char *k[2] { b.lab[(size_t) x.k[0]].c_str(), b.lab[(size_t) x.k[1]].c_str() };
         r = g.gdxDataWriteStr( k, v );
      }
      MUST( r == ( b.mode || in ? 1 : 0 ), "record ", x.k[0], ",", x.k[1], " returns ", r );
   }
   c.check( g.gdxDataWriteDone() == 1, "end of ", name );
}

void write( Ctx &c, const Big &b, bool domains = false )
{
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   int e;
   c.check( g.gdxOpenWriteEx( b.fn.c_str(), "large", b.compress, e ) == 1, "cannot be written" );
   if( b.mode == 1 )
   {
      c.check( g.gdxUELRegisterMapStart() == 1, "map start" );
      for( int i = 1; i <= b.L; i++ ) MUST( g.gdxUELRegisterMap( b.usr( i ), b.lab[(size_t) i].c_str() ) == 1, "label ", i, " cannot be registered" );
   }
   else
   {
      c.check( g.gdxUELRegisterRawStart() == 1, "raw start" );
      for( int i = 1; i <= b.L; i++ ) MUST( g.gdxUELRegisterRaw( b.lab[(size_t) i].c_str() ) == 1, "label ", i, " cannot be registered" );
   }
   c.check( g.gdxUELRegisterDone() == 1, "labels done" );
   for( int t = 1; t <= b.T; t++ )
   {
      int nr {};
      MUST( g.gdxAddSetText( b.text( t ).c_str(), nr ) == 1 && nr == t, "set text ", t, " has number ", nr );
   }
   c.check( g.gdxDataWriteRawStart( "S", "the set", 1, GMS_DT_SET, 0 ) == 1, "start of S" );
   for( int i: b.inS )
   {
      double v[5] { b.T ? double( b.hash( 99 + (uint64_t) i ) % uint64_t( b.T + 1 ) ) : 0.0 };
      MUST( g.gdxDataWriteRaw( &i, v ) == 1, "member ", i, " refused" );
   }
   c.check( g.gdxDataWriteDone() == 1, "end of S" );
   const char *dom[] { "S", "S" };
   writeP( c, g, b, "P", domains ? dom : nullptr );
   c.check( g.gdxDataWriteRawStart( "V", "five positions", 5, GMS_DT_VAR, 5 ) == 1, "start of V" );
   for( auto &k: b.Vk )
   {
      double v[5];
      for( int f = 0; f < 5; f++ ) v[f] = b.value( k[(size_t) f], k[0] + f );
      MUST( g.gdxDataWriteRaw( k.data(), v ) == 1, "record of V refused" );
   }
   c.check( g.gdxDataWriteDone() == 1, "end of V" );
   for( int n = 1; n <= b.N; n++ )
   {
      double v[5] { n + 0.5 };
      std::string id = "k" + std::to_string( n );
      MUST( g.gdxDataWriteRawStart( id.c_str(), ( "scalar " + std::to_string( n ) ).c_str(), 0, GMS_DT_PAR, 0 ) == 1 && g.gdxDataWriteRaw( nullptr, v ) == 1 && g.gdxDataWriteDone() == 1, "scalar ", n );
   }
   int e2 = g.gdxClose();
   c.check( e2 == 0, "closing returns ", e2 );
}

std::vector<R2> inside( const Big &b )
{
   std::vector<R2> o;
   for( auto &x: b.P )
      if( b.member( x.k[0] ) && b.member( x.k[1] ) ) o.push_back( x );
   return o;
}

void readRawP( Ctx &c, TGXFileObj &g, const char *name, const std::vector<R2> &want )
{
   int sy, n;
   c.check( g.gdxFindSymbol( name, sy ) == 1, name, " is missing" );
   c.check( g.gdxDataReadRawStart( sy, n ) == 1 && n == (int) want.size(), name, " has ", n, " records, expected ", want.size() );
   for( auto &x: want )
   {
      int k[MAXDIM], fd;
      double v[5];
      MUST( g.gdxDataReadRaw( k, v, fd ) == 1, name, " ends early" );
      MUST( k[0] == x.k[0] && k[1] == x.k[1] && bitsOf( v[0] ) == bitsOf( x.v ), name, " holds ", k[0], ",", k[1], " with ", v[0], ", expected ", x.k[0], ",", x.k[1], " with ", x.v );
   }
   int k[MAXDIM], fd;
   double v[5];
   c.check( g.gdxDataReadRaw( k, v, fd ) == 0, name, " has more records than it says" );
   g.gdxDataReadDone();
}

void readStrP( Ctx &c, TGXFileObj &g, const Big &b, const char *name, const std::vector<R2> &want )
{
   int sy, n;
   c.check( g.gdxFindSymbol( name, sy ) == 1, name, " is missing" );
   c.check( g.gdxDataReadStrStart( sy, n ) == 1 && n == (int) want.size(), name, " has ", n, " records, expected ", want.size() );
   static thread_local char buf[MAXDIM][256];
   char *kp[MAXDIM];
   for( int i = 0; i < MAXDIM; i++ ) kp[i] = buf[i];
   for( auto &x: want )
   {
      int fd;
      double v[5];
      buf[0][0] = buf[1][0] = '\0';
      MUST( g.gdxDataReadStr( kp, v, fd ) == 1, name, " ends early" );
      MUST( b.lab[(size_t) x.k[0]] == buf[0] && b.lab[(size_t) x.k[1]] == buf[1] && bitsOf( v[0] ) == bitsOf( x.v ), name, " holds ", buf[0], ",", buf[1], " with ", v[0], ", expected ", b.lab[(size_t) x.k[0]], ",", b.lab[(size_t) x.k[1]], " with ", x.v );
   }
   int fd;
   double v[5];
   c.check( g.gdxDataReadStr( kp, v, fd ) == 0, name, " has more records than it says" );
   g.gdxDataReadDone();
}

void readRest( Ctx &c, TGXFileObj &g, const Big &b, int moreSyms, int moreLabels )
{
   int sc, uc, sy, n, fd, k[MAXDIM];
   double v[5];
   g.gdxSystemInfo( sc, uc );
   c.check( sc == b.N + 3 + moreSyms && uc == b.L + moreLabels, "the file has ", sc, " symbols and ", uc, " labels, expected ", b.N + 3 + moreSyms, " and ", b.L + moreLabels );
   for( int i = 1; i <= b.L; i++ )
   {
      char u[256];
      int m;
      MUST( g.gdxUMUelGet( i, u, m ) == 1 && b.lab[(size_t) i] == u, "label ", i, " is ", u, " expected ", b.lab[(size_t) i] );
   }
   c.check( g.gdxFindSymbol( "s", sy ) == 1, "S is missing" );
   c.check( g.gdxDataReadRawStart( sy, n ) == 1 && n == (int) b.inS.size(), "S has ", n, " records, expected ", b.inS.size() );
   for( int i: b.inS )
   {
      MUST( g.gdxDataReadRaw( k, v, fd ) == 1, "S ends early" );
      int t = b.T ? int( b.hash( 99 + (uint64_t) i ) % uint64_t( b.T + 1 ) ) : 0;
      MUST( k[0] == i && v[0] == t, "S holds ", k[0], " with text ", v[0], ", expected ", i, " with ", t );
   }
   c.check( g.gdxDataReadRaw( k, v, fd ) == 0, "S has more records than it says" );
   g.gdxDataReadDone();
   for( int t = 0; t <= b.T; t++ )
   {
      char x[256];
      int node;
      MUST( g.gdxGetElemText( t, x, node ) == 1 && ( t ? b.text( t ) : std::string() ) == x, "set text ", t, " is ", x );
   }
   c.check( g.gdxFindSymbol( "V", sy ) == 1 && g.gdxDataReadRawStart( sy, n ) == 1 && n == (int) b.Vk.size(), "V has ", n, " records, expected ", b.Vk.size() );
   for( auto &w: b.Vk )
   {
      MUST( g.gdxDataReadRaw( k, v, fd ) == 1, "V ends early" );
      for( int f = 0; f < 5; f++ ) MUST( k[f] == w[(size_t) f] && bitsOf( v[f] ) == bitsOf( b.value( w[(size_t) f], w[0] + f ) ), "V: position or value ", f, " differs" );
   }
   c.check( g.gdxDataReadRaw( k, v, fd ) == 0, "V has more records than it says" );
   g.gdxDataReadDone();
   for( int i = 1; i <= b.N; i++ )
   {
      std::string id = "K" + std::to_string( i );
      MUST( g.gdxFindSymbol( id.c_str(), sy ) == 1 && sy == 3 + i, id, " is symbol ", sy );
      MUST( g.gdxDataReadRawStart( sy, n ) == 1 && n == 1 && g.gdxDataReadRaw( k, v, fd ) == 1 && v[0] == i + 0.5, "scalar ", id, " is ", v[0] );
      g.gdxDataReadDone();
   }
}
std::vector<R2> *sink {};
void takeDP( const int *k, const double *v ) { sink->push_back( { { k[0], k[1] }, v[0] } ); }
int takeFilt( const int *k, const double *v, void * )
{
   takeDP( k, v );
   return 1;
}
void domDP( int raw, int mapped, void *u ) { ( (std::vector<std::pair<int, int>> *) u )->emplace_back( raw, mapped ); }
}// namespace

#define RULE_LARGE "a file with more than 32000 labels, records or set texts was written and read"
#define NONTRIV ( b.L > 32000 || b.P.size() > 32000 || b.T > 32000 )

VP_PROP( C01, large, RULE_LARGE, 48, 1500 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   readRest( c, g, b, 0, 0 );
   readRawP( c, g, "P", b.P );
   if( s.flip() ) readStrP( c, g, b, "P", b.P );
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C02, large, RULE_LARGE, 16, 1000 )
{// the same records through the three interfaces
   Big b = draw( s, c );
   c.desc = sizes( b );
   std::string first;
   for( b.mode = 0; b.mode < 3; b.mode++ )
   {
      write( c, b );
      std::string msg;
      TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
      open( c, g, b.fn );
      readRawP( c, g, "P", b.P );
      g.gdxClose();
   }
   c.nontrivial = NONTRIV;
}

VP_PROP( C03, large, RULE_LARGE, 32, 1000 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   // some records of another symbol first, then everything in several ways
   int n, fd, k[MAXDIM];
   double v[5];
   c.check( g.gdxDataReadRawStart( 1, n ) == 1, "S cannot be read" );
   for( int i = s.range( 0, 5 ); i > 0; i-- ) g.gdxDataReadRaw( k, v, fd );
   g.gdxDataReadDone();
   readStrP( c, g, b, "p", b.P );
   readRawP( c, g, "P", b.P );
   std::vector<R2> got;
   sink = &got;
   c.check( g.gdxDataReadRawFast( 2, takeDP, n ) == 1 && n == (int) b.P.size() && got.size() == b.P.size(), "reading with a callback gives ", got.size(), " records, announces ", n, ", expected ", b.P.size() );
   for( size_t i = 0; i < got.size(); i++ ) MUST( got[i].same( b.P[i] ), "record ", i, " differs when read with a callback" );
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C04, large, RULE_LARGE, 32, 1000 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   std::vector<int> el[2];
   for( int d = 0; d < 2; d++ )
   {
      std::set<int> e;
      for( auto &x: b.P ) e.insert( x.k[d] );
      el[d].assign( e.begin(), e.end() );
   }
   int cnt[MAXDIM] {};
   c.check( g.gdxDataReadSliceStart( 2, cnt ) == 1 && cnt[0] == (int) el[0].size() && cnt[1] == (int) el[1].size(), "slices of ", cnt[0], " and ", cnt[1], " labels, expected ", el[0].size(), " and ", el[1].size() );
   for( int times = 3; times > 0; times-- )
   {
      const R2 &pick = b.P[size_t( s.bits32() ) % b.P.size()];
      const int d = s.range( 0, 1 );
      const char *f[MAXDIM] { "", "" };
      f[d] = b.lab[(size_t) pick.k[d]].c_str();
      std::vector<R2> got, want;
      sink = &got;
      int dim {};
      c.check( g.gdxDataReadSlice( f, dim, takeDP ) == 1 && dim == 1, "slice" );
      for( auto &x: b.P )
         if( x.k[d] == pick.k[d] ) want.push_back( x );
      c.check( got.size() == want.size(), "slice of ", f[d], " gives ", got.size(), " records, expected ", want.size() );
      char nb[2][256];
      char *np[] { nb[0], nb[1] };
      for( size_t i = 0; i < got.size(); i++ )
      {
         MUST( bitsOf( got[i].v ) == bitsOf( want[i].v ) && el[1 - d][(size_t) got[i].k[0]] == want[i].k[1 - d], "record ", i, " of the slice differs" );
         if( i % 50 == 0 )
            MUST( g.gdxDataSliceUELS( got[i].k, np ) == 1 && b.lab[(size_t) want[i].k[0]] == nb[0] && b.lab[(size_t) want[i].k[1]] == nb[1], "slice labels ", nb[0], ",", nb[1] );
      }
   }
   g.gdxDataReadDone();
   {
      const R2 &pick = b.P[size_t( s.bits32() ) % b.P.size()];
      const char *f[MAXDIM] { b.lab[(size_t) pick.k[0]].c_str(), s.flip() ? "" : b.lab[(size_t) pick.k[1]].c_str() };
      std::vector<R2> got, want;
      sink = &got;
      c.check( g.gdxDataReadRawFastFilt( 2, f, takeFilt ) == 1, "filtered by labels" );
      for( auto &x: b.P )
         if( x.k[0] == pick.k[0] && ( !*f[1] || x.k[1] == pick.k[1] ) ) want.push_back( x );
      c.check( got.size() == want.size(), "reading the records of a label gives ", got.size(), " records, expected ", want.size() );
      for( size_t i = 0; i < got.size(); i++ ) MUST( got[i].same( want[i] ), "selected record ", i, " differs" );
   }
   for( int d = 0; d < 2; d++ )
   {
      std::vector<std::pair<int, int>> e;
      int n {};
      c.check( g.gdxGetDomainElements( 2, d + 1, gdx::DOMC_EXPAND, domDP, n, &e ) == 1 && n == (int) el[d].size() && e.size() == el[d].size(), "position ", d + 1, " has ", n, " labels, expected ", el[d].size() );
      std::sort( e.begin(), e.end() );
      for( size_t i = 0; i < e.size(); i++ ) MUST( e[i].first == el[d][i], "position ", d + 1, ": label ", e[i].first, " expected ", el[d][i] );
   }
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C05, large, RULE_LARGE, 50, 1500 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   // the reader numbers its labels forwards, backwards or shuffled, with gaps, and knows some of them only
   const int style = s.range( 0, 2 ), gap = s.pick( std::vector<int> { 1, 2, 7 } ), known = s.pick( std::vector<int> { 1, 2, 3, 10 } );
   std::vector<int> perm = shuffled( b, b.L ), usr( size_t( b.L ) + 1, -1 );
   int top = 0;
   c.check( g.gdxUELRegisterMapStart() == 1, "map start" );
   for( int i = 1; i <= b.L; i++ )
   {
      if( known == 2 ? i % 2 : known == 3 ? i % 3 == 0 : known == 10 && i % 10 != 0 ) continue;
      int u = ( style == 0 ? i : style == 1 ? b.L + 1 - i : perm[size_t( i - 1 )] + 1 ) * gap;
      usr[(size_t) i] = u;
      top = std::max( top, u );
      MUST( g.gdxUELRegisterMap( u, b.lab[(size_t) i].c_str() ) == 1, "label ", i, " refused as ", u );
   }
   c.check( g.gdxUELRegisterDone() == 1, "map done" );
   auto filt = [&]( int u ) { return u > 0 && ( u / gap ) % 3 != 1; };
   c.check( g.gdxFilterRegisterStart( 5 ) == 1, "filter start" );
   for( int i = 1; i <= b.L; i++ )
      if( filt( usr[(size_t) i] ) ) MUST( g.gdxFilterRegister( usr[(size_t) i] ) == 1, "filter refuses ", usr[(size_t) i] );
   c.check( g.gdxFilterRegisterDone() == 1, "filter done" );
   for( int times = 2; times > 0; times-- )
   {
      int act[MAXDIM] {};
      for( int d = 0; d < 2; d++ ) act[d] = s.pick( std::vector<int> { gdx::DOMC_STRICT, gdx::DOMC_UNMAPPED, 5 } );
      std::vector<R2> want;
      bool dropped {};
      for( auto &x: b.P )
      {
         R2 y = x;
         bool ok = true;
         for( int d = 0; d < 2; d++ )
         {
            int u = usr[(size_t) x.k[d]];
            if( act[d] != gdx::DOMC_UNMAPPED ) y.k[d] = u;
            ok = ok && ( act[d] == gdx::DOMC_UNMAPPED || ( act[d] == gdx::DOMC_STRICT ? u > 0 : filt( u ) ) );
         }
         if( ok ) want.push_back( y );
         dropped |= !ok;
      }
      std::sort( want.begin(), want.end() );
      int n;
      c.check( g.gdxDataReadFilteredStart( 2, act, n ) == 1, "filtered reading" );
      for( size_t i = 0; i < want.size(); i++ )
      {
         int k[MAXDIM], fd;
         double v[5];
         MUST( g.gdxDataReadMap( 0, k, v, fd ) == 1, "reading with actions ", act[0], ",", act[1], " ends after ", i, " records, expected ", want.size() );
         MUST( k[0] == want[i].k[0] && k[1] == want[i].k[1] && bitsOf( v[0] ) == bitsOf( want[i].v ), "reading with actions ", act[0], ",", act[1], ": record ", i, " is ", k[0], ",", k[1], " with ", v[0], ", expected ", want[i].k[0], ",", want[i].k[1], " with ", want[i].v );
      }
      int k[MAXDIM], fd;
      double v[5];
      c.check( g.gdxDataReadMap( 0, k, v, fd ) == 0, "reading with actions ", act[0], ",", act[1], " gives more than ", want.size(), " records" );
      g.gdxDataReadDone();
      c.check( ( g.gdxDataErrorCount() > 0 ) == dropped, "records left out, but ", g.gdxDataErrorCount(), " errors listed" );
   }
   {// unknown labels get new numbers
      int act[MAXDIM], n;
      std::fill( act, act + MAXDIM, (int) gdx::DOMC_EXPAND );
      c.check( g.gdxDataReadFilteredStart( 2, act, n ) == 1, "expanding reading" );
      std::vector<int> now = usr;
      std::vector<R2> got;
      int k[MAXDIM], fd;
      double v[5];
      while( g.gdxDataReadMap( 0, k, v, fd ) ) got.push_back( { { k[0], k[1] }, v[0] } );
      g.gdxDataReadDone();
      c.check( got.size() == b.P.size(), "expanding reading gives ", got.size(), " records, expected ", b.P.size() );
      std::set<int> fresh;
      for( int i = 1; i <= b.L; i++ )
      {
         char u[256];
         int m;
         g.gdxUMUelGet( i, u, m );
         MUST( usr[(size_t) i] < 0 || m == usr[(size_t) i], "the number of label ", i, " changes from ", usr[(size_t) i], " to ", m );
         if( usr[(size_t) i] < 0 && m >= 0 ) MUST( m > top && fresh.insert( m ).second, "label ", i, " gets number ", m );
         now[(size_t) i] = m;
      }
      std::vector<R2> want;
      for( auto &x: b.P )
      {
         MUST( now[(size_t) x.k[0]] > 0 && now[(size_t) x.k[1]] > 0, "a label that was read has no number" );
         want.push_back( { { now[(size_t) x.k[0]], now[(size_t) x.k[1]] }, x.v } );
      }
      for( size_t i = 1; i < got.size(); i++ ) MUST( got[i - 1] < got[i], "expanding reading is not in order at record ", i );
      std::sort( want.begin(), want.end() );
      for( size_t i = 0; i < got.size(); i++ ) MUST( got[i].same( want[i] ), "expanding reading: record ", i, " is ", got[i].k[0], ",", got[i].k[1], ", expected ", want[i].k[0], ",", want[i].k[1] );
   }
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C08, large, RULE_LARGE, 12, 800 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   if( s.flip() ) b.P.resize( std::min<size_t>( b.P.size(), 500 ) );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   auto verify = [&] {
      for( int i = 1; i <= b.L; i++ )
      {
         std::string t = b.lab[(size_t) i];
         if( i % 5 == 0 ) t = upper( t );
         if( i % 7 == 0 ) t += "  ";
         int nr, m;
         MUST( g.gdxUMFindUEL( t.c_str(), nr, m ) == 1 && nr == i, "label ", t, " found as ", nr, ", expected ", i );
         if( i % 11 == 0 ) MUST( g.gdxUMFindUEL( ( t + "_" ).c_str(), nr, m ) == 0, "a label that is not there is found as ", nr );
      }
   };
   verify();
   int renamed = s.pick( std::vector<int> { 3, 500, 20000 } );
   for( int r = 0; r < renamed; r++ )
   {
      int i = 1 + int( b.hash( 3 + (uint64_t) r ) % (uint64_t) b.L );
      std::string nn = "new " + std::to_string( r );
      MUST( g.gdxRenameUEL( b.lab[(size_t) i].c_str(), nn.c_str() ) == 0, "label ", i, " cannot be renamed" );
      b.lab[(size_t) i] = nn;
   }
   verify();
   readStrP( c, g, b, "P", b.P );
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C11, large, RULE_LARGE, 32, 1000 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b, true );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   auto in = inside( b );
   readRawP( c, g, "P", in );
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV && in.size() && in.size() < b.P.size();
}

VP_PROP( C12, large, RULE_LARGE, 12, 800 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   const int sessions = s.range( 1, 3 ), fresh = s.pick( std::vector<int> { 1, 300, 40000 } );
   std::vector<std::string> more { "" };
   std::vector<std::vector<int>> Q;
   for( int t = 0; t < sessions; t++ )
   {
      std::string msg;
      TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
      int e;
      c.check( g.gdxOpenAppend( b.fn.c_str(), "large", e ) == 1 && e == 0, "cannot be extended" );
      std::string id = "Q" + std::to_string( t );
      c.check( g.gdxDataWriteStrStart( id.c_str(), "added", 1, GMS_DT_PAR, 0 ) == 1, "start" );
      std::vector<int> q;
      for( int i = 0; i < 500; i++ ) q.push_back( 1 + int( b.hash( 1000003 + (uint64_t) i ) % (uint64_t) b.L ) );
      std::sort( q.begin(), q.end() );
      q.erase( std::unique( q.begin(), q.end() ), q.end() );
      for( int i: q )
      {
         double v[5] { double( i ) };
         const char *k[] { b.lab[(size_t) i].c_str() };
         MUST( g.gdxDataWriteStr( k, v ) == 1, "old label" );
      }
      for( int i = 0; i < fresh; i++ )
      {
         more.push_back( "more " + std::to_string( more.size() ) );
         int nr = b.L + (int) more.size() - 1;
         double v[5] { double( nr ) };
         const char *k[] { more.back().c_str() };
         MUST( g.gdxDataWriteStr( k, v ) == 1, "new label" );
         q.push_back( nr );
      }
      c.check( g.gdxDataWriteDone() == 1 && g.gdxClose() == 0, "end" );
      Q.push_back( q );
   }
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   readRest( c, g, b, sessions, (int) more.size() - 1 );
   readRawP( c, g, "P", b.P );
   for( int t = 0; t < sessions; t++ )
   {
      int sy, n, fd, k[MAXDIM];
      double v[5];
      auto &q = Q[(size_t) t];
      c.check( g.gdxFindSymbol( ( "q" + std::to_string( t ) ).c_str(), sy ) == 1 && g.gdxDataReadRawStart( sy, n ) == 1 && n == (int) q.size(), "added symbol has ", n, " records, expected ", q.size() );
      for( int i: q ) MUST( g.gdxDataReadRaw( k, v, fd ) == 1 && k[0] == i && v[0] == i, "added record ", i, " reads ", k[0] );
      g.gdxDataReadDone();
   }
   for( size_t i = 1; i < more.size(); i++ )
   {
      char u[256];
      int m;
      MUST( g.gdxUMUelGet( b.L + (int) i, u, m ) == 1 && more[i] == u, "added label ", i, " is ", u );
   }
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}

VP_PROP( C26, large, RULE_LARGE, 24, 800 )
{
   Big b = draw( s, c );
   c.desc = sizes( b );
   write( c, b );
   std::string msg;
   TGXFileObj g { msg };
   g.gdxAutoConvert( 0 );
   open( c, g, b.fn );
   int len[2] {}, all {}, got[MAXDIM] {};
   for( auto &x: b.P )
      for( int d = 0; d < 2; d++ ) len[d] = std::max( len[d], (int) b.lab[(size_t) x.k[d]].size() );
   for( auto &l: b.lab ) all = std::max( all, (int) l.size() );
   int r = g.gdxSymbIndxMaxLength( 2, got );
   c.check( r == std::max( len[0], len[1] ) && got[0] == len[0] && got[1] == len[1], "label lengths of P are ", got[0], ",", got[1], " and ", r, ", expected ", len[0], ",", len[1] );
   c.check( g.gdxUELMaxLength() == all, "longest label ", g.gdxUELMaxLength(), " expected ", all );
   c.check( g.gdxSymbMaxLength() == ( b.N ? 1 + (int) std::to_string( b.N ).size() : 1 ), "longest name ", g.gdxSymbMaxLength() );
   int rc, ui;
   char t[256];
   c.check( g.gdxSymbolInfoX( 0, rc, ui, t ) == 1 && rc == b.L, "universe of ", rc, " labels, expected ", b.L );
   c.check( g.gdxSymbolInfoX( 1, rc, ui, t ) == 1 && rc == (int) b.inS.size(), "S has ", rc, " records" );
   c.check( g.gdxSymbolInfoX( 2, rc, ui, t ) == 1 && rc == (int) b.P.size(), "P has ", rc, " records" );
   c.check( g.gdxSymbolInfoX( 3, rc, ui, t ) == 1 && rc == (int) b.Vk.size(), "V has ", rc, " records" );
   c.check( g.gdxClose() == 0, "close" );
   c.nontrivial = NONTRIV;
}
