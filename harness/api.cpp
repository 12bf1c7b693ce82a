#include "api.hpp"
#include "gdx.hpp"
#include "gxfile.hpp"
#include <cmath>

namespace api
{
thread_local Res *cur {};

Res::Res()
{
   for( auto &x: oi ) x = -99991;
   for( auto &x: oa ) x = -99992;
   for( auto &x: od ) x = -99993.25;
   for( auto &x: os ) memset( x, '#', 256 ), x[255] = 0;
   for( auto &x: oss ) memset( x, '#', 256 ), x[255] = 0;
}

static thread_local int cbDim, cbVals;
static void rec( Res *r, const int *Indx, const double *Vals, int dim )
{
   char b[64];
   if( r->cb.size() > 20000 ) return;
   for( int i = 0; i < dim; i++ ) snprintf( b, sizeof b, "%d,", Indx[i] ), r->cb += b;
   for( int i = 0; i < cbVals; i++ ) snprintf( b, sizeof b, "%a,", Vals[i] ), r->cb += b;
   r->cb += ";";
}
void cbPlain( const int *Indx, const double *Vals )
{
   rec( cur, Indx, Vals, cbVals == 1 && cur->oi[0] < 1 ? 0 : cbDim );
   cur->cbCount++;
}
int cbEx( const int *Indx, const double *Vals, int afdim, void *Uptr )
{
   Res *r = cur;
   rec( r, Indx, Vals, cbDim );
   r->cb += "f" + std::to_string( afdim ) + ( Uptr == r ? "" : "BADUPTR" );
   return ++r->cbCount != r->stopAfter;
}
int cbFilt( const int *Indx, const double *Vals, void * )
{
   Res *r = cur;
   rec( r, Indx, Vals, cbDim );
   return ++r->cbCount != r->stopAfter;
}
void cbDom( int RawIndex, int MappedIndex, void *Uptr )
{
   Res *r = cur;
   r->cb += std::to_string( RawIndex ) + ">" + std::to_string( MappedIndex ) + ( Uptr == r ? "" : "BADUPTR" ) + ";";
   r->cbCount++;
}

void Route::call( Call x, Res &r )
{
   if( x.file >= 0 ) x.s[0] = dir + "/f" + std::to_string( x.file ) + ".gdx";
   r.stopAfter = x.stopAfter;
   cur = &r;
   cbDim = 1;// one key is enough to tell records apart without knowing the dimension
   cbVals = x.fn == F_DataReadRawFast || x.fn == F_DataReadRawFastEx ? 5 : 1;// the other two leave the values after the level undefined for sets and parameters
   doCall( x, r );
   cur = nullptr;
   for( auto &o: r.os )// messages may name the file
      if( char *q = strstr( o, dir.c_str() ) )
      {
         std::string t = std::string( o, q ) + "@" + ( q + dir.size() );
         strcpy( o, t.c_str() );
      }
}

static std::string esc( const char *p )
{
   std::string o = "\"";
   for( ; *p; p++ )
   {
      char b[8];
      unsigned char ch = (unsigned char) *p;
      if( ch < 32 || ch > 126 ) snprintf( b, sizeof b, "\\x%02x", ch ), o += b;
      else o += *p;
   }
   return o + "\"";
}

std::string show( const Call &x )
{
   std::string o = fnInfo[x.fn].name;
   o += "(";
   int ni {}, ns {}, na {};
   char b[64];
   for( const char *p = fnInfo[x.fn].sig; *p; p++ )
   {
      if( *p == 'i' ) o += std::to_string( x.i[ni++] ) + " ";
      if( *p == 's' ) o += ( x.file >= 0 && !ns ? "file" + std::to_string( x.file ) : esc( x.s[ns].c_str() ) ) + " ", ns++;
      if( *p == 'd' ) snprintf( b, sizeof b, "%a ", x.d ), o += b;
      if( *p == 'a' )
      {
         for( int k = 0; k < 4; k++ ) o += std::to_string( x.ia[na][k] ) + ",";
         na++;
      }
      if( *p == 'v' )
         for( int k = 0; k < 7; k++ ) snprintf( b, sizeof b, "%a,", x.da[k] ), o += b;
      if( *p == 't' )
         for( int k = 0; k < 4; k++ ) o += esc( x.ss[k].c_str() ) + ",";
   }
   return o + ")";
}

std::string show( const Call &x, const Res &r, bool strOnFail )
{
   char b[64];
   std::string o = "=" + std::to_string( r.ret );
   bool strs = strOnFail || r.ret;
   int ni {}, ns {};
   for( const char *p = fnInfo[x.fn].sig; *p; p++ )
   {
      if( *p == 'I' ) o += " " + std::to_string( r.oi[ni++] );
      if( *p == 'S' && strs ) o += " " + esc( r.os[ns++] );
      if( *p == 'A' )
         for( int v: r.oa ) o += " " + ( v == -99992 ? std::string( "-" ) : std::to_string( v ) );
      if( *p == 'V' )
         for( double v: r.od )
         {
            if( v == -99993.25 ) { o += " -"; continue; }
            snprintf( b, sizeof b, " %a", v ), o += b;
            if( std::isnan( v ) ) o += std::signbit( v ) ? "-" : "+";
         }
      if( *p == 'T' && strs )
         for( auto &v: r.oss ) o += " " + ( v[0] == '#' && v[1] == '#' && v[254] == '#' ? std::string( "-" ) : esc( v ) );
   }
   snprintf( b, sizeof b, " d%a", r.dret ), o += b;
   if( !r.cb.empty() ) o += " cb" + std::to_string( r.cbCount ) + "{" + r.cb + "}";
   return o;
}

namespace
{
#define VPNS gdx
struct RCpp : Route {
   std::string msg;
   gdx::TGXFileObj o { msg };
   void doCall( const Call &x, Res &r ) override
   {
      switch( x.fn )
      {
#define VP_ROUTE_CPP
#include "api_gen.inc"
#undef VP_ROUTE_CPP
      }
   }
};
}
std::unique_ptr<Route> routeCpp( const std::string &dir )
{
   auto p = std::make_unique<RCpp>();
   p->dir = dir;
   return p;
}
}
