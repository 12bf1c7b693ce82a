// C03: every way of reading agrees.
#include "model.hpp"
using namespace vp;

namespace
{
struct Got {
   std::vector<Rec> recs;
   std::vector<int> fdim;
};
Got *sink {};
int sinkDim {}, sinkNv {}, sinkStop { -1 };
void fastDP( const int *k, const double *v )
{
   Rec r;
   r.k.assign( k, k + sinkDim );
   for( int i = 0; i < sinkNv; i++ ) r.v[i] = v[i];
   sink->recs.push_back( r );
}
int fastExDP( const int *k, const double *v, int fd, void *u )
{
   auto *gt = (Got *) u;
   Rec r;
   r.k.assign( k, k + sinkDim );
   for( int i = 0; i < sinkNv; i++ ) r.v[i] = v[i];
   gt->recs.push_back( r );
   gt->fdim.push_back( fd );
   if( sinkStop >= 0 && (int) gt->recs.size() > sinkStop ) return 0;
   return 1;
}
}// namespace

VP_PROP( C03, agree, "a symbol with at least two records was read completely through five interfaces after partial reads of other symbols", 10000, 150000 )
{
   GenOpt o;
   o.maxSyms = 5;
   o.rich = true;
   o.big = s.chance( 1, 15 );
   o.maxRecs = 150;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   writePlan( c, s, *g, p, w, d );
   closeOk( c, *g );
   if( s.flip() ) g = mkUsed( c, s );
   openRead( c, *g, fn );
   int ns = (int) d.syms.size();
   // expected sequences; index 0 is the universe
   auto expOf = [&]( int sy, int &dim, int &type, int &user ) {
      int n = sy;
      while( n > 0 && d.syms[n - 1].aliasOf >= 0 ) n = d.syms[n - 1].aliasOf;
      std::vector<Rec> e;
      if( n == 0 )
      {
         dim = 1;
         type = GMS_DT_SET;
         user = 0;
         for( size_t u = 1; u <= d.uels.size(); u++ ) e.push_back( { { (int) u }, {} } );
         return e;
      }
      const Sym &y = d.syms[n - 1];
      dim = y.dim;
      type = y.type;
      user = y.user;
      e = y.recs;
      if( dim == 0 && e.empty() ) e.push_back( { {}, defaultRec( type, user ) } );
      for( auto &r: e )
         for( auto &x: r.v ) x = canonical( x );
      return e;
   };
   int reads = s.range( 1, 12 );
   for( int q2 = 0; q2 < reads + ns + 1; q2++ )
   {
      bool full = q2 >= reads;
      int sy = full ? q2 - reads : s.range( 0, ns );
      int dim, type, user;
      auto e = expOf( sy, dim, type, user );
      int nv = nvals( type );
      auto fdOf = [&]( size_t i ) {
         for( int k = 0; k < dim; k++ )
            if( !i || e[i].k[k] != e[i - 1].k[k] ) return k + 1;
         return 0;
      };
      for( int itf = full ? 0 : s.range( 0, 4 );; itf++ )
      {
         size_t stop = full ? e.size() : (size_t) s.range( 0, (int) e.size() );
         int n = -5;
         std::string where = "symbol " + std::to_string( sy ) + " interface " + std::to_string( itf ) + ": ";
         if( itf == 0 || itf == 1 || itf == 2 )
         {
            int r;
            if( itf == 0 ) r = g->gdxDataReadStrStart( sy, n );
            else if( itf == 1 )
               r = g->gdxDataReadRawStart( sy, n );
            else
            {
               int fa[MAXDIM];
               for( int &x: fa ) x = -2;// any label
               r = g->gdxDataReadFilteredStart( sy, fa, n );
            }
            c.check( r == 1, where, "does not start" );
            c.check( n == (int) e.size(), where, "announces ", n, " records, expected ", e.size() );
            StrKeys sk;
            const bool ownBufs = s.flip();// the caller's buffers need not hold the previous labels
            for( size_t i = 0; i < stop; i++ )
            {
               if( ownBufs )
                  for( auto &b: sk.buf ) std::strcpy( b, "?unset?" );
               V5 v;
               v.fill( -5.5 );
               int k[MAXDIM], fd = -9;
               std::fill( k, k + MAXDIM, -4 );
               r = itf == 0 ? g->gdxDataReadStr( sk.p, v.data(), fd ) : ( itf == 1 ? g->gdxDataReadRaw( k, v.data(), fd ) : g->gdxDataReadMap( 0, k, v.data(), fd ) );
               c.check( r == 1, where, "ends after ", i, " of ", e.size(), " records" );
               for( int x = 0; x < dim; x++ )
                  if( itf == 0 )
                     c.check( d.uels[e[i].k[x] - 1] == sk.buf[x], where, "record ", i, " label ", x + 1, " is ", q( sk.buf[x] ), " expected ", q( d.uels[e[i].k[x] - 1] ) );
                  else
                     c.check( k[x] == e[i].k[x], where, "record ", i, " key ", x + 1, " is ", k[x], " expected ", keyStr( e[i].k ) );
               c.check( sameVals( v, e[i].v, nv ), where, "record ", i, " values ", recStr( { e[i].k, v }, nv ), " expected ", recStr( e[i], nv ) );
               c.check( fd == fdOf( i ), where, "record ", i, " first changed position ", fd, " expected ", fdOf( i ) );
            }
            if( stop == e.size() && ( full || s.flip() ) )
            {
               V5 v;
               int k[MAXDIM], fd;
               r = itf == 0 ? g->gdxDataReadStr( sk.p, v.data(), fd ) : ( itf == 1 ? g->gdxDataReadRaw( k, v.data(), fd ) : g->gdxDataReadMap( 0, k, v.data(), fd ) );
               c.check( r == 0, where, "delivers more than ", e.size(), " records" );
            }
            c.check( g->gdxDataReadDone() == 1, where, "done refused" );
         }
         else
         {
            Got gt;
            sink = &gt;
            sinkDim = dim;
            sinkNv = nv;
            sinkStop = -1;
            if( itf == 3 )
            {
               int r = g->gdxDataReadRawFast( sy, fastDP, n );
               c.check( r == 1, where, "callback read failed" );
            }
            else
            {
               sinkStop = stop < e.size() ? (int) stop : -1;
               int r = g->gdxDataReadRawFastEx( sy, fastExDP, n, &gt );
               c.check( r == 1, where, "callback read failed" );
               if( stop < e.size() )
                  c.check( gt.recs.size() == stop + 1, where, "did not stop when asked: ", gt.recs.size(), " deliveries, stop at ", stop + 1 );
            }
            size_t want = itf == 3 || stop >= e.size() ? e.size() : stop + 1;
            c.check( gt.recs.size() == want, where, "delivers ", gt.recs.size(), " records, expected ", want );
            c.check( n == (int) e.size(), where, "announces ", n, " records, expected ", e.size() );
            for( size_t i = 0; i < want; i++ )
            {
               c.check( gt.recs[i].k == e[i].k, where, "record ", i, " keys ", keyStr( gt.recs[i].k ), " expected ", keyStr( e[i].k ) );
               c.check( sameVals( gt.recs[i].v, e[i].v, nv ), where, "record ", i, " values ", recStr( gt.recs[i], nv ), " expected ", recStr( e[i], nv ) );
               if( itf == 4 ) c.check( gt.fdim[i] == fdOf( i ), where, "record ", i, " first changed position ", gt.fdim[i], " expected ", fdOf( i ) );
            }
         }
         if( !full || itf == 4 ) break;
      }
      if( full && e.size() >= 2 && sy > 0 ) c.nontrivial = true;
   }
   c.check( g->gdxErrorCount() == 0, "errors counted while reading" );
   closeOk( c, *g );
   c.desc = p.describe() + std::to_string( reads ) + " partial reads";
}
