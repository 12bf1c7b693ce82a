// C02: all write interfaces store the same data; order does not matter; duplicates; refused raw records.
#include "model.hpp"
#include <climits>
using namespace vp;

namespace
{
struct ErrRec {
   Key k;
   V5 v;
};
// error list of the symbol just written
std::vector<ErrRec> errorList( Ctx &c, TGXFileObj &g, int dim )
{
   std::vector<ErrRec> r;
   int n = g.gdxDataErrorCount();
   for( int i = 1; i <= n; i++ )
   {
      int k[MAXDIM];
      ErrRec e;
      e.v.fill( -1 );
      c.check( g.gdxDataErrorRecord( i, k, e.v.data() ) == 1, "error record ", i, " of ", n, " cannot be read" );
      e.k.assign( k, k + dim );
      r.push_back( e );
   }
   return r;
}
constexpr int ERRLIST_CAP = 11;

void compareErrs( Ctx &c, const std::vector<ErrRec> &got, const std::vector<Rec> &want, int nv, const std::string &what )
{
   c.check( (int) got.size() == std::min<int>( (int) want.size(), ERRLIST_CAP ), what, ": ", got.size(), " error records, expected ", want.size(), " (at most ", ERRLIST_CAP, " kept)" );
   std::vector<bool> used( want.size() );
   for( auto &e: got )
   {
      bool ok {};
      for( size_t i = 0; i < want.size() && !ok; i++ )
         if( !used[i] && want[i].k == e.k && sameVals( want[i].v, e.v, nv ) ) ok = used[i] = true;
      c.check( ok, what, ": error record ", recStr( { e.k, e.v }, nv ), " is not one of the refused records" );
   }
}
}// namespace

VP_PROP( C02, interfaces, "the same plan with at least two records in one symbol was written through three or more different interfaces/orders and all files read back equal to the model", 1500, 60000 )
{
   GenOpt o;
   o.maxSyms = 3;
   o.rich = true;
   o.maxRecs = 150;
   Plan p = genPlan( s, o );
   WriteCfg w;
   w.compr = s.range( 0, 1 );
   w.regMode = s.range( 1, 2 );
   if( w.regMode == 2 )
   {
      int n = (int) p.pool.size(), base = s.range( 1, 20 ), k = s.range( 0, 2 );
      for( int i = 0; i < n; i++ ) w.umap.push_back( k == 0 ? base + i : ( k == 1 ? base + 3 * i : base + n - i ) );
   }
   for( int v = 0; v < 5; v++ )
   {
      std::string fn = c.path( "v" + std::to_string( v ) + ".gdx" );
      Doc d;
      auto g = mkUsed( c, s );
      openWrite( c, *g, fn, w.compr );
      WriteCfg wv = w;
      wv.mode.clear();
      static const int modes[] = { W_STR, W_MAP, W_RAW, W_RAWB, W_STR };
      for( size_t i = 0; i < p.syms.size(); i++ ) wv.mode.push_back( modes[v] );
      wv.shuffle = v == 1 || v == 4;
      writePlan( c, s, *g, p, wv, d );
      closeOk( c, *g );
      openRead( c, *g, fn );
      checkMeta( c, *g, d );
      checkData( c, *g, d );
      closeOk( c, *g );
   }
   for( auto &y: p.syms )
      if( y.recs.size() >= 2 ) c.nontrivial = true;
   c.desc = p.describe();
}

VP_PROP( C02, firstuse, "labels not registered beforehand: at least two records in string mode, numbered by first use, with case variants of labels", 4000, 150000 )
{
   // string writing without registration: labels get numbers in order of first use
   std::string fn = c.path( "a.gdx" );
   Doc d;
   std::vector<std::string> pool = genPool( s, s.weighted( { 6, 2 } ) );
   int ns = s.range( 1, 3 );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.range( 0, 1 ) );
   size_t tot {};
   for( int i = 0; i < ns; i++ )
   {
      Sym y;
      y.name = "s" + std::to_string( i );
      y.dim = s.weighted( { 0, 3, 3, 2, 1 } );
      if( s.chance( 1, 20 ) ) y.dim = s.range( 5, 20 );
      y.type = s.range( 1, 3 );
      if( y.dim == 0 ) y.dim = 1;
      int n = s.size( 60 );
      c.check( g->gdxDataWriteStrStart( y.name.c_str(), "", y.dim, y.type, 0 ) == 1, "start" );
      std::map<Key, V5> m;
      std::vector<Rec> dups;
      for( int r = 0; r < n; r++ )
      {
         std::vector<std::string> ks;
         const char *kp[MAXDIM];
         Key k;
         for( int x = 0; x < y.dim; x++ )
         {
            std::string l = pool[s.range( 0, std::min<int>( (int) pool.size() - 1, 15 ) )];
            if( s.chance( 1, 3 ) ) l = recase( s, l );
            std::string given = l;
            if( s.chance( 1, 6 ) ) given += std::string( s.range( 1, 3 ), ' ' );
            ks.push_back( given );
            k.push_back( d.addUel( trimR( l ) ) );
         }
         for( int x = 0; x < y.dim; x++ ) kp[x] = ks[x].c_str();
         V5 v {};
         for( int x = 0; x < nvals( y.type ); x++ ) v[x] = s.range( 0, 1000 );
         c.check( g->gdxDataWriteStr( kp, v.data() ) == 1, "record refused" );
         if( !m.emplace( k, v ).second ) dups.push_back( { k, v } );
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      compareErrs( c, errorList( c, *g, y.dim ), dups, nvals( y.type ), "string write" );
      y.errors = (int) dups.size();
      for( auto &[k, v]: m ) y.recs.push_back( { k, v } );
      tot += y.recs.size();
      d.syms.push_back( y );
   }
   closeOk( c, *g );
   openRead( c, *g, fn );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   closeOk( c, *g );
   c.nontrivial = tot >= 2;
   c.desc = std::to_string( ns ) + " symbols, " + std::to_string( tot ) + " records, " + std::to_string( d.uels.size() ) + " labels by first use";
}

VP_PROP( C02, duplicates, "a sorted-mode symbol received at least one duplicate key", 6000, 200000 )
{
   GenOpt o;
   o.maxRecs = 200;
   int regime = s.weighted( { 6, 3, 1 } );
   Plan p;
   p.pool = genPool( s, regime );
   WriteCfg w;
   w.compr = s.range( 0, 1 );
   w.regMode = s.range( 1, 2 );
   int P = (int) p.pool.size();
   if( w.regMode == 2 )
   {
      int base = s.range( 1, 20 ), k = s.range( 0, 2 );
      for( int i = 0; i < P; i++ ) w.umap.push_back( k == 0 ? base + i : ( k == 1 ? base + 3 * i : base + P - i ) );
   }
   Doc d;
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   registerPool( c, *g, p, w, d );
   int ns = s.range( 1, 3 );
   int total {};
   int errBefore = g->gdxErrorCount();
   for( int i = 0; i < ns; i++ )
   {
      Sym y;
      y.name = "s" + std::to_string( i );
      y.type = s.range( 1, 3 );
      y.dim = s.chance( 1, 10 ) ? s.range( 1, 20 ) : s.range( 1, 4 );
      int nv = nvals( y.type );
      auto recs = genRecs( s, y.dim, y.type, P, regime, o, 0 );
      // multiset: repeat some keys with other values, then shuffle
      std::vector<Rec> all = recs;
      if( !recs.empty() )
      {
         int nd = s.weighted( { 2, 3, 1 } );
         nd = nd == 0 ? 0 : ( nd == 1 ? s.range( 1, 6 ) : s.range( 1, 40 ) );
         for( int x = 0; x < nd; x++ )
         {
            Rec r = s.pick( recs );
            for( int f = 0; f < nv; f++ ) r.v[f] = s.range( 0, 100000 );
            all.push_back( r );
         }
         uint64_t st = s.bits32();
         if( st % 4 )
            for( size_t x = all.size(); x > 1; x-- ) std::swap( all[x - 1], all[splitmix( st ) % x] );
      }
      bool str = s.flip();
      c.check( ( str ? g->gdxDataWriteStrStart( y.name.c_str(), "", y.dim, y.type, 0 ) : g->gdxDataWriteMapStart( y.name.c_str(), "", y.dim, y.type, 0 ) ) == 1, "start" );
      std::map<Key, V5> m;
      std::vector<Rec> dups;
      for( auto &r: all )
      {
         const char *kp[MAXDIM];
         int ik[MAXDIM];
         for( int x = 0; x < y.dim; x++ )
         {
            kp[x] = p.pool[r.k[x] - 1].c_str();
            ik[x] = w.regMode == 2 ? w.umap[r.k[x] - 1] : r.k[x];
         }
         c.check( ( str ? g->gdxDataWriteStr( kp, r.v.data() ) : g->gdxDataWriteMap( ik, r.v.data() ) ) == 1, "valid record refused" );
         if( !m.emplace( r.k, r.v ).second ) dups.push_back( r );
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      compareErrs( c, errorList( c, *g, y.dim ), dups, nv, str ? "string write" : "mapped write" );
      total += (int) dups.size();
      c.check( g->gdxErrorCount() - errBefore == total, "total error count rose by ", g->gdxErrorCount() - errBefore, " for ", total, " duplicates" );
      for( auto &[k, v]: m ) y.recs.push_back( { k, v } );
      y.errors = (int) dups.size();
      d.syms.push_back( y );
   }
   int cl = g->gdxClose();
   c.check( cl == 0, "close returned ", cl );
   openRead( c, *g, fn );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   closeOk( c, *g );
   c.nontrivial = total > 0;
   c.label( "duplicates", total );
   c.desc = std::to_string( ns ) + " symbols, " + std::to_string( total ) + " duplicates, " + std::to_string( P ) + " labels";
}

VP_PROP( C02, rawrefusal, "label-number writing with at least one repeated or backward key (refused) and at least two accepted records", 6000, 200000 )
{
   Doc d;
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.range( 0, 1 ) );
   // a few known labels; label numbers beyond the table are legal in raw mode
   int P = s.range( 0, 30 );
   c.check( g->gdxUELRegisterRawStart() == 1, "reg" );
   for( int i = 0; i < P; i++ )
   {
      std::string l = "u" + std::to_string( i );
      c.check( g->gdxUELRegisterRaw( l.c_str() ) == 1, "reg" );
      d.addUel( l );
   }
   c.check( g->gdxUELRegisterDone() == 1, "reg" );
   int ns = s.range( 1, 3 ), refused {}, accepted {};
   for( int i = 0; i < ns; i++ )
   {
      Sym y;
      y.name = "r" + std::to_string( i );
      y.dim = s.chance( 1, 10 ) ? s.range( 0, 20 ) : s.range( 1, 4 );
      y.type = s.range( 1, 3 );
      int nv = nvals( y.type );
      bool bounds = s.flip();
      int lo = s.range( 1, 5 ), span = s.weighted( { 4, 2, 2, 1 } );
      span = span == 0 ? s.range( 1, 10 ) : ( span == 1 ? s.range( 253, 258 ) : ( span == 2 ? s.range( 65533, 65538 ) : 1000000000 ) );
      if( s.chance( 1, 6 ) ) lo = INT_MAX - span + 1 - ( s.flip() ? 0 : s.range( 0, 300 ) );// the largest numbers there are
      int mn[MAXDIM], mx[MAXDIM];
      for( int k = 0; k < y.dim; k++ ) { mn[k] = lo; mx[k] = lo + span - 1; }
      c.check( ( bounds ? g->gdxDataWriteRawStartKeyBounds( y.name.c_str(), "", y.dim, y.type, 0, mn, mx ) : g->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, 0 ) ) == 1, "raw start" );
      int n = s.size( 80 );
      Key last;
      bool have {};
      std::vector<Rec> bad;
      for( int r = 0; r < n; r++ )
      {
         Key k( y.dim );
         int st = !have ? 0 : s.weighted( { 2, 4, 2, 1 } );
         bool outside = y.dim && s.chance( 1, 10 );
         if( st == 0 )
            for( auto &x: k ) x = s.range( lo, lo + span - 1 );
         else
         {
            k = last;
            if( st == 1 && y.dim )
            {
               int pdim = y.dim - 1 - s.range( 0, y.dim - 1 );
               k[pdim] = std::min<int64_t>( (int64_t) k[pdim] + s.range( 1, 300 ), lo + span - 1 );
               for( int x = pdim + 1; x < y.dim; x++ ) k[x] = s.range( lo, lo + span - 1 );
            }
            else if( st == 2 && y.dim )
            {
               int pdim = s.range( 0, y.dim - 1 );
               k[pdim] = std::max( lo, k[pdim] - s.range( 0, 2 ) );
            }
         }
         if( outside )// a key the symbol's storage has no room for
         {
            int p = s.range( 0, y.dim - 1 );
            const int64_t above = (int64_t) lo + span - 1 + ( s.flip() ? 1 : s.range( 1, 70000 ) );
            if( bounds ) k[p] = s.flip() || above > INT_MAX ? lo - s.range( 1, 3 ) : (int) above;
            else k[p] = -s.range( 1, 300 );
         }
         V5 v {};
         for( int x = 0; x < nv; x++ ) v[x] = s.range( 0, 1000 );
         bool ok = !outside && ( !have || last < k );
         int got = g->gdxDataWriteRaw( k.data(), v.data() );
         c.check( got == ( ok ? 1 : 0 ), "raw record ", keyStr( k ), " after ", keyStr( last ), ( ok ? " refused" : " accepted" ) );
         if( ok )
         {
            last = k;
            have = true;
            y.recs.push_back( { k, v } );
            accepted++;
         }
         else
         {
            if( !outside ) bad.push_back( { k, v } );
            refused++;
            c.check( g->gdxGetLastError() != 0, "no error code after a refused record" );
         }
         c.check( g->gdxErrorCount() == refused, "error count ", g->gdxErrorCount(), " expected ", refused );
      }
      c.check( g->gdxDataWriteDone() == 1, "raw done" );
      compareErrs( c, errorList( c, *g, y.dim ), bad, nv, "raw write" );
      d.syms.push_back( y );
   }
   g->gdxClose();
   openRead( c, *g, fn );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   closeOk( c, *g );
   c.nontrivial = refused > 0 && accepted >= 2;
   c.label( "refused", refused );
   c.desc = std::to_string( ns ) + " symbols, accepted " + std::to_string( accepted ) + ", refused " + std::to_string( refused );
}
