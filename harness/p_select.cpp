// C04: slices, label-filtered reads and domain elements.
#include "model.hpp"
using namespace vp;

namespace
{
std::vector<Rec> *got {};
int gotDim {}, gotNv {}, gotStop { -1 };
void sliceDP( const int *k, const double *v )
{
   Rec r;
   r.k.assign( k, k + gotDim );
   for( int i = 0; i < gotNv; i++ ) r.v[i] = v[i];
   got->push_back( r );
}
int filtDP( const int *k, const double *v, void *u )
{
   sliceDP( k, v );
   (void) u;
   return gotStop < 0 || (int) got->size() <= gotStop;
}
struct DomGot {
   std::vector<std::pair<int, int>> e;
};
void domDP( int raw, int mapped, void *u ) { ( (DomGot *) u )->e.emplace_back( raw, mapped ); }

struct View {
   int dim, type;
   std::vector<Rec> recs;
};
View viewOf( const Doc &d, int sy )
{
   int n = sy;
   while( n > 0 && d.syms[n - 1].aliasOf >= 0 ) n = d.syms[n - 1].aliasOf;
   View v;
   if( n == 0 )
   {
      v.dim = 1;
      v.type = 0;
      for( size_t u = 1; u <= d.uels.size(); u++ ) v.recs.push_back( { { (int) u }, {} } );
      return v;
   }
   const Sym &y = d.syms[n - 1];
   v.dim = y.dim;
   v.type = y.type;
   v.recs = y.recs;
   if( y.dim == 0 && v.recs.empty() ) v.recs.push_back( { {}, defaultRec( y.type, y.user ) } );
   for( auto &r: v.recs )
      for( auto &x: r.v ) x = canonical( x );
   return v;
}
}// namespace

VP_PROP( C04, slices, "a slice or label filter with at least one fixed position selected a proper non-empty subset of a symbol's records", 16000, 250000 )
{
   GenOpt o;
   o.maxSyms = 4;
   o.rich = true;
   o.big = s.chance( 1, 25 );
   o.maxRecs = 120;
   Plan p = genPlan( s, o );
   // few labels per position, so that selections hit
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   writePlan( c, s, *g, p, w, d );
   closeOk( c, *g );
   openRead( c, *g, fn );
   int ns = (int) d.syms.size();
   int rounds = s.range( 1, 5 );
   int errs = 0;
   for( int rd = 0; rd < rounds; rd++ )
   {
      int sy = s.range( 0, ns );
      View v = viewOf( d, sy );
      int nv = nvals( v.type );
      // distinct labels per position
      std::vector<std::vector<int>> lab( v.dim );
      for( int k = 0; k < v.dim; k++ )
      {
         std::set<int> st;
         for( auto &r: v.recs ) st.insert( r.k[k] );
         lab[k].assign( st.begin(), st.end() );
      }
      auto genFilter = [&]( std::vector<std::string> &f, std::vector<int> &fix, bool &unknown ) {
         f.assign( v.dim, "" );
         fix.assign( v.dim, 0 );
         unknown = false;
         if( v.recs.empty() && !d.uels.size() ) return;
         // based on an existing record most of the time
         const Rec *base = v.recs.empty() ? nullptr : &s.pick( v.recs );
         for( int k = 0; k < v.dim; k++ )
         {
            int kind = s.weighted( { 4, 5, 2, 1 } );
            if( kind == 0 ) continue;
            int e = kind == 1 && base ? base->k[k] : s.range( 1, (int) d.uels.size() );
            if( kind == 3 && s.chance( 1, 2 ) )
            {
               f[k] = "no such label";
               fix[k] = -1;
               unknown = true;
               continue;
            }
            if( d.uels[e - 1].empty() ) continue;// the empty string means "not fixed"
            f[k] = s.chance( 1, 3 ) ? recase( s, d.uels[e - 1] ) : d.uels[e - 1];
            fix[k] = e;
         }
      };
      auto match = [&]( const Rec &r, const std::vector<int> &fix ) {
         for( int k = 0; k < v.dim; k++ )
            if( fix[k] && fix[k] != r.k[k] ) return false;
         return true;
      };
      if( s.flip() )
      {
         int ec[MAXDIM];
         std::fill( ec, ec + MAXDIM, -3 );
         c.check( g->gdxDataReadSliceStart( sy, ec ) == 1, "slice start failed for symbol ", sy );
         for( int k = 0; k < v.dim; k++ ) c.check( ec[k] == (int) lab[k].size(), "symbol ", sy, " position ", k + 1, ": announced ", ec[k], " distinct labels, there are ", lab[k].size() );
         int reps = s.range( 0, 4 );
         for( int q2 = 0; q2 < reps; q2++ )
         {
            std::vector<std::string> f;
            std::vector<int> fix;
            bool unknown;
            genFilter( f, fix, unknown );
            const char *fp[MAXDIM];
            for( int k = 0; k < v.dim; k++ ) fp[k] = f[k].c_str();
            std::vector<Rec> out;
            got = &out;
            gotNv = nv;
            gotDim = 0;
            std::vector<int> freePos;
            for( int k = 0; k < v.dim; k++ )
               if( f[k].empty() ) freePos.push_back( k );
            gotDim = (int) freePos.size();
            int dm = -4;
            int r = g->gdxDataReadSlice( fp, dm, sliceDP );
            if( unknown )
            {
               c.check( r == 0 && out.empty(), "slice with an unknown label delivers ", out.size(), " records, result ", r );
               continue;
            }
            c.check( r == 1, "slice refused" );
            c.check( dm == gotDim, "slice dimension ", dm, " expected ", gotDim );
            std::vector<const Rec *> exp;
            for( auto &rc: v.recs )
               if( match( rc, fix ) ) exp.push_back( &rc );
            c.check( out.size() == exp.size(), "slice of symbol ", sy, " delivers ", out.size(), " records, expected ", exp.size() );
            StrKeys sk;
            for( size_t i = 0; i < exp.size(); i++ )
            {
               for( int x = 0; x < gotDim; x++ )
               {
                  auto &L = lab[freePos[x]];
                  int want = (int) ( std::lower_bound( L.begin(), L.end(), exp[i]->k[freePos[x]] ) - L.begin() );
                  c.check( out[i].k[x] == want, "slice record ", i, " index ", x, " is ", out[i].k[x], " expected ", want );
               }
               c.check( sameVals( out[i].v, exp[i]->v, nv ), "slice record ", i, " values ", recStr( out[i], nv ), " expected ", recStr( *exp[i], nv ) );
               if( i < 40 )
               {
                  c.check( g->gdxDataSliceUELS( out[i].k.data(), sk.p ) == 1, "labels of a slice record refused" );
                  for( int k = 0; k < v.dim; k++ )
                     c.check( sameCI( d.uels[exp[i]->k[k] - 1], sk.buf[k] ), "slice record ", i, " label ", k + 1, " is ", q( sk.buf[k] ), " expected ", q( d.uels[exp[i]->k[k] - 1] ) );
                  for( int k: freePos )
                     c.check( d.uels[exp[i]->k[k] - 1] == sk.buf[k], "slice record ", i, " label ", k + 1, " is ", q( sk.buf[k] ), " expected ", q( d.uels[exp[i]->k[k] - 1] ) );
               }
            }
            if( gotDim && s.chance( 1, 3 ) )
            {// a number that no label of the position has
               int ix[MAXDIM] {};
               int x = s.range( 0, gotDim - 1 );
               ix[x] = (int) lab[freePos[x]].size() + s.range( 0, 3 );
               c.check( g->gdxDataSliceUELS( ix, sk.p ) == 1, "labels of a slice record refused" );
               c.check( !strcmp( sk.buf[freePos[x]], "?" ), "number ", ix[x], " of ", lab[freePos[x]].size(), " labels of position ", freePos[x] + 1, " gives ", q( sk.buf[freePos[x]] ) );
            }
            if( gotDim < v.dim && !exp.empty() && exp.size() < v.recs.size() ) c.nontrivial = true;
         }
         c.check( g->gdxDataReadDone() == 1, "done" );
      }
      else
      {
         std::vector<std::string> f;
         std::vector<int> fix;
         bool unknown;
         genFilter( f, fix, unknown );
         if( v.dim == 20 )
            f[0] = "", fix[0] = 0;
         const char *fp[MAXDIM];
         unknown = false;
         for( int k = 0; k < v.dim; k++ )
         {
            fp[k] = f[k].c_str();
            unknown |= fix[k] < 0;
         }
         std::vector<Rec> out;
         got = &out;
         gotNv = nv;
         gotDim = v.dim;
         std::vector<const Rec *> exp;
         for( auto &rc: v.recs )
            if( match( rc, fix ) ) exp.push_back( &rc );
         gotStop = s.chance( 1, 4 ) && exp.size() ? s.range( 0, (int) exp.size() - 1 ) : -1;
         int r = g->gdxDataReadRawFastFilt( sy, fp, filtDP );
         if( unknown ) c.check( r == 0 && out.empty(), "filter with an unknown label delivers ", out.size(), " records, result ", r );
         else
         {
            c.check( r == 1, "label-filtered read refused" );
            size_t want = gotStop >= 0 ? std::min<size_t>( exp.size(), gotStop + 1 ) : exp.size();
            c.check( out.size() == want, "label-filtered read of symbol ", sy, " delivers ", out.size(), " records, expected ", want );
            for( size_t i = 0; i < want; i++ )
            {
               c.check( out[i].k == exp[i]->k, "filtered record ", i, " keys ", keyStr( out[i].k ), " expected ", keyStr( exp[i]->k ) );
               c.check( sameVals( out[i].v, exp[i]->v, nv ), "filtered record ", i, " values" );
            }
            bool anyFix = false;
            for( int x: fix ) anyFix |= x > 0;
            if( anyFix && !exp.empty() && exp.size() < v.recs.size() ) c.nontrivial = true;
         }
      }
   }
   c.check( g->gdxErrorCount() == errs, "errors counted: ", g->gdxErrorCount() );
   closeOk( c, *g );
   c.desc = p.describe() + std::to_string( rounds ) + " selections";
}

VP_PROP( C04, domelems, "domain elements of a position with at least two distinct labels, with a user map or a filter in effect", 12000, 200000 )
{
   GenOpt o;
   o.maxSyms = 4;
   o.rich = true;
   o.big = s.chance( 1, 25 );
   o.maxRecs = 120;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   writePlan( c, s, *g, p, w, d );
   closeOk( c, *g );
   openRead( c, *g, fn );
   int U = (int) d.uels.size();
   std::vector<int> umap( U + 1, -1 );// label -> user number
   int high = 0;
   std::set<int> filt;
   bool haveFilt = false;
   if( s.chance( 2, 3 ) && U )
   {
      c.check( g->gdxUELRegisterMapStart() == 1, "map start" );
      int n = s.range( 1, std::min( U, 60 ) );
      std::set<int> usedNr;
      for( int i = 0; i < n; i++ )
      {
         int e = s.range( 1, U );
         if( umap[e] >= 0 ) continue;
         int nr = s.range( 1, 200 );
         if( !usedNr.insert( nr ).second ) continue;
         umap[e] = nr;
         high = std::max( high, nr );
         c.check( g->gdxUELRegisterMap( nr, d.uels[e - 1].c_str() ) == 1, "map" );
      }
      c.check( g->gdxUELRegisterDone() == 1, "map done" );
      if( s.flip() )
      {
         haveFilt = true;
         c.check( g->gdxFilterRegisterStart( 7 ) == 1, "filter" );
         for( int e = 1; e <= U; e++ )
            if( umap[e] > 0 && s.flip() )
            {
               filt.insert( umap[e] );
               c.check( g->gdxFilterRegister( umap[e] ) == 1, "filter element ", umap[e], " refused" );
            }
         c.check( g->gdxFilterRegisterDone() == 1, "filter done" );
      }
   }
   int rounds = s.range( 1, 5 );
   for( int rd = 0; rd < rounds; rd++ )
   {
      if( d.syms.empty() ) break;
      int sy = s.range( 1, (int) d.syms.size() );
      View v = viewOf( d, sy );
      if( v.dim == 0 ) continue;
      int pos = s.range( 1, v.dim );
      bool useF = haveFilt && s.flip();
      bool count = s.chance( 1, 3 );
      std::map<int, std::vector<const Rec *>> by;
      std::set<int> raw;
      std::vector<const Rec *> bad;
      for( auto &r: v.recs )
      {
         int e = r.k[pos - 1];
         if( useF && !( umap[e] > 0 && filt.count( umap[e] ) ) )
            bad.push_back( &r );
         else
            raw.insert( e );
      }
      DomGot dg;
      int n = -3;
      c.check( g->gdxGetDomainElements( sy, pos, useF ? 7 : -1, count ? nullptr : domDP, n, &dg ) == 1, "domain elements refused" );
      c.check( n == (int) raw.size(), "symbol ", sy, " position ", pos, ": ", n, " domain elements, expected ", raw.size() );
      // error list: one entry per offending label at that position (at most 11)
      {
         std::map<int, int> badLabels;
         for( auto *r: bad ) badLabels[r->k[pos - 1]]++;
         int en = g->gdxDataErrorCount();
         c.check( en == std::min<int>( 11, (int) badLabels.size() ), "error list has ", en, " entries, ", badLabels.size(), " labels are outside the filter" );
         for( int i = 1; i <= en; i++ )
         {
            int k[MAXDIM];
            double ev[5];
            c.check( g->gdxDataErrorRecordX( i, k, ev ) == 1, "error record" );
            bool ok = false;
            for( auto *r: bad )
            {
               bool m = true;
               for( int x = 0; x < v.dim; x++ ) m = m && k[x] == ( x == pos - 1 ? -r->k[x] : r->k[x] );
               ok = ok || m;
            }
            c.check( ok, "error record ", i, " is not a record outside the filter" );
         }
      }
      if( !count )
      {
         c.check( dg.e.size() == raw.size(), "callback called ", dg.e.size(), " times for ", raw.size(), " elements" );
         // unmapped labels get new user numbers in label order
         for( int e: raw )
            if( umap[e] < 0 ) umap[e] = ++high;
         std::set<int> seen;
         int last = -1;
         for( auto &[rw, mp]: dg.e )
         {
            c.check( raw.count( rw ) && seen.insert( rw ).second, "label ", rw, " is not a domain element (or reported twice)" );
            c.check( mp == umap[rw], "label ", rw, " reported with user number ", mp, " expected ", umap[rw] );
            c.check( mp > last, "elements not in ascending order of user numbers" );
            last = mp;
         }
      }
      if( raw.size() >= 2 && ( high > 0 || useF ) ) c.nontrivial = true;
   }
   closeOk( c, *g );
   c.desc = p.describe() + ( haveFilt ? "filter" : "" );
}
