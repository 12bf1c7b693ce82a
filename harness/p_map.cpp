// C05: mapped and filtered reads against a model of user space, filters and error list.
#include "model.hpp"
using namespace vp;

namespace
{
constexpr int UNMAPPED = -2, EXPAND = -1, STRICT = 0;
struct User {
   std::vector<int> map;// label number -> user number (index 0 unused), -1 unmapped
   int high {};
   std::map<int, std::set<int>> filters;
};
}// namespace

VP_PROP( C05, filtered, "a filtered or mapped read with at least one mapped position delivered at least one record and left at least one out, or delivered at least two through a map that reorders labels", 25000, 300000 )
{
   GenOpt o;
   o.maxSyms = 3;
   o.rich = true;
   o.big = s.chance( 1, 40 );
   o.maxRecs = 100;
   o.allowEmptyLabel = true;
   Plan p = genPlan( s, o );
   if( s.chance( 3, 4 ) && p.pool.size() > 14 && p.regime == 1 )
   {// small pools make interesting filters
      Plan p2 = genPlan( s, o );
      (void) p2;
   }
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   writePlan( c, s, *g, p, w, d );
   closeOk( c, *g );
   openRead( c, *g, fn );
   const int fileUels = (int) d.uels.size();
   std::vector<std::string> labs = d.uels;
   Doc t;// label table as it grows while reading
   for( auto &x: d.uels ) t.addUel( x );
   User u;
   u.map.assign( labs.size() + 1, -1 );
   int ns = (int) d.syms.size();
   int ops = s.range( 2, 14 );
   bool left {}, deliver {}, reorder {};
   std::string hist;
   for( int op = 0; op < ops; op++ )
   {
      int kind = s.weighted( { 6, 3, 3, 1 } );
      if( op == 0 ) kind = s.weighted( { 1, 4, 0, 0 } );
      if( kind == 1 || kind == 3 )
      {// register labels into user space
         bool str = s.chance( 1, 3 );
         c.check( ( str ? g->gdxUELRegisterStrStart() : g->gdxUELRegisterMapStart() ) == 1, "registration start" );
         int n = s.size( std::max( 3, std::min( fileUels, 60 ) ) );
         int style = s.range( 0, 3 );// 0: in label order growing, 1 random numbers, 2 descending, 3 gaps
         int nextE = 1;
         int nextNr = u.high + s.range( 1, 5 ) + ( style == 2 ? 100 : 0 );
         for( int i = 0; i < n; i++ )
         {
            std::string lab;
            int e = 0;
            if( fileUels == 0 || s.chance( 1, 10 ) ) lab = "new" + std::to_string( s.range( 0, 30 ) );
            else
            {
               e = style == 0 && nextE <= fileUels ? nextE++ : s.range( 1, fileUels );
               if( style == 3 ) nextE += s.range( 0, 2 );
               lab = d.uels[e - 1];
            }
            int nr = style == 1 ? s.range( 1, 300 ) : ( style == 2 ? nextNr - i : nextNr );
            if( style != 2 && style != 1 ) nextNr += style == 3 ? s.range( 1, 3 ) : 1;
            int ent = t.findUel( lab );
            int cur = ent > 0 ? u.map[ent] : -1;
            if( str )
            {
               int got = -9;
               c.check( g->gdxUELRegisterStr( lab.c_str(), got ) == 1, "string registration refused" );
               int want = cur > 0 ? cur : u.high + 1;
               c.check( got == want, "label ", q( lab ), " registered as ", got, " expected ", want );
               nr = want;
            }
            else
            {
               if( nr < 1 ) continue;
               bool taken = false;
               for( size_t x = 1; x < u.map.size(); x++ ) taken = taken || ( u.map[x] == nr && (int) x != ent );
               bool ok = !taken && ( cur < 0 || cur == nr );
               int r = g->gdxUELRegisterMap( nr, lab.c_str() );
               c.check( r == ( ok ? 1 : 0 ), "registering ", q( lab ), " as ", nr, " gives ", r );
               if( !ok ) continue;
            }
            if( ent < 0 )
            {
               ent = t.addUel( lab );
               u.map.push_back( -1 );
            }
            u.map[ent] = nr;
            u.high = std::max( u.high, nr );
         }
         c.check( g->gdxUELRegisterDone() == 1, "registration done" );
      }
      else if( kind == 2 )
      {
         int fnr = s.range( 1, 4 );
         c.check( g->gdxFilterRegisterStart( fnr ) == 1, "filter start" );
         std::set<int> f;
         int density = s.range( 0, 3 );
         std::vector<int> all;
         for( size_t e = 1; e < u.map.size(); e++ )
            if( u.map[e] > 0 ) all.push_back( u.map[e] );
         if( s.flip() ) std::sort( all.begin(), all.end() );
         for( int nr: all )
            if( s.range( 0, 3 ) <= density && f.size() < 500 )
            {
               c.check( g->gdxFilterRegister( nr ) == 1, "filter element ", nr, " refused" );
               f.insert( nr );
            }
         if( s.chance( 1, 5 ) )
         {// not a user number
            int nr = s.flip() ? u.high + s.range( 1, 5 ) : -s.range( 0, 2 );
            c.check( g->gdxFilterRegister( nr ) == 0, "filter accepts ", nr, " which is not a user number" );
         }
         c.check( g->gdxFilterRegisterDone() == 1, "filter done" );
         u.filters[fnr] = f;
         for( int x = 1; x <= 5; x++ ) c.check( g->gdxFilterExists( x ) == ( u.filters.count( x ) ? 1 : 0 ), "existence of filter ", x );
      }
      else
      {// read
         int sy = s.range( 0, ns );
         int n0 = sy;
         while( n0 > 0 && d.syms[n0 - 1].aliasOf >= 0 ) n0 = d.syms[n0 - 1].aliasOf;
         int dim, type;
         std::vector<Rec> recs;
         if( n0 == 0 )
         {
            dim = 1;
            type = 0;
            for( int e = 1; e <= fileUels; e++ ) recs.push_back( { { e }, {} } );
         }
         else
         {
            const Sym &y = d.syms[n0 - 1];
            dim = y.dim;
            type = y.type;
            recs = y.recs;
            if( dim == 0 && recs.empty() ) recs.push_back( { {}, defaultRec( y.type, y.user ) } );
         }
         int nv = nvals( type );
         int act[MAXDIM];
         std::fill( act, act + MAXDIM, STRICT );
         bool plain = s.chance( 1, 4 );
         int style = s.range( 0, 4 );
         for( int k = 0; k < dim && !plain; k++ )
         {
            int a = style == 0 ? s.range( 0, 3 ) : style - 1;
            if( a == 3 && u.filters.empty() ) a = 1;
            act[k] = a == 0 ? UNMAPPED : ( a == 1 ? STRICT : ( a == 2 ? EXPAND : 0 ) );
            if( a == 3 )
            {
               auto it = u.filters.begin();
               std::advance( it, s.range( 0, (int) u.filters.size() - 1 ) );
               act[k] = it->first;
            }
         }
         // model: records in file order; new labels get numbers as accepted records mention them
         struct Out {
            Key k;
            V5 v;
         };
         std::vector<Out> exp;
         std::vector<const Rec *> bad;
         std::vector<std::vector<bool>> badPos;
         for( auto &r: recs )
         {
            std::vector<bool> bp( dim );
            bool fail = false;
            for( int k = 0; k < dim; k++ )
            {
               int m = u.map[r.k[k]];
               if( act[k] == STRICT ) bp[k] = m < 0;
               else if( act[k] > 0 )
                  bp[k] = m < 0 || !u.filters[act[k]].count( m );
               fail = fail || bp[k];
            }
            if( fail )
            {
               bad.push_back( &r );
               badPos.push_back( bp );
               continue;
            }
            Out q2;
            q2.v = r.v;
            for( auto &x: q2.v ) x = canonical( x );
            for( int k = 0; k < dim; k++ )
            {
               int e = r.k[k];
               if( act[k] == UNMAPPED ) q2.k.push_back( e );
               else
               {
                  if( act[k] == EXPAND && u.map[e] < 0 ) u.map[e] = ++u.high;
                  q2.k.push_back( u.map[e] );
               }
            }
            exp.push_back( q2 );
         }
         for( size_t i = 1; i < exp.size(); i++ )
            if( exp[i].k < exp[i - 1].k ) reorder = true;
         std::stable_sort( exp.begin(), exp.end(), []( const Out &a, const Out &b ) { return a.k < b.k; } );
         int n = -5;
         int r = plain ? g->gdxDataReadMapStart( sy, n ) : g->gdxDataReadFilteredStart( sy, act, n );
         c.check( r == 1, "filtered read refused" );
         c.check( n >= (int) exp.size() && n <= (int) recs.size(), "announced maximum ", n, " for ", exp.size(), " selected of ", recs.size(), " records" );
         std::string where = "read of symbol " + std::to_string( sy ) + " actions";
         for( int k = 0; k < dim; k++ ) where += " " + std::to_string( act[k] );
         where += ": ";
         bool sameBuf = s.flip();
         int k[MAXDIM];
         std::fill( k, k + MAXDIM, -4 );
         for( size_t i = 0; i < exp.size(); i++ )
         {
            if( !sameBuf ) std::fill( k, k + MAXDIM, -4 );
            V5 v;
            v.fill( -5.5 );
            int fd = -9;
            c.check( g->gdxDataReadMap( 0, k, v.data(), fd ) == 1, where, "ends after ", i, " records, expected ", exp.size() );
            Key kk( k, k + dim );
            c.check( kk == exp[i].k, where, "record ", i, " keys ", keyStr( kk ), " expected ", keyStr( exp[i].k ) );
            c.check( sameVals( v, exp[i].v, nv ), where, "record ", i, " values ", recStr( { kk, v }, nv ), " expected ", recStr( { exp[i].k, exp[i].v }, nv ) );
            int wantFd = 0;
            for( int x = 0; x < dim && !wantFd; x++ )
               if( !i || exp[i].k[x] != exp[i - 1].k[x] ) wantFd = x + 1;
            c.check( fd == wantFd, where, "record ", i, " first changed position ", fd, " expected ", wantFd );
         }
         {
            V5 v;
            int fd;
            c.check( g->gdxDataReadMap( 0, k, v.data(), fd ) == 0, where, "delivers more than the ", exp.size(), " selected records" );
         }
         // error list
         int en = g->gdxDataErrorCount();
         c.check( en <= (int) bad.size() && en <= 11, where, en, " error records for ", bad.size(), " left out" );
         c.check( bad.empty() || en > 0, where, "no error record although ", bad.size(), " records were left out" );
         std::vector<Key> ekeys;
         for( int i = 1; i <= en; i++ )
         {
            int ek[MAXDIM], ek2[MAXDIM];
            V5 ev, ev2;
            c.check( g->gdxDataErrorRecordX( i, ek, ev.data() ) == 1 && g->gdxDataErrorRecord( i, ek2, ev2.data() ) == 1, where, "error record ", i );
            Key kk( ek, ek + dim );
            bool ok = false;
            for( size_t b = 0; b < bad.size() && !ok; b++ )
            {
               bool m = true, neg = false;
               for( int x = 0; x < dim; x++ )
               {
                  m = m && std::abs( kk[x] ) == bad[b]->k[x] && ek2[x] == bad[b]->k[x];
                  if( kk[x] < 0 ) { m = m && badPos[b][x]; neg = true; }
               }
               V5 bv = bad[b]->v;
               for( auto &x: bv ) x = canonical( x );
               ok = m && neg && sameVals( ev, bv, nv ) && sameVals( ev2, bv, nv );
            }
            c.check( ok, where, "error record ", i, " ", keyStr( kk ), " is not a record that was left out" );
            ekeys.push_back( kk );
         }
         if( en < 11 )
            for( size_t b = 0; b < bad.size(); b++ )
            {
               bool covered = false;
               for( auto &ek: ekeys )
                  for( int x = 0; x < dim; x++ ) covered = covered || ( ek[x] < 0 && -ek[x] == bad[b]->k[x] && badPos[b][x] );
               c.check( covered, where, "no error record names an offending label of the left out record ", keyStr( bad[b]->k ) );
            }
         int ek[MAXDIM];
         double ev[5];
         c.check( g->gdxDataErrorRecord( en + 1, ek, ev ) == 0, where, "error record beyond the last" );
         c.check( g->gdxDataReadDone() == 1, "read done" );
         // expanded labels are in user space now
         for( int e = 1; e <= fileUels && e <= 300; e++ )
         {
            char b[256];
            int m = -8;
            c.check( g->gdxUMUelGet( e, b, m ) == 1 && m == u.map[e], where, "label ", e, " has user number ", m, " expected ", u.map[e] );
         }
         if( !bad.empty() ) left = true;
         if( !exp.empty() && dim ) deliver = true;
         c.label( "reads" );
         c.label( "records delivered", exp.size() );
         c.label( "records left out", bad.size() );
         hist += " r" + std::to_string( exp.size() ) + "/" + std::to_string( recs.size() );
      }
   }
   closeOk( c, *g );
   c.nontrivial = ( left && deliver ) || ( reorder && deliver );
   c.desc = p.describe() + hist;
}
