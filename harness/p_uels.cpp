// C08 label table, C26 counts and lengths.
#include "model.hpp"
using namespace vp;

namespace
{
struct Tab {
   Doc d;
   std::vector<int> map { -1 };// per entry
   std::map<int, int> byNr;    // user number -> entry
   int high {};
   int add( const std::string &x )
   {
      int n = d.addUel( x );
      while( map.size() < d.uels.size() + 1 ) map.push_back( -1 );
      return n;
   }
   void assign( int e, int nr )
   {
      map[e] = nr;
      byNr[nr] = e;
      high = std::max( high, nr );
   }
   void rename( int e, const std::string &n )
   {
      d.idx.erase( upper( d.uels[e - 1] ) );
      d.uels[e - 1] = n;
      d.idx[upper( n )] = e;
   }
   void forgetUsers()
   {
      map.assign( d.uels.size() + 1, -1 );
      byNr.clear();
      high = 0;
   }
};

void checkEntry( Ctx &c, TGXFileObj &g, Tab &t, int e )
{
   char b[256];
   int m = -9;
   c.check( g.gdxUMUelGet( e, b, m ) == 1, "label number ", e, " is refused" );
   c.check( t.d.uels[e - 1] == b, "label ", e, " is ", q( b ), " expected ", q( t.d.uels[e - 1] ) );
   c.check( m == t.map[e], "label ", e, " ", q( b ), " has user number ", m, " expected ", t.map[e] );
   if( m > 0 )
   {
      c.check( g.gdxGetUEL( m, b ) == 1 && t.d.uels[e - 1] == b, "user number ", m, " gives label ", q( b ), " expected ", q( t.d.uels[e - 1] ) );
   }
}
void checkFind( Ctx &c, TGXFileObj &g, Tab &t, const std::string &lab )
{
   int nr = -9, m = -9;
   int r = g.gdxUMFindUEL( lab.c_str(), nr, m );
   int e = t.d.findUel( trimR( lab ) );
   c.check( r == ( e > 0 ? 1 : 0 ), "finding ", q( lab ), " returns ", r, " although it is ", e > 0 ? "" : "not ", "in the table" );
   c.check( nr == e, "finding ", q( lab ), " gives number ", nr, " expected ", e );
   c.check( m == ( e > 0 ? t.map[e] : -1 ), "finding ", q( lab ), " gives user number ", m );
}
void checkTab( Ctx &c, TGXFileObj &g, Tab &t )
{
   int sc, uc, hi;
   c.check( g.gdxSystemInfo( sc, uc ) == 1 && uc == (int) t.d.uels.size(), "label count ", uc, " expected ", t.d.uels.size() );
   c.check( g.gdxUMUelInfo( uc, hi ) == 1 && uc == (int) t.d.uels.size() && hi == t.high, "label count ", uc, " highest user number ", hi, " expected ", t.d.uels.size(), " ", t.high );
   size_t longest {};
   for( size_t i = 0; i < t.d.uels.size(); i++ )
   {
      checkEntry( c, g, t, (int) i + 1 );
      longest = std::max( longest, t.d.uels[i].size() );
   }
   for( auto &u: t.d.uels )
   {
      checkFind( c, g, t, u );
   }
   c.check( g.gdxUELMaxLength() == (int) longest, "longest label has ", g.gdxUELMaxLength(), " characters, expected ", longest );
   char b[256];
   int m;
   c.check( g.gdxUMUelGet( (int) t.d.uels.size() + 1, b, m ) == 0 && m == -1, "label number beyond the table is accepted" );
   c.check( g.gdxUMUelGet( 0, b, m ) == 0 && m == -1, "label number 0 is accepted" );
   c.check( g.gdxGetUEL( t.high + 1, b ) == 0, "unused user number is accepted" );
}
}// namespace

VP_PROP( C08, labels, "a history with at least three kinds of table operation, at least one refused or repeated registration and at least five labels", 30000, 1000000 )
{
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.flip() );
   Tab t;
   std::set<int> kinds;
   bool refused {};
   int nsym = 0;
   bool writing = true;
   int sessions = s.range( 1, 3 );
   std::vector<std::string> symName;
   std::vector<std::vector<int>> symRecs;// label numbers used by each symbol
   auto label = [&]() -> std::string {
      switch( s.weighted( { 5, 4, 3, 3 } ) )
      {
         case 0: return "u" + std::to_string( s.range( 0, 40 ) );
         case 1: return genUelAny( s );
         case 2: return t.d.uels.empty() ? "x" : recase( s, s.pick( t.d.uels ) );
         default: return t.d.uels.empty() ? "x" : s.pick( t.d.uels ) + std::string( s.range( 0, 2 ), ' ' );
      }
   };
   for( int sess = 0; sess < sessions; sess++ )
   {
      int ops = s.range( 1, 14 );
      for( int op = 0; op < ops; op++ )
      {
         int kind = s.weighted( { writing ? 4 : 0, 4, 5, 4, 4, writing ? 3 : 0, 1 } );
         kinds.insert( kind );
         int n = s.chance( 1, 60 ) ? s.range( 500, 6000 ) : s.range( 1, 8 );
         int base = n > 8 ? s.range( 0, 3 ) * 2500 : 0;
         switch( kind )
         {
            case 0:
            case 1:
            case 2:
            {
               c.check( ( kind == 0 ? g->gdxUELRegisterRawStart() : ( kind == 1 ? g->gdxUELRegisterStrStart() : g->gdxUELRegisterMapStart() ) ) == 1, "registration start" );
               int nr0 = t.high + 1;
               for( int i = 0; i < n; i++ )
               {
                  std::string lab = n > 8 ? "Bulk" + std::to_string( base + i ) : label();
                  std::string tr = trimR( lab );
                  bool ok = goodUel( tr );
                  int e = t.d.findUel( tr );
                  if( e > 0 ) refused = true;
                  if( kind == 0 )
                  {
                     int r = g->gdxUELRegisterRaw( lab.c_str() );
                     c.check( r == ( ok ? 1 : 0 ), "registering ", q( lab ), " returns ", r );
                     if( ok ) t.add( tr );
                  }
                  else if( kind == 1 )
                  {
                     int nr = -9;
                     int r = g->gdxUELRegisterStr( lab.c_str(), nr );
                     c.check( r == ( ok ? 1 : 0 ), "registering ", q( lab ), " returns ", r );
                     if( ok )
                     {
                        e = t.add( tr );
                        int want = t.map[e] > 0 ? t.map[e] : t.high + 1;
                        c.check( nr == want, "label ", q( lab ), " registered under user number ", nr, " expected ", want );
                        t.assign( e, want );
                     }
                  }
                  else
                  {
                     int nr = n > 8 ? nr0 + i * 2 : ( s.flip() ? s.range( 1, 40 ) : t.high + s.range( 1, 50 ) );
                     if( n <= 8 && s.chance( 1, 10 ) ) nr = -s.range( 1, 4 );
                     if( n <= 8 && s.chance( 1, 40 ) ) nr = s.range( 1000, 300000 );
                     auto it = t.byNr.find( nr );
                     bool good = ok && nr > 0 && ( it == t.byNr.end() || it->second == e ) && ( e < 0 || t.map[e] < 0 || t.map[e] == nr );
                     int r = g->gdxUELRegisterMap( nr, lab.c_str() );
                     c.check( r == ( good ? 1 : 0 ), "registering ", q( lab ), " under user number ", nr, " returns ", r );
                     if( good ) t.assign( t.add( tr ), nr );
                     else
                        refused = true;
                  }
                  if( !ok ) refused = true;
                  g->gdxGetLastError();
               }
               c.check( g->gdxUELRegisterDone() == 1, "registration done" );
               break;
            }
            case 3:
            {
               for( int i = 0; i < std::min( n, 8 ); i++ ) checkFind( c, *g, t, label() );
               break;
            }
            case 4:
            {
               std::string from = label(), to = label();
               int e = t.d.findUel( trimR( from ) );
               bool good = goodUel( trimR( to ) ) && e > 0 && t.d.findUel( trimR( to ) ) < 0;
               int r = g->gdxRenameUEL( from.c_str(), to.c_str() );
               c.check( ( r == 0 ) == good, "renaming ", q( from ), " to ", q( to ), " returns ", r, good ? " although it is possible" : " although it is not possible" );
               if( good ) t.rename( e, trimR( to ) );
               else
                  refused = true;
               g->gdxGetLastError();
               break;
            }
            case 5:
            {// labels that come in with data
               std::string nm = "s" + std::to_string( nsym++ );
               c.check( g->gdxDataWriteStrStart( nm.c_str(), "", 1, GMS_DT_PAR, 0 ) == 1, "start" );
               std::set<int> used;
               V5 v { 1.0 };
               for( int i = 0; i < std::min( n, 8 ); i++ )
               {
                  std::string lab = label();
                  std::string tr = trimR( lab );
                  bool ok = goodUel( tr );
                  const char *k[1] = { lab.c_str() };
                  int e = t.d.findUel( tr );
                  if( ok && e > 0 && used.count( e ) ) continue;
                  int r = g->gdxDataWriteStr( k, v.data() );
                  c.check( r == ( ok ? 1 : 0 ), "writing a record with label ", q( lab ), " returns ", r );
                  if( ok ) used.insert( t.add( tr ) );
                  g->gdxGetLastError();
               }
               c.check( g->gdxDataWriteDone() == 1, "done" );
               symName.push_back( nm );
               symRecs.push_back( std::vector<int>( used.begin(), used.end() ) );
               break;
            }
            default: checkTab( c, *g, t );
         }
      }
      checkTab( c, *g, t );
      if( writing )
      {
         closeOk( c, *g );
         writing = false;
      }
      else
      {// what a reader adds or renames is not stored
         closeOk( c, *g );
      }
      static thread_local Doc stored;
      if( sess == 0 ) stored = t.d;
      t.d = stored;
      t.forgetUsers();
      openRead( c, *g, fn );
      checkTab( c, *g, t );
      // the universe and the data show the same labels
      auto u = readStr( c, *g, 0, 1, GMS_DT_SET );
      c.check( u.size() == t.d.uels.size(), "the universe has ", u.size(), " elements, expected ", t.d.uels.size() );
      for( size_t i = 0; i < u.size(); i++ ) c.check( u[i].k[0] == t.d.uels[i], "element ", i + 1, " of the universe is ", q( u[i].k[0] ), " expected ", q( t.d.uels[i] ) );
      for( size_t y = 0; y < symRecs.size(); y++ )
      {
         auto r = readStr( c, *g, (int) y + 1, 1, GMS_DT_PAR );
         c.check( r.size() == symRecs[y].size(), "symbol ", y + 1, " has ", r.size(), " records" );
         for( size_t i = 0; i < r.size(); i++ ) c.check( r[i].k[0] == t.d.uels[symRecs[y][i] - 1], "record label ", q( r[i].k[0] ) );
      }
   }
   closeOk( c, *g );
   c.nontrivial = kinds.size() >= 3 && refused && t.d.uels.size() >= 5;
   c.label( "labels", t.d.uels.size() );
   c.label( "large table", t.d.uels.size() > 500 );
   c.desc = std::to_string( t.d.uels.size() ) + " labels, " + std::to_string( kinds.size() ) + " kinds of operation";
}

VP_PROP( C08, writing, "labels renamed while data that uses them are written by strings, with at least three records", 8000, 300000 )
{
   // every string written stands for the label of that name at that moment
   Doc d;
   const std::string fn = c.path( "w.gdx" );
   auto g = mk();
   openWrite( c, *g, fn, s.range( 0, 1 ) );
   const std::vector<std::string> names { "a", "b", "cc", "A1", "dd ee", "f" };
   int renames {}, total {};
   std::vector<std::map<Key, double>> data;
   std::vector<int> dims;
   auto rename = [&] {
      const std::string from = recase( s, s.pick( names ) ), to = s.pick( names );
      const int e = d.findUel( from ), x = d.findUel( to );
      const int r = g->gdxRenameUEL( from.c_str(), to.c_str() );
      c.log( "rename ", from, " to ", to, " = ", r );
      c.check( ( r == 0 ) == ( e > 0 && x <= 0 ), "renaming ", q( from ), " to ", q( to ), " returns ", r );
      if( r ) return;
      d.idx.erase( upper( d.uels[e - 1] ) );
      d.uels[e - 1] = to;
      d.idx[upper( to )] = e;
      renames++;
   };
   for( int y = s.range( 1, 3 ); y > 0; y-- )
   {
      const int dim = s.range( 1, 3 );
      dims.push_back( dim );
      data.emplace_back();
      const std::string nm = "s" + std::to_string( data.size() );
      if( s.chance( 1, 3 ) ) rename();
      c.check( g->gdxDataWriteStrStart( nm.c_str(), "", dim, GMS_DT_PAR, 0 ) == 1, "start" );
      const int pool = s.range( 1, (int) names.size() ) - 1;
      for( int n = s.range( 1, 10 ); n > 0; n-- )
      {
         if( s.chance( 1, 3 ) ) rename();
         std::vector<std::string> ks;
         const char *kp[MAXDIM] {};
         for( int i = 0; i < dim; i++ ) ks.push_back( s.chance( 1, 4 ) ? recase( s, names[s.range( 0, pool )] ) : names[s.range( 0, pool )] );
         Key k( dim );
         for( int i = 0; i < dim; i++ )
         {
            kp[i] = ks[i].c_str();
            int e = d.findUel( ks[i] );
            k[i] = e > 0 ? e : d.addUel( ks[i] );
         }
         double v[5] { double( ++total ) };
         c.log( "write ", keyStr( k ), " ", ks[0] );
         c.check( g->gdxDataWriteStr( kp, v ) == 1, "write" );
         data.back().emplace( k, v[0] );
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      if( s.chance( 1, 3 ) ) rename();
   }
   g->gdxErrorCount();
   c.check( g->gdxClose() == 0, "close" );
   openRead( c, *g, fn );
   int sc, uc;
   g->gdxSystemInfo( sc, uc );
   c.check( uc == (int) d.uels.size(), "file has ", uc, " labels, expected ", d.uels.size() );
   for( int e = 1; e <= uc; e++ )
   {
      char b[256];
      int m;
      g->gdxUMUelGet( e, b, m );
      c.check( d.uels[e - 1] == b, "label ", e, " is ", q( b ), " expected ", q( d.uels[e - 1] ) );
   }
   for( size_t y = 0; y < data.size(); y++ )
   {
      auto rs = readRaw( c, *g, (int) y + 1, dims[y], GMS_DT_PAR );
      c.check( rs.size() == data[y].size(), "symbol ", y + 1, " has ", rs.size(), " records, expected ", data[y].size() );
      for( auto &r: rs )
      {
         auto it = data[y].find( Key( r.k.begin(), r.k.begin() + dims[y] ) );
         c.check( it != data[y].end() && it->second == r.v[0], "symbol ", y + 1, " record ", keyStr( r.k ), " = ", r.v[0] );
      }
   }
   c.nontrivial = renames > 0 && total >= 3;
   c.desc = std::to_string( renames ) + " renames, " + std::to_string( total ) + " records";
}

// ------------------------------------------------------------------ C26
VP_PROP( C26, counts, "a document with at least one symbol of dimension two or more holding records, measured while written and after reopening", 60000, 600000 )
{
   GenOpt o;
   o.maxSyms = 5;
   o.rich = true;
   o.big = s.chance( 1, 20 );
   o.maxRecs = 120;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, w.compr );
   auto totals = [&]( TGXFileObj &h, bool uelsComplete ) {
      int sc, uc, hi;
      c.check( h.gdxSystemInfo( sc, uc ) == 1, "SystemInfo" );
      c.check( sc == (int) d.syms.size(), "symbol count ", sc, " expected ", d.syms.size() );
      size_t ln {};
      for( auto &y: d.syms ) ln = std::max( ln, y.name.size() );
      c.check( h.gdxSymbMaxLength() == (int) ln, "longest symbol name ", h.gdxSymbMaxLength(), " expected ", ln );
      if( !uelsComplete ) return;
      c.check( uc == (int) d.uels.size(), "label count ", uc, " expected ", d.uels.size() );
      int uc2;
      h.gdxUMUelInfo( uc2, hi );
      c.check( uc2 == uc, "label counts differ: ", uc, " and ", uc2 );
      size_t lu {};
      for( auto &u: d.uels ) lu = std::max( lu, u.size() );
      c.check( h.gdxUELMaxLength() == (int) lu, "longest label ", h.gdxUELMaxLength(), " expected ", lu );
   };
   totals( *g, true );
   writePlan( c, s, *g, p, w, d );
   totals( *g, true );
   closeOk( c, *g );
   openRead( c, *g, fn );
   totals( *g, true );
   checkMeta( c, *g, d );
   const size_t inFile = d.uels.size();// labels of the file; a read session can add others to the table
   int high = 0;
   std::map<int, int> umap;// label -> user number
   auto grow = [&] {
      auto fresh = [&]( std::string &n ) {
         n = "+" + std::string( s.chance( 1, 3 ) ? s.range( 0, 62 ) : s.range( 0, 6 ), s.chance( 1, 2 ) ? 'n' : 'm' );
         return d.findUel( n ) < 0;
      };
      std::string n;
      bool isNew = fresh( n );
      int e = isNew ? 0 : d.findUel( n );
      if( s.flip() && d.uels.size() && !isNew ) e = s.range( 1, (int) d.uels.size() ), n = d.uels[e - 1];
      switch( s.weighted( { 4, 3, 2 } ) )
      {
         case 0:
         {
            int nr = -1;
            c.check( g->gdxUELRegisterStrStart() == 1, "register start" );
            c.check( g->gdxUELRegisterStr( n.c_str(), nr ) == 1, "register ", q( n ) );
            c.check( g->gdxUELRegisterDone() == 1, "register done" );
            if( !e ) e = d.addUel( n );
            if( !umap.count( e ) ) umap[e] = ++high;
            c.check( nr == umap[e], "registered label has number ", nr, " expected ", umap[e] );
            break;
         }
         case 1:
         {
            if( e && umap.count( e ) ) break;
            int nr = high + s.range( 1, 5 );
            c.check( g->gdxUELRegisterMapStart() == 1, "register start" );
            c.check( g->gdxUELRegisterMap( nr, n.c_str() ) == 1, "register ", q( n ), " as ", nr );
            c.check( g->gdxUELRegisterDone() == 1, "register done" );
            if( !e ) e = d.addUel( n );
            umap[e] = high = nr;
            break;
         }
         default:
            if( !isNew || d.uels.empty() ) break;
            e = s.range( 1, (int) d.uels.size() );
            c.check( g->gdxRenameUEL( d.uels[e - 1].c_str(), n.c_str() ) == 0, "renaming ", q( d.uels[e - 1] ), " to ", q( n ) );
            d.idx.erase( upper( d.uels[e - 1] ) );
            d.uels[e - 1] = n;
            d.idx[upper( n )] = e;
      }
      int uc, hi;
      c.check( g->gdxUMUelInfo( uc, hi ) == 1 && hi == high, "highest user number ", hi, " expected ", high );
      totals( *g, true );
      c.label( "grown while reading", 1 );
   };
   bool growing = s.flip();
   int order = s.range( 0, 2 );
   for( int i = 0; i <= (int) d.syms.size(); i++ )
   {
      if( growing )
         for( int k = s.range( 0, 3 ); k > 0; k-- ) grow();
      int y = order == 1 ? (int) d.syms.size() - i : i;
      int target = y, dim = y ? d.syms[y - 1].dim : 1;
      while( target > 0 && d.syms[target - 1].aliasOf >= 0 ) target = d.syms[target - 1].aliasOf;
      int len[MAXDIM], want[MAXDIM] {}, best {};
      for( auto &x: len ) x = -3;
      if( target == 0 )
         for( size_t u = 0; u < inFile; u++ ) want[0] = std::max( want[0], (int) d.uels[u].size() );
      else
         for( auto &r: d.syms[target - 1].recs )
            for( int k = 0; k < dim; k++ ) want[k] = std::max( want[k], (int) d.uels[r.k[k] - 1].size() );
      for( int k = 0; k < dim; k++ ) best = std::max( best, want[k] );
      int r = g->gdxSymbIndxMaxLength( y, len );
      c.check( r == best, "longest label of symbol ", y, " is ", r, " expected ", best );
      for( int k = 0; k < MAXDIM; k++ ) c.check( len[k] == ( k < dim ? want[k] : 0 ), "longest label of symbol ", y, " position ", k + 1, " is ", len[k], " expected ", k < dim ? want[k] : 0 );
      if( target && d.syms[target - 1].dim >= 2 && d.syms[target - 1].recs.size() >= 2 ) c.nontrivial = true;
      if( order == 2 )
      {
         int rc, ui;
         char ex[256];
         g->gdxSymbolInfoX( y, rc, ui, ex );
         if( y == 0 ) c.check( rc == (int) inFile, "the universe has ", rc, " records, the file has ", inFile, " labels" );
         int n;
         auto rr = readRaw( c, *g, y, dim, y ? d.syms[y - 1].type : GMS_DT_SET, &n );
         c.check( (int) rr.size() == n, "announced ", n, " records, delivered ", rr.size() );
         if( y == 0 || d.syms[y - 1].aliasOf < 0 ) c.check( rc == n, "symbol ", y, " has ", rc, " records, reading announces ", n );
      }
   }
   int bad[MAXDIM];
   c.check( g->gdxSymbIndxMaxLength( (int) d.syms.size() + 1, bad ) == 0, "length of a missing symbol" );
   totals( *g, true );
   closeOk( c, *g );
   c.desc = p.describe();
}
