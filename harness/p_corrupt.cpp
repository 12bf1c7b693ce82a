// C27 damaged files: whatever bytes of a file are wrong, opening and reading it stays inside the library's own
// memory, returns, throws nothing, depends on nothing but the bytes of the file, and leaves the object usable.
#include "codec.hpp"
#include "tooldoc.hpp"
using namespace vp;

namespace
{
struct Dig {
   uint64_t h { 1469598103934665603ull };
   std::string log;// what went in, for the comparison of two runs
   void num( int64_t v )
   {
      log += std::to_string( v );
      log += ' ';
   }
   void str( const char *x )
   {
      log += '"';
      log += x;
      log += "\" ";
   }
   void dbl( double v )
   {
      if( v == 0 ) v = 0;
      num( (int64_t) bitsOf( v ) );
   }
   void rec( const int *k, int dim, const double *v, int nv )
   {
      for( int i = 0; i < dim; i++ ) num( k[i] );
      for( int i = 0; i < nv; i++ ) dbl( v[i] );
      log += "; ";
   }
};
Dig *cur;
int curDim, curNv;
long left;

void cbPlain( const int *k, const double *v )
{
   cur->rec( k, curDim, v, curNv );
}
int cbEx( const int *k, const double *v, int, void * )
{
   cur->rec( k, curDim, v, curNv );
   return left-- > 0;
}
int cbFilt( const int *k, const double *v, void * )
{
   cur->rec( k, curDim, v, curNv );
   return 1;
}
void cbIdx( int a, int b, void * )
{
   cur->num( a );
   cur->num( b );
}
}// namespace

// What is read, and how: drawn once, done twice.
struct Step {
   int sy, how, act[MAXDIM], pick[MAXDIM], pos, reg;
};

// numbers of a symbol's records, and the target of an alias
static int target( TGXFileObj &g, int sy, int &dim, int &type )
{
   char x[256];
   for( int n = 0; n < 200; n++ )
   {
      if( sy == 0 )
      {
         dim = 1;
         type = GMS_DT_SET;
         return 0;
      }
      if( !g.gdxSymbolInfo( sy, x, dim, type ) ) return -1;
      if( type != GMS_DT_ALIAS ) return sy;
      int a, u;
      g.gdxSymbolInfoX( sy, a, u, x );
      sy = u;
   }
   return -1;
}

static void readAll( Ctx &c, TGXFileObj &g, const std::vector<Step> &steps, Dig &q )
{
   cur = &q;
   int ns = 0, nu = 0, a = 0, b = 0, d = 0, t = 0;
   char x[256], y[256], z[256];
   q.num( g.gdxSystemInfo( ns, nu ) );
   q.num( ns );
   q.num( nu );
   c.check( ns >= 0 && nu >= 0, "counts ", ns, " ", nu );
   g.gdxFileVersion( x, y );
   q.str( x );
   q.str( y );
   g.gdxFileInfo( a, b );
   q.num( a );
   q.num( b );
   q.num( g.gdxUELMaxLength() );
   q.num( g.gdxSymbMaxLength() );
   g.gdxUMUelInfo( a, b );
   q.num( a );
   q.num( b );
   int nac = g.gdxAcronymCount();
   q.num( nac );
   for( int i = -1; i <= std::min( nac, 50 ) + 1; i++ )
   {
      if( g.gdxAcronymGetInfo( i, x, y, a ) )
      {
         q.str( x );
         q.str( y );
         q.num( a );
      }
      if( g.gdxAcronymGetMapping( i, a, b, d ) )
      {
         q.num( a );
         q.num( b );
         q.num( d );
      }
   }
   std::vector<std::string> lab;
   for( int i = -1; i <= std::min( nu, 300 ) + 1; i++ )
   {
      if( g.gdxUMUelGet( i, x, a ) )
      {
         lab.push_back( x );
         q.str( x );
         q.num( a );
      }
      g.gdxGetUEL( i, x );
      int n1 = 0, n2 = 0;
      if( i > 0 && i < 20 && !lab.empty() && g.gdxUMFindUEL( lab.back().c_str(), n1, n2 ) ) q.num( n1 );
   }
   if( lab.empty() ) lab.push_back( "a" );
   for( int i = -1; i < 60; i++ )
      if( g.gdxGetElemText( i, x, a ) )
      {
         q.str( x );
         q.num( a );
      }
   for( int sy = -1; sy <= std::min( ns, 60 ) + 1; sy++ )
   {
      if( !g.gdxSymbolInfo( sy, x, d, t ) ) continue;
      c.check( d >= 0 && d <= MAXDIM && t >= 0 && t <= GMS_DT_ALIAS, "symbol ", sy, " reported with dimension ", d, ", type ", t );
      q.str( x );
      q.num( d );
      q.num( t );
      if( g.gdxSymbolInfoX( sy, a, b, y ) )
      {
         q.num( a );
         q.num( b );
         q.str( y );
      }
      q.num( g.gdxSymbolDim( sy ) );
      q.num( g.gdxSetHasText( sy ) );
      int doms[MAXDIM] {};
      StrKeys sk;
      if( g.gdxSymbolGetDomain( sy, doms ) )
         for( int i = 0; i < d; i++ )
         {
            c.check( doms[i] >= 0 && doms[i] <= ns, "symbol ", sy, " reported with the domain ", doms[i], " of ", ns, " symbols" );
            q.num( doms[i] );
         }
      if( g.gdxSymbolGetDomainX( sy, sk.p ) )
         for( int i = 0; i < d; i++ ) q.str( sk.p[i] );
      for( int i = 0; i < 4; i++ )
         if( g.gdxSymbolGetComment( sy, i, z ) ) q.str( z );
      if( g.gdxFindSymbol( x, a ) ) q.num( a );
   }
   for( auto &st: steps )
   {
      int sy = ns ? st.sy % ( std::min( ns, 60 ) + 1 ) : 0, n = 0, dim = 0, fd = 0;
      if( !g.gdxSymbolInfo( sy, x, dim, t ) ) continue;
      int rdim = 0, rtype = 0;
      if( target( g, sy, rdim, rtype ) < 0 ) continue;
      int keys[MAXDIM] {};
      double v[GMS_VAL_MAX] {};
      int nv = nvals( rtype );
      curDim = rdim;
      curNv = nv;
      StrKeys sk;
      left = 20000;
      int cap = 20000;
      q.log += "\n";
      q.num( st.how );
      switch( st.how )
      {
         case 0:
            if( g.gdxDataReadRawStart( sy, n ) )
            {
               q.num( n );
               while( cap-- && g.gdxDataReadRaw( keys, v, fd ) ) q.rec( keys, rdim, v, nv );
               g.gdxDataReadDone();
            }
            break;
         case 1:
            if( g.gdxDataReadStrStart( sy, n ) )
            {
               while( cap-- && g.gdxDataReadStr( sk.p, v, fd ) )
               {
                  q.rec( keys, 0, v, nv );
                  for( int i = 0; i < rdim; i++ ) q.str( sk.p[i] );
               }
               g.gdxDataReadDone();
            }
            break;
         case 2:
         case 3:
            if( st.how == 2 ? g.gdxDataReadMapStart( sy, n ) : g.gdxDataReadFilteredStart( sy, st.act, n ) )
            {
               q.num( n );
               while( cap-- && g.gdxDataReadMap( 0, keys, v, fd ) ) q.rec( keys, rdim, v, nv );
               g.gdxDataReadDone();
               int e = g.gdxDataErrorCount();
               q.num( e );
               for( int i = 0; i <= std::min( e, 12 ) + 1; i++ )
               {
                  if( g.gdxDataErrorRecord( i, keys, v ) ) q.rec( keys, rdim, v, nv );
                  if( g.gdxDataErrorRecordX( i, keys, v ) ) q.rec( keys, rdim, v, nv );
               }
            }
            break;
         case 4: {
            // a slice counts label numbers in a table as long as the largest of them: not with absurd numbers
            bool small = true;
            if( g.gdxDataReadRawStart( sy, n ) )
            {
               while( cap-- && small && g.gdxDataReadRaw( keys, v, fd ) )
                  for( int i = 0; i < rdim; i++ )
                     if( keys[i] > 2000000 ) small = false;
               if( cap <= 0 ) small = false;
               g.gdxDataReadDone();
            }
            int ec[MAXDIM] {};
            if( small && g.gdxDataReadSliceStart( sy, ec ) )
            {
               for( int i = 0; i < rdim; i++ ) q.num( ec[i] );
               const char *f[MAXDIM];
               curDim = 0;
               for( int i = 0; i < MAXDIM; i++ )
               {
                  f[i] = st.pick[i] % 2 ? "" : lab[st.pick[i] / 2 % lab.size()].c_str();
                  if( i < rdim && !*f[i] ) curDim++;
               }
               int sd = 0;
               q.num( g.gdxDataReadSlice( f, sd, cbPlain ) );
               int k1[MAXDIM];
               for( int i = 0; i < MAXDIM; i++ ) k1[i] = st.pick[i] % 7 - 1;
               if( g.gdxDataSliceUELS( k1, sk.p ) )
                  for( int i = 0; i < rdim; i++ ) q.str( sk.p[i] );
               g.gdxDataReadDone();
            }
            break;
         }
         case 5: q.num( g.gdxDataReadRawFast( sy, cbPlain, n ) ); break;
         case 6: q.num( g.gdxDataReadRawFastEx( sy, cbEx, n, nullptr ) ); break;
         case 7: {
            const char *f[MAXDIM];
            for( int i = 0; i < MAXDIM; i++ ) f[i] = st.pick[i] % 2 ? "" : lab[st.pick[i] / 2 % lab.size()].c_str();
            g.gdxDataReadRawFastFilt( sy, f, (gdx::TDataStoreFiltProc_t) cbFilt );
            break;
         }
         case 8: {
            int li[MAXDIM] {};
            q.num( g.gdxSymbIndxMaxLength( sy, li ) );
            for( int i = 0; i < rdim; i++ ) q.num( li[i] );
            break;
         }
         case 9:
            n = 0;
            if( dim > 0 && g.gdxGetDomainElements( sy, 1 + st.pos % dim, st.act[0] == 1 ? 1 : -1, st.pos % 2 ? cbIdx : nullptr, n, nullptr ) ) q.num( n );
            break;
         case 10:
            if( g.gdxUELRegisterMapStart() )
            {
               for( int i = 0; i < 3; i++ ) q.num( g.gdxUELRegisterMap( 1 + st.pick[i] % 9, lab[st.pick[i] / 2 % lab.size()].c_str() ) );
               g.gdxUELRegisterDone();
            }
            if( g.gdxFilterRegisterStart( 1 ) )
            {
               for( int i = 3; i < 6; i++ ) q.num( g.gdxFilterRegister( 1 + st.pick[i] % 9 ) );
               g.gdxFilterRegisterDone();
            }
            break;
      }
   }
}

static const char *region( const std::string &b, size_t at )
{
   static const char *m[] = { "_SYMB_", "_UEL_", "_SETT_", "_ACRO_", "_DOMS_", "_DATA_" };
   static const char *n[] = { "symbol table", "label table", "text table", "acronym table", "domain table", "data" };
   size_t best = 0;
   const char *r = "header";
   for( int i = 0; i < 6; i++ )
   {
      size_t p = b.rfind( m[i], at );
      if( p != std::string::npos && p >= best )
      {
         best = p;
         r = n[i];
      }
   }
   return r;
}

static std::string damage( Ctx &c, Src &s, const std::string &full, std::string &what )
{
   static const char *mark[] = { "_SYMB_", "_UEL_", "_SETT_", "_ACRO_", "_DOMS_", "_DATA_", "_DATA_", "_SYMB_" };
   std::string b = full;
   int k = s.weighted( { 6, 2, 1 } ), n = k == 0 ? 1 : ( k == 1 ? 2 : s.range( 3, 8 ) );
   for( int i = 0; i < n; i++ )
   {
      size_t at;
      switch( s.weighted( { 3, 4, 1 } ) )
      {
         case 1: {// close behind one of the marks
            std::vector<size_t> ps;
            const char *m = mark[s.range( 0, 7 )];
            for( size_t p = full.find( m ); p != std::string::npos; p = full.find( m, p + 1 ) ) ps.push_back( p );
            if( ps.empty() ) at = s.range( 0, (int) b.size() - 1 );
            else
               at = std::min( b.size() - 1, ps[s.range( 0, (int) ps.size() - 1 )] + s.range( 0, s.flip() ? 40 : 150 ) );
            break;
         }
         case 2: at = s.range( 0, 120 ); break;
         default: at = s.range( 0, (int) b.size() - 1 ); break;
      }
      if( at >= b.size() ) at = b.size() - 1;
      c.label( std::string( "wrong byte in the " ) + region( full, at ) );
      what += " " + std::to_string( at );
      switch( s.range( 0, 4 ) )
      {
         case 0: b[at] = char( b[at] ^ ( 1 << s.range( 0, 7 ) ) ); break;
         case 1: b[at] = char( s.range( 0, 255 ) ); break;
         case 2: {
            if( at + 4 > b.size() ) break;
            static const int vals[] = { 0, -1, 1, 2, 3, 4, 5, 20, 21, 255, 256, 65536, 0x7fffffff, (int) 0x80000000, 1000000, -2 };
            int v = vals[s.range( 0, 15 )];
            std::memcpy( &b[at], &v, 4 );
            what += "..";
            break;
         }
         case 3: b[at] = s.flip() ? char( 255 ) : char( 0 ); break;
         case 4: {// the file ends here, or lacks or repeats some bytes
            int l = s.range( 1, 9 );
            switch( s.range( 0, 2 ) )
            {
               case 0: b.erase( at ); break;
               case 1: b.erase( at, l ); break;
               default: b.insert( at, b.substr( at, l ) ); break;
            }
            what += "!";
            if( b.empty() ) b = "x";
            break;
         }
      }
   }
   return b;
}

VP_PROP( C27, damaged, "the damaged file was accepted and its content read in some way", 16000, 1000000 )
{
   GenOpt o;
   o.rich = true;
   o.maxRecs = 30;
   o.big = false;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   bool old = s.chance( 1, 4 );
   w.compr = old ? 0 : s.chance( 1, 6 );
   std::string good = c.path( "g.gdx" ), bad = c.path( "b.gdx" );
   Doc d;
   {
      auto g = mk();
      openWrite( c, *g, good, w.compr );
      writePlan( c, s, *g, p, w, d );
      if( s.chance( 1, 3 ) )
      {
         g->gdxAcronymAdd( "acr1", "text", 1 );
         g->gdxAcronymAdd( "acr2", "", 5 );
      }
      closeOk( c, *g );
   }
   std::string full = slurpFile( good ), base = full, what;
   if( old )
   {// another byte order or an older version of the layout
      FileDoc f = decodeFile( full );
      EncCfg e;
      bool wide = false;
      for( auto &y: d.syms ) wide |= y.dim > 10;
      e.version = wide ? 7 : 7 - s.range( 0, 2 );
      e.swapW = e.swapI = e.swapD = s.flip();
      e.rnd = s.bits32();
      e.audit = f.audit;
      e.producer = f.producer;
      e.symCompr.assign( d.syms.size(), false );
      base = encodeFile( f, e );
      c.label( "older or foreign layout" );
   }
   std::string b = damage( c, s, base, what );
   spitFile( bad, b );
   c.desc = "bytes" + what + " of " + std::to_string( base.size() );
   std::vector<Step> steps( s.range( 1, 6 ) );
   for( auto &t: steps )
   {
      t.sy = s.range( 0, 7 );
      t.how = s.range( 0, 10 );
      static const int acts[] = { -2, -1, 0, 1 };
      for( auto &q: t.act ) q = acts[s.range( 0, 3 )];
      for( auto &q: t.pick ) q = s.range( 0, 99 );
      t.pos = s.range( 0, 19 );
   }
   int mode = s.chance( 1, 6 );
   auto h = mk();
   int err = 0, err2 = 0;
   Dig q1, q2;
   int ok = mode ? h->gdxOpenReadEx( bad.c_str(), 1, err ) : h->gdxOpenRead( bad.c_str(), err );
   c.check( ok == ( err == 0 ), "open returned ", ok, " with error ", err );
   if( ok )
   {
      c.nontrivial = true;
      c.label( "accepted" );
      for( auto &t: steps ) c.label( "read in way " + std::to_string( t.how ) );
      readAll( c, *h, steps, q1 );
      h->gdxClose();
   }
   c.check( slurpFile( bad ) == b, "reading changed the file" );
   // an object with a history sees the same
   auto h2 = mkUsed( c, s );
   int ok2 = mode ? h2->gdxOpenReadEx( bad.c_str(), 1, err2 ) : h2->gdxOpenRead( bad.c_str(), err2 );
   c.check( ok == ok2 && err == err2, "a damaged file is ", ok ? "accepted" : "rejected", " (", err, ") at first and ", ok2 ? "accepted" : "rejected", " (", err2, ") by another object" );
   if( ok2 )
   {
      readAll( c, *h2, steps, q2 );
      h2->gdxClose();
      if( q1.log != q2.log )
      {
         size_t i = 0;
         while( i < q1.log.size() && i < q2.log.size() && q1.log[i] == q2.log[i] ) i++;
         size_t f = i > 120 ? i - 120 : 0;
         c.fail( "two objects read different things from the same bytes: ...", q1.log.substr( f, 200 ), "  and  ...", q2.log.substr( f, 200 ) );
      }
   }
   // both objects are as good as new
   auto &u = s.flip() ? h : h2;
   c.check( u->gdxOpenRead( good.c_str(), err ) == 1 && err == 0, "a good file is rejected after a damaged one, error ", err );
   checkMeta( c, *u, d );
   checkData( c, *u, d );
   closeOk( c, *u );
}

// The tools read damaged files as well: they end by themselves, whatever they are asked to do with them.
VP_PROP( C27, tools, "a tool was given a damaged file", 1600, 60000 )
{
   GenOpt o;
   o.rich = true;
   o.maxRecs = 20;
   o.big = false;
   Plan p = genPlan( s, o );
   WriteCfg w = genWriteCfg( s, p );
   w.compr = s.chance( 1, 6 );
   std::string good = c.path( "g.gdx" ), bad = c.path( "b.gdx" ), what;
   Doc d;
   {
      auto g = mk();
      openWrite( c, *g, good, w.compr );
      writePlan( c, s, *g, p, w, d );
      if( s.chance( 1, 3 ) )
      {
         g->gdxAcronymAdd( "acr1", "text", 1 );
         g->gdxAcronymAdd( "acr2", "", 5 );
      }
      closeOk( c, *g );
   }
   std::string b = damage( c, s, slurpFile( good ), what );
   spitFile( bad, b );
   std::string name = d.syms.empty() ? "x" : s.pick( d.syms ).name;
   Run r {};
   switch( s.range( 0, 2 ) )
   {
      case 0: {
         std::vector<std::string> a { "b.gdx" };
         static const char *opt[] = { "-V", "NoHeader", "NoData", "Symbols", "DomainInfo", "SymbolsAsSet", "SymbolsAsSetDI", "SetText", "UelTable=u", "Format=gamsbas", "FilterDef=N", "dFormat=hexBytes" };
         if( s.chance( 1, 3 ) )
         {
            a.push_back( "Symb=" + name );
            if( s.flip() ) a.push_back( "Format=csv" );
            if( s.flip() ) a.push_back( "CDim=Y" );
            if( s.flip() ) a.push_back( "CSVSetText" );
            if( s.flip() ) a.push_back( "CSVAllFields" );
         }
         else if( s.flip() )
            a.push_back( opt[s.range( 0, 11 )] );
         for( auto &x: a ) c.desc += x + " ";
         r = runTool( c, "gdxdump", a );
         break;
      }
      case 1: {
         std::vector<std::string> a { s.flip() ? "b.gdx" : "g.gdx" };
         a.push_back( a[0] == "b.gdx" && s.flip() ? "g.gdx" : "b.gdx" );
         static const char *opt[] = { "DiffOnly", "CmpDefaults", "CmpDomains", "MatrixFile", "IgnoreOrder", "SetDesc=N" };
         if( s.flip() ) a.push_back( opt[s.range( 0, 5 )] );
         for( auto &x: a ) c.desc += x + " ";
         r = runTool( c, "gdxdiff", a );
         break;
      }
      default: {
         std::vector<std::string> a { "b.gdx" };
         if( s.flip() ) a.push_back( "g.gdx" );
         if( s.chance( 1, 3 ) ) std::swap( a.front(), a.back() );
         if( s.chance( 1, 3 ) ) a.push_back( "big=" + std::to_string( s.range( 0, 20 ) ) );
         for( auto &x: a ) c.desc += x + " ";
         r = runTool( c, "gdxmerge", a );
         break;
      }
   }
   c.check( slurpFile( bad ) == b, "the tool changed its input" );
   c.label( r.code ? "refused or different" : "accepted" );
   c.nontrivial = true;
   c.desc += "bytes" + what;
}
