// C09 declarations and texts, C10 domain declarations, C11 domain-checked writing.
#include "model.hpp"
using namespace vp;

// ------------------------------------------------------------------ C09
VP_PROP( C09, declarations, "a history with at least two accepted symbols or aliases, at least one refused declaration and at least one comment or set text", 20000, 600000 )
{
   std::string fn = c.path( "a.gdx" );
   Doc d;
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.flip() );
   c.check( g->gdxUELRegisterMapStart() == 1, "register" );
   for( int i = 1; i <= 9; i++ )
   {
      std::string l = "e" + std::to_string( i );
      c.check( g->gdxUELRegisterMap( i, l.c_str() ) == 1, "register" );
      d.addUel( l );
   }
   c.check( g->gdxUELRegisterDone() == 1, "register" );
   std::set<std::string> acr;
   std::vector<int> nodes { 0 };
   int cur = -1, curMode = 0, lastKey = 0;
   bool began {};
   int accepted {}, refusedDecl {}, extras {};
   auto nameOk = [&]( const std::string &n ) { return goodIdent( n ) && d.findSym( n ) < 0 && !acr.count( upper( n ) ); };
   auto anyName = [&]() -> std::string {
      switch( s.weighted( { 5, 3, 2, 1 } ) )
      {
         case 0: return "n" + std::to_string( s.range( 0, 9 ) );
         case 1: return genIdentAny( s );
         case 2: return d.syms.empty() ? "q" : recase( s, s.pick( d.syms ).name );
         default: return genIdent( s );
      }
   };
   auto refusedCheck = [&]( int errBefore, const char *what ) {
      c.check( g->gdxErrorCount() > errBefore, what, " was refused without counting an error" );
      c.check( g->gdxGetLastError() != 0, what, " was refused without an error code" );
   };
   auto checkSym = [&]( TGXFileObj &h, int n, bool open ) {
      char b[256];
      int dim = -9, ty = -9, rc = -9, ui = -9;
      const Sym &y = d.syms[n - 1];
      c.check( h.gdxSymbolInfo( n, b, dim, ty ) == 1 && y.name == b && dim == y.dim && ty == y.type, "symbol ", n, ": ", q( b ), " dim ", dim, " type ", ty, ", expected ", q( y.name ), " ", y.dim, " ", y.type );
      c.check( h.gdxSymbolInfoX( n, rc, ui, b ) == 1 && ui == y.user && y.expl == b, "symbol ", n, " has user info ", ui, " text ", q( b ), ", expected ", y.user, " ", q( y.expl ) );
      if( !open ) c.check( rc == ( y.dim == 0 ? 1 : (int) y.recs.size() ), "symbol ", n, " has ", rc, " records, expected ", y.recs.size() );
      if( !open ) c.check( ( h.gdxSetHasText( n ) != 0 ) == y.hasText, "symbol ", n, " set text flag" );
      for( size_t k = 0; k < y.comments.size(); k++ ) c.check( h.gdxSymbolGetComment( n, (int) k + 1, b ) == 1 && y.comments[k] == b, "comment ", k + 1, " of symbol ", n, " is ", q( b ), " expected ", q( y.comments[k] ) );
      c.check( h.gdxSymbolGetComment( n, (int) y.comments.size() + 1, b ) == 0 && !b[0], "symbol ", n, " has a comment too many" );
      c.check( h.gdxSymbolGetComment( n, 0, b ) == 0, "comment number 0" );
      int nr = -9;
      std::string nm = recase( s, y.name );
      c.check( h.gdxFindSymbol( nm.c_str(), nr ) == 1 && nr == n, "symbol ", q( nm ), " is found as ", nr, " expected ", n );
   };
   auto checkTexts = [&]( TGXFileObj &h, bool withNodes ) {
      char b[256];
      for( size_t i = 0; i < d.texts.size(); i++ )
      {
         int nd = -9;
         c.check( h.gdxGetElemText( (int) i, b, nd ) == 1 && d.texts[i] == b, "set text ", i, " is ", q( b ), " expected ", q( d.texts[i] ) );
         c.check( nd == ( withNodes ? nodes[i] : 0 ), "set text ", i, " has node ", nd, " expected ", withNodes ? nodes[i] : 0 );
      }
      int nd;
      c.check( h.gdxGetElemText( (int) d.texts.size(), b, nd ) == 0, "a set text too many" );
      c.check( h.gdxGetElemText( -1, b, nd ) == 0, "set text -1" );
   };
   auto checkNow = [&]() {
      int sc, uc;
      c.check( g->gdxSystemInfo( sc, uc ) == 1 && sc == (int) d.syms.size(), "symbol count ", sc, " expected ", d.syms.size() );
      for( size_t i = 1; i <= d.syms.size(); i++ ) checkSym( *g, (int) i, (int) i - 1 == cur );
      checkTexts( *g, true );
      char b[256];
      int x, y;
      int bad = s.flip() ? -1 : (int) d.syms.size() + 1;
      c.check( g->gdxSymbolInfo( bad, b, x, y ) == 0 && g->gdxSymbolInfoX( bad, x, y, b ) == 0 && g->gdxSymbolDim( bad ) == -1, "information about a missing symbol" );
      c.check( g->gdxSymbolInfo( 0, b, x, y ) == 1 && !strcmp( b, "*" ) && x == 1 && y == 0 && g->gdxSymbolDim( 0 ) == 1, "information about the universe" );
      std::string nn = anyName();
      int nr = -9;
      int want = d.findSym( nn );
      int r = g->gdxFindSymbol( nn.c_str(), nr );
      c.check( ( r != 0 ) == ( want > 0 ) && ( want < 0 || nr == want ), "symbol ", q( nn ), " is found as ", nr, " (", r, "), expected ", want );
   };
   auto done = [&]() {
      c.check( g->gdxDataWriteDone() == 1, "done" );
      cur = -1;
   };
   int ops = s.range( 3, 30 );
   for( int op = 0; op < ops; op++ )
   {
      int err = g->gdxErrorCount();
      g->gdxGetLastError();
      switch( s.weighted( { 7, cur >= 0 ? 6 : 0, cur >= 0 ? 5 : 0, 4, 4, 2, 4, 2, 1 } ) )
      {
         case 0:
         {
            std::string n = anyName();
            Sym y;
            y.name = n;
            y.dim = s.chance( 1, 8 ) ? s.range( -2, 23 ) : s.range( 0, 3 );
            y.type = s.chance( 1, 8 ) ? s.range( -1, 6 ) : s.range( 0, 3 );
            y.user = s.chance( 1, 4 ) ? (int) s.bits32() : s.range( 0, 9 );
            std::string text = s.chance( 1, 12 ) ? std::string( s.range( 250, 300 ), 'z' ) + "'\"" : genText( s, 255 );
            y.expl = goodText( text.size() < 256 ? text : "String overflow: " + text.substr( 0, 235 ) + "..." );
            bool ok = cur < 0 && nameOk( n ) && y.dim >= 0 && y.dim <= 20 && y.type >= 0 && y.type <= 3;
            int mode = s.range( 0, 3 ), r;
            int lo[MAXDIM], hi[MAXDIM];
            for( int k = 0; k < MAXDIM; k++ ) lo[k] = 1, hi[k] = s.chance( 1, 4 ) ? 100000 : 9;
            const char *tp = text.empty() && s.flip() ? nullptr : text.c_str();
            switch( mode )
            {
               case 0: r = g->gdxDataWriteStrStart( n.c_str(), tp ? tp : "", y.dim, y.type, y.user ); break;
               case 1: r = g->gdxDataWriteMapStart( n.c_str(), tp ? tp : "", y.dim, y.type, y.user ); break;
               case 2: r = g->gdxDataWriteRawStart( n.c_str(), tp ? tp : "", y.dim, y.type, y.user ); break;
               default: r = g->gdxDataWriteRawStartKeyBounds( n.c_str(), tp ? tp : "", y.dim, y.type, y.user, lo, hi );
            }
            c.check( r == ( ok ? 1 : 0 ), "declaring ", q( n ), " dim ", y.dim, " type ", y.type, cur >= 0 ? " during another write" : "", " returns ", r );
            if( ok )
            {
               d.syms.push_back( y );
               cur = (int) d.syms.size() - 1;
               curMode = mode;
               lastKey = 0;
               began = false;
               accepted++;
            }
            else
            {
               refusedDecl++;
               refusedCheck( err, "a declaration" );
            }
            break;
         }
         case 1:
         {
            Sym &y = d.syms[cur];
            if( y.dim == 0 && !y.recs.empty() ) break;
            if( lastKey >= 9 ) break;
            int e = y.dim ? s.range( lastKey + 1, 9 ) : 0;
            lastKey = e;
            V5 v {};
            for( int k = 0; k < nvals( y.type ); k++ ) v[k] = y.type == GMS_DT_SET ? s.range( 0, (int) d.texts.size() - 1 ) : s.range( 0, 5 );
            int k[MAXDIM];
            const char *sk[MAXDIM];
            for( int i = 0; i < MAXDIM; i++ )
            {
               k[i] = e;
               sk[i] = e ? d.uels[e - 1].c_str() : "";
            }
            int r = curMode == 0 ? g->gdxDataWriteStr( sk, v.data() ) : ( curMode == 1 ? g->gdxDataWriteMap( k, v.data() ) : g->gdxDataWriteRaw( k, v.data() ) );
            c.check( r == 1, "record refused" );
            y.recs.push_back( { Key( y.dim, e ), v } );
            if( y.type == GMS_DT_SET && v[0] != 0 ) y.hasText = true;
            began = true;
            break;
         }
         case 2: done(); break;
         case 3:
         {
            int n = s.weighted( { 4, 2, 1, 1 } );
            n = n == 0 ? s.range( 1, std::max( 1, (int) d.syms.size() ) ) : ( n == 1 ? 0 : ( n == 2 ? -1 : (int) d.syms.size() + 1 ) );
            int target = n <= 0 ? cur : ( n <= (int) d.syms.size() ? n - 1 : -1 );
            std::string t = s.chance( 1, 8 ) ? std::string( s.range( 250, 270 ), 'k' ) : genText( s, 255 );
            int r = g->gdxSymbolAddComment( n, t.c_str() );
            c.check( r == ( target >= 0 ? 1 : 0 ), "comment for symbol ", n, " returns ", r );
            if( target >= 0 )
            {
               d.syms[target].comments.push_back( t.substr( 0, 255 ) );
               extras++;
            }
            else
               refusedCheck( err, "a comment" );
            break;
         }
         case 4:
         {
            std::string t = s.chance( 1, 4 ) ? s.pick( d.texts ) : genText( s, 255 );
            if( s.chance( 1, 5 ) ) t = recase( s, t );
            int nr = -9;
            c.check( g->gdxAddSetText( t.c_str(), nr ) == 1, "set text refused" );
            std::string k = goodText( t );
            int want = -1;
            for( size_t i = 0; i < d.texts.size(); i++ )
               if( d.texts[i] == k ) want = (int) i;
            if( want < 0 )
            {
               want = (int) d.texts.size();
               d.texts.push_back( k );
               nodes.push_back( 0 );
            }
            c.check( nr == want, "set text ", q( t ), " gets number ", nr, " expected ", want );
            extras++;
            break;
         }
         case 5:
         {
            int n = s.range( -1, (int) d.texts.size() ), nd = s.range( 1, 50 );
            bool ok = n >= 0 && n < (int) d.texts.size() && nodes[n] == 0;
            int r = g->gdxSetTextNodeNr( n, nd );
            c.check( r == ( ok ? 1 : 0 ), "node of set text ", n, " returns ", r );
            if( ok ) nodes[n] = nd;
            break;
         }
         case 6:
         {
            auto ident = [&]() -> std::string { return s.chance( 1, 8 ) ? "*" : ( !d.syms.empty() && s.flip() ? recase( s, s.pick( d.syms ).name ) : anyName() ); };
            std::string a = ident(), b = ident();
            int ia = a == "*" ? 0 : d.findSym( a ), ib = b == "*" ? 0 : d.findSym( b );
            bool ok = ( ia >= 0 ) != ( ib >= 0 );
            int tgt = ia >= 0 ? ia : ib;
            std::string nn = ia >= 0 ? b : a;
            if( ok && tgt > 0 ) ok = d.syms[tgt - 1].type == GMS_DT_SET || d.syms[tgt - 1].type == GMS_DT_ALIAS;
            if( ok ) ok = nameOk( nn );
            int r = g->gdxAddAlias( a.c_str(), b.c_str() );
            c.check( r == ( ok ? 1 : 0 ), "alias of ", q( a ), " and ", q( b ), " returns ", r );
            if( ok )
            {
               Sym y;
               y.name = nn;
               y.type = GMS_DT_ALIAS;
               y.user = tgt;
               y.aliasOf = tgt;
               y.dim = tgt ? d.syms[tgt - 1].dim : 1;
               y.expl = "Aliased with " + ( tgt ? d.syms[tgt - 1].name : std::string( "*" ) );
               d.syms.push_back( y );
               accepted++;
            }
            else
            {
               refusedDecl++;
               refusedCheck( err, "an alias" );
            }
            break;
         }
         case 7: checkNow(); break;
         default:
         {
            std::string n = "acr" + std::to_string( s.range( 0, 5 ) );
            if( s.flip() ) n = "n" + std::to_string( s.range( 0, 9 ) );
            if( d.findSym( n ) > 0 || acr.count( upper( n ) ) ) break;
            c.check( g->gdxAcronymAdd( n.c_str(), "", 100 + (int) acr.size() ) > 0, "acronym" );
            acr.insert( upper( n ) );
         }
      }
   }
   checkNow();
   if( cur >= 0 && s.flip() ) done();
   int cl = g->gdxClose();
   c.check( cl == 0, "close returns ", cl );
   (void) began;
   cur = -1;
   auto h = s.flip() ? std::move( g ) : mkUsed( c, s );
   openRead( c, *h, fn );
   for( size_t i = 1; i <= d.syms.size(); i++ ) checkSym( *h, (int) i, false );
   checkTexts( *h, false );
   checkMeta( c, *h, d );
   for( size_t i = 1; i <= d.syms.size(); i++ )
   {
      int t = (int) i;
      while( t > 0 && d.syms[t - 1].aliasOf >= 0 ) t = d.syms[t - 1].aliasOf;
      auto r = readRaw( c, *h, (int) i, d.syms[i - 1].dim, t ? d.syms[t - 1].type : 0 );
      if( t == 0 )
      {
         c.check( r.size() == d.uels.size(), "alias of the universe has ", r.size(), " records" );
         continue;
      }
      const Sym &y = d.syms[t - 1];
      c.check( r.size() == ( y.dim == 0 && y.recs.empty() ? 1u : y.recs.size() ), "symbol ", i, " reads ", r.size(), " records" );
      for( size_t k = 0; k < y.recs.size(); k++ ) c.check( r[k].k == y.recs[k].k && sameVals( r[k].v, y.recs[k].v, nvals( y.type ) ), "symbol ", i, " record ", k + 1, " differs" );
   }
   closeOk( c, *h );
   // without texts
   int e;
   c.check( h->gdxOpenReadEx( fn.c_str(), 1, e ) == 1 && e == 0, "open without texts" );
   char b[256];
   int nd;
   c.check( h->gdxGetElemText( 0, b, nd ) == 0 && !b[0], "set text available although not requested" );
   for( size_t i = 1; i <= d.syms.size(); i++ ) checkSym( *h, (int) i, false );
   closeOk( c, *h );
   c.nontrivial = accepted >= 2 && refusedDecl >= 1 && extras >= 1;
   c.label( "accepted", accepted );
   c.label( "refused", refusedDecl );
   c.desc = std::to_string( accepted ) + " accepted, " + std::to_string( refusedDecl ) + " refused, " + std::to_string( d.texts.size() ) + " texts";
}

// ------------------------------------------------------------------ C10
namespace
{
struct DomSym {
   std::string name;
   int dim {}, type {};
   int aliasOf { -1 };
   bool elems {};         // elements are tracked
   std::vector<int> reg;  // regular domain, empty: none
   bool hasReg {};
   std::vector<std::string> rel;// relaxed
   bool hasRel {};
};
}// namespace

VP_PROP( C10, domains, "at least one accepted regular domain naming a set or alias, one relaxed domain and one refused position or declaration", 50000, 600000 )
{
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.flip() );
   std::vector<DomSym> S;
   std::vector<std::string> relNames;// spelling of the first use
   bool store = true, bogus = true;
   int nReg {}, nRel {}, nBad {};
   auto find = [&]( const std::string &n ) {
      for( size_t i = 0; i < S.size(); i++ )
         if( sameCI( S[i].name, n ) ) return (int) i + 1;
      return -1;
   };
   auto checkSym = [&]( TGXFileObj &h, int n ) {
      auto &y = S[n - 1];
      int nr[MAXDIM];
      for( auto &x: nr ) x = -7;
      c.check( h.gdxSymbolGetDomain( n, nr ) == 1, "domain of symbol ", n );
      for( int k = 0; k < y.dim; k++ ) c.check( nr[k] == ( y.hasReg ? y.reg[k] : 0 ), "symbol ", n, " position ", k + 1, " has domain symbol ", nr[k], " expected ", y.hasReg ? y.reg[k] : 0 );
      StrKeys sk;
      int r = h.gdxSymbolGetDomainX( n, sk.p );
      int want = y.hasRel ? 2 : ( y.hasReg ? 3 : 1 );
      c.check( r == want, "symbol ", n, " reports domain kind ", r, " expected ", want );
      for( int k = 0; k < y.dim; k++ )
      {
         std::string w = y.hasRel ? y.rel[k] : ( y.hasReg && y.reg[k] ? S[y.reg[k] - 1].name : "*" );
         c.check( w == sk.buf[k], "symbol ", n, " position ", k + 1, " has domain ", q( sk.buf[k] ), " expected ", q( w ) );
      }
   };
   int ops = s.range( 3, 20 );
   for( int op = 0; op < ops; op++ )
   {
      g->gdxGetLastError();
      int err = g->gdxErrorCount();
      switch( s.weighted( { 8, 2, 3, 1, 2 } ) )
      {
         case 0:
         {
            DomSym y;
            y.name = "y" + std::to_string( S.size() );
            y.type = s.weighted( { 5, 2, 1, 1 } );
            y.dim = y.type == 0 && s.chance( 3, 4 ) ? 1 : ( s.chance( 1, 10 ) ? s.range( 1, 20 ) : s.range( 1, 3 ) );
            y.elems = y.type == 0 && y.dim == 1 && store;
            int mode = s.range( 0, 2 );
            c.check( ( mode == 0 ? g->gdxDataWriteStrStart( y.name.c_str(), "", y.dim, y.type, 0 ) : ( mode == 1 ? g->gdxDataWriteMapStart( y.name.c_str(), "", y.dim, y.type, 0 ) : g->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, 0 ) ) ) == 1, "start" );
            S.push_back( y );
            int me = (int) S.size();
            int tries = s.weighted( { 1, 5, 2 } );
            bool can = true;
            for( int t = 0; t < tries; t++ )
            {
               err = g->gdxErrorCount();
               std::vector<std::string> nm;
               std::vector<int> reg;
               bool ok = true, noData {};
               for( int k = 0; k < y.dim; k++ )
               {
                  std::string x = s.chance( 1, 4 ) ? "*" : ( s.chance( 1, 12 ) ? "nosuch" : recase( s, S[s.range( 0, me - 1 )].name ) );
                  nm.push_back( x );
                  if( noData ) continue;
                  if( x == "*" )
                  {
                     reg.push_back( 0 );
                     continue;
                  }
                  int i = find( x ), f = i;
                  if( i < 0 )
                  {
                     ok = false;
                     reg.push_back( 0 );
                     continue;
                  }
                  while( f > 0 && S[f - 1].aliasOf >= 0 ) f = S[f - 1].aliasOf;
                  if( f == 0 ) reg.push_back( i );
                  else if( S[f - 1].type != 0 || S[f - 1].dim != 1 )
                  {
                     ok = false;
                     reg.push_back( 0 );
                  }
                  else if( !bogus && !S[f - 1].elems )
                  {
                     ok = false;
                     noData = true;
                  }
                  else
                     reg.push_back( i );
               }
               const char *p[MAXDIM];
               for( int k = 0; k < y.dim; k++ ) p[k] = nm[k].c_str();
               int r = g->gdxSymbolSetDomain( p );
               c.check( r == ( can && ok ? 1 : 0 ), "domain of symbol ", me, " returns ", r, " expected ", can && ok );
               if( !( can && ok ) )
               {
                  nBad++;
                  c.check( g->gdxErrorCount() > err && g->gdxGetLastError() != 0, "a refused domain raised no error" );
               }
               if( can && !noData )
               {
                  S[me - 1].hasReg = true;
                  S[me - 1].reg = reg;
                  can = false;
                  for( int x: reg ) nReg += x > 0;
               }
               checkSym( *g, me );
            }
            if( s.chance( 1, 3 ) )
            {// still usable
               V5 v {};
               std::string l = "q";
               const char *k[MAXDIM];
               int ik[MAXDIM];
               for( int i = 0; i < y.dim; i++ ) k[i] = "q", ik[i] = 1;
               if( mode == 0 ) c.check( g->gdxDataWriteStr( k, v.data() ) == 1, "the symbol is not usable after its domain was declared" );
            }
            c.check( g->gdxDataWriteDone() == 1, "done" );
            break;
         }
         case 1:
         {
            if( S.empty() ) break;
            int t = s.chance( 1, 5 ) ? 0 : s.range( 1, (int) S.size() );
            if( t && S[t - 1].type != 0 && S[t - 1].type != GMS_DT_ALIAS ) break;
            DomSym y;
            y.name = "y" + std::to_string( S.size() );
            y.type = GMS_DT_ALIAS;
            y.aliasOf = t;
            y.dim = t ? S[t - 1].dim : 1;
            c.check( g->gdxAddAlias( t ? S[t - 1].name.c_str() : "*", y.name.c_str() ) == 1, "alias" );
            S.push_back( y );
            break;
         }
         case 2:
         {
            int n = s.chance( 1, 10 ) ? ( s.flip() ? 0 : (int) S.size() + 1 ) : s.range( 1, std::max( 1, (int) S.size() ) );
            bool ok = n >= 1 && n <= (int) S.size();
            std::vector<std::string> nm;
            for( int k = 0; k < MAXDIM; k++ )
            {
               switch( s.weighted( { 3, 3, 2, 1 } ) )
               {
                  case 0: nm.push_back( "*" ); break;
                  case 1: nm.push_back( "rel" + std::to_string( s.range( 0, 4 ) ) ); break;
                  case 2: nm.push_back( S.empty() ? "" : recase( s, s.pick( S ).name ) ); break;
                  default: nm.push_back( genIdentAny( s ) );
               }
               if( ok && k + 1 >= S[n - 1].dim ) break;
            }
            const char *p[MAXDIM];
            for( size_t k = 0; k < nm.size(); k++ ) p[k] = nm[k].c_str();
            int r = g->gdxSymbolSetDomainX( n, p );
            c.check( r == ( ok ? 1 : 0 ), "relaxed domain of symbol ", n, " returns ", r );
            if( !ok )
            {
               nBad++;
               break;
            }
            auto &y = S[n - 1];
            y.hasRel = true;
            y.rel.clear();
            for( int k = 0; k < y.dim; k++ )
            {
               std::string w = "*";
               if( goodIdent( nm[k] ) )
               {
                  w = "";
                  for( auto &x: relNames )
                     if( sameCI( x, nm[k] ) ) w = x;
                  if( w.empty() ) relNames.push_back( w = nm[k] );
               }
               y.rel.push_back( w );
               if( w != "*" ) nRel++;
            }
            break;
         }
         case 3:
            if( s.flip() )
            {
               store = s.flip();
               g->gdxStoreDomainSetsSet( store );
               c.check( ( g->gdxStoreDomainSets() != 0 ) == store, "flag" );
            }
            else
            {
               bogus = s.flip();
               g->gdxAllowBogusDomainsSet( bogus );
               c.check( ( g->gdxAllowBogusDomains() != 0 ) == bogus, "flag" );
            }
            break;
         default:
            if( !S.empty() ) checkSym( *g, s.range( 1, (int) S.size() ) );
            int nr[MAXDIM];
            StrKeys sk;
            c.check( g->gdxSymbolGetDomain( (int) S.size() + 1, nr ) == 0 && g->gdxSymbolGetDomainX( (int) S.size() + 1, sk.p ) == 0, "domain of a missing symbol" );
      }
   }
   for( size_t i = 1; i <= S.size(); i++ ) checkSym( *g, (int) i );
   g->gdxClose();
   auto h = mkUsed( c, s );
   openRead( c, *h, fn );
   for( size_t i = 1; i <= S.size(); i++ ) checkSym( *h, (int) i );
   closeOk( c, *h );
   c.nontrivial = nReg && nRel && nBad;
   c.label( "regular positions", nReg );
   c.label( "relaxed positions", nRel );
   c.label( "refused", nBad );
   c.desc = std::to_string( S.size() ) + " symbols, " + std::to_string( nReg ) + " regular, " + std::to_string( nRel ) + " relaxed, " + std::to_string( nBad ) + " refused";
}

// ------------------------------------------------------------------ C11
VP_PROP( C11, domcheck, "a symbol with a regular domain received at least one record inside and one outside its domain", 30000, 500000 )
{
   std::string fn = c.path( "a.gdx" );
   auto g = mkUsed( c, s );
   openWrite( c, *g, fn, s.flip() );
   Doc d;
   int N = s.weighted( { 5, 2, 1 } );
   N = N == 0 ? s.range( 3, 12 ) : ( N == 1 ? s.range( 12, 70 ) : s.range( 200, 3000 ) );
   c.check( g->gdxUELRegisterMapStart() == 1, "register" );
   for( int i = 1; i <= N; i++ )
   {
      std::string l = "e" + std::to_string( i );
      c.check( g->gdxUELRegisterMap( N + 1 - i, l.c_str() ) == 1, "register" );// user numbers run against the label order
      d.addUel( l );
   }
   c.check( g->gdxUELRegisterDone() == 1, "register" );
   // candidate label numbers concentrate around a few places
   std::vector<int> cand;
   for( int i = 0; i < 6; i++ )
   {
      int b = s.range( 1, N );
      for( int j = -1; j <= 1; j++ )
         if( b + j >= 1 && b + j <= N ) cand.push_back( b + j );
   }
   std::vector<std::set<int>> elems;// per symbol: the elements of one-dimensional sets
   int inside {}, outside {}, dupes {}, totalErr {};
   int ns = s.range( 2, 7 ), refusedDom {};
   const bool mixed = s.chance( 1, 4 );
   std::set<int> unkept;// sets whose elements are not kept
   for( int i = 0; i < ns; i++ )
   {
      if( i > 0 && s.chance( 1, 5 ) )
      {
         std::vector<int> t { 0 };
         for( size_t k = 0; k < d.syms.size(); k++ )
            if( d.syms[k].dim == 1 && ( d.syms[k].type == 0 || d.syms[k].type == 4 ) ) t.push_back( (int) k + 1 );
         int tgt = s.pick( t );
         Sym y;
         y.name = "a" + std::to_string( i );
         y.type = GMS_DT_ALIAS;
         y.dim = 1;
         y.aliasOf = y.user = tgt;
         y.expl = "Aliased with " + ( tgt ? d.syms[tgt - 1].name : std::string( "*" ) );
         c.check( g->gdxAddAlias( tgt ? d.syms[tgt - 1].name.c_str() : "*", y.name.c_str() ) == 1, "alias" );
         d.syms.push_back( y );
         elems.push_back( {} );
         continue;
      }
      Sym y;
      y.name = "s" + std::to_string( i );
      bool isSet = i == 0 || s.chance( 1, 2 );
      y.type = isSet ? 0 : s.range( 0, 3 );
      y.dim = isSet ? 1 : ( s.chance( 1, 12 ) ? s.range( 1, 20 ) : s.range( 1, 3 ) );
      int nv = nvals( y.type );
      int mode = s.range( 0, 2 );
      // now and then the elements of a set are not kept for checking
      const bool store = !mixed || s.chance( 2, 3 ), bogus = mixed && s.chance( 1, 3 );
      g->gdxStoreDomainSetsSet( store );
      g->gdxAllowBogusDomainsSet( bogus );
      c.check( ( mode == 0 ? g->gdxDataWriteStrStart( y.name.c_str(), "", y.dim, y.type, 0 ) : ( mode == 1 ? g->gdxDataWriteMapStart( y.name.c_str(), "", y.dim, y.type, 0 ) : g->gdxDataWriteRawStart( y.name.c_str(), "", y.dim, y.type, 0 ) ) ) == 1, "start" );
      std::vector<int> dom( y.dim, -1 );// resolved set (symbol number), -1 unchecked
      if( i > 0 && s.chance( 4, 5 ) )
      {
         std::vector<std::string> nm( y.dim, "*" );
         std::vector<int> cands;
         for( size_t k = 0; k < d.syms.size(); k++ )
            if( d.syms[k].dim == 1 && ( d.syms[k].type == 0 || d.syms[k].type == 4 ) ) cands.push_back( (int) k + 1 );
         bool bad = s.chance( 1, 10 );
         for( int k = 0; k < y.dim; k++ )
         {
            if( cands.empty() || s.chance( 1, 5 ) ) continue;
            int t = s.pick( cands );
            nm[k] = recase( s, d.syms[t - 1].name );
            while( t > 0 && d.syms[t - 1].aliasOf >= 0 ) t = d.syms[t - 1].aliasOf;
            if( t > 0 ) dom[k] = t;
         }
         if( bad )
         {// one unknown domain: reported, that position is not checked
            int k = s.range( 0, y.dim - 1 );
            nm[k] = "nosuch";
            dom[k] = -1;
         }
         const char *p[MAXDIM];
         for( int k = 0; k < y.dim; k++ ) p[k] = nm[k].c_str();
         int stop = y.dim;// the first set that cannot be checked against
         for( int k = y.dim - 1; k >= 0; k-- )
            if( dom[k] > 0 && unkept.count( dom[k] ) )
            {
               if( !bogus ) stop = k;
               else dom[k] = -1;// not checked
            }
         int err = g->gdxErrorCount();
         c.check( g->gdxSymbolSetDomain( p ) == ( bad || stop < y.dim ? 0 : 1 ), "domain declaration" );
         totalErr += g->gdxErrorCount() - err;
         if( stop < y.dim )
         {// refused as a whole: no domain at all
            c.check( g->gdxErrorCount() > err, "a refused domain is no error" );
            std::fill( dom.begin(), dom.end(), -1 );
            refusedDom++;
         }
         else
         {
            c.check( g->gdxErrorCount() - err == ( bad ? 1 : 0 ), "errors of a domain declaration" );
            y.domKind = 3;
            for( int k = 0; k < y.dim; k++ )
            {
               int x = nm[k] == "*" || nm[k] == "nosuch" ? -1 : d.findSym( nm[k] );
               y.dom.push_back( x < 0 ? "*" : d.syms[x - 1].name );
            }
         }
      }
      // records
      struct In {
         Key k;
         V5 v;
      };
      std::vector<In> in;
      int n = s.size( 40 );
      for( int r = 0; r < n; r++ )
      {
         In x;
         for( int k = 0; k < y.dim; k++ )
         {
            int e;
            if( dom[k] > 0 && !elems[dom[k] - 1].empty() && s.chance( 3, 4 ) )
            {
               auto it = elems[dom[k] - 1].begin();
               std::advance( it, s.range( 0, std::min<int>( 20, (int) elems[dom[k] - 1].size() - 1 ) ) );
               e = *it;
            }
            else
               e = s.chance( 1, 6 ) ? s.range( 1, N ) : s.pick( cand );
            x.k.push_back( e );
         }
         x.v = {};
         for( int k = 0; k < nv; k++ ) x.v[k] = s.range( 0, 1000 );
         in.push_back( x );
      }
      if( mode == 2 ) std::stable_sort( in.begin(), in.end(), []( const In &a, const In &b ) { return a.k < b.k; } );
      std::map<Key, V5> stored;
      std::vector<Rec> viol, dup;
      for( auto &x: in )
      {
         bool ok = true;
         Key marked = x.k;
         for( int k = 0; k < y.dim; k++ )
            if( dom[k] > 0 && !elems[dom[k] - 1].count( x.k[k] ) )
            {
               ok = false;
               marked[k] = -x.k[k];
            }
         bool isDup = ok && stored.count( x.k );
         int r;
         if( mode == 0 )
         {
            const char *p[MAXDIM];
            for( int k = 0; k < y.dim; k++ ) p[k] = d.uels[x.k[k] - 1].c_str();
            r = g->gdxDataWriteStr( p, x.v.data() );
         }
         else if( mode == 1 )
         {
            int p[MAXDIM];
            for( int k = 0; k < y.dim; k++ ) p[k] = N + 1 - x.k[k];
            r = g->gdxDataWriteMap( p, x.v.data() );
         }
         else
            r = g->gdxDataWriteRaw( x.k.data(), x.v.data() );
         bool now = mode == 2 && ( !ok || isDup );
         c.check( r == ( now ? 0 : 1 ), "symbol ", y.name, ": record ", keyStr( x.k ), ok ? "" : " outside the domain", isDup ? " repeated" : "", " returns ", r );
         if( !ok )
         {
            viol.push_back( { marked, x.v } );
            outside += 1;
         }
         else if( isDup )
         {
            dup.push_back( { x.k, x.v } );
            dupes++;
         }
         else
         {
            stored[x.k] = x.v;
            bool any {};
            for( int k = 0; k < y.dim; k++ ) any = any || dom[k] > 0;
            inside += any;
         }
      }
      c.check( g->gdxDataWriteDone() == 1, "done" );
      totalErr += (int) viol.size() + (int) dup.size();
      c.check( g->gdxErrorCount() == totalErr, "error count ", g->gdxErrorCount(), " expected ", totalErr );
      // the error list
      int ne = g->gdxDataErrorCount();
      c.check( ( ne > 0 ) == ( !viol.empty() || !dup.empty() ), "error list has ", ne, " entries for ", viol.size(), " domain violations and ", dup.size(), " duplicates" );
      std::vector<Rec> list;
      for( int e = 1; e <= ne; e++ )
      {
         int k[MAXDIM], k2[MAXDIM];
         V5 v {}, v2 {};
         c.check( g->gdxDataErrorRecordX( e, k, v.data() ) == 1 && g->gdxDataErrorRecord( e, k2, v2.data() ) == 1, "error record ", e );
         Rec r;
         for( int x = 0; x < y.dim; x++ )
         {
            r.k.push_back( k[x] );
            c.check( k2[x] == std::abs( k[x] ), "error record ", e, " differs between the two queries" );
         }
         r.v = v;
         c.check( sameVals( v, v2, nv ), "values of error record ", e, " differ between the two queries" );
         bool found {};
         for( auto *l: { &viol, &dup } )
            for( auto &z: *l ) found = found || ( z.k == r.k && sameVals( z.v, r.v, nv ) );
         c.check( found, "error record ", e, " ", keyStr( r.k ), " is not one of the refused records" );
         list.push_back( r );
      }
      if( ne < 11 )
      {
         for( auto &z: viol )
            for( int k = 0; k < y.dim; k++ )
               if( z.k[k] < 0 )
               {
                  bool found {};
                  for( auto &e: list ) found = found || e.k[k] == z.k[k];
                  bool other {};// another offending position of the same record may stand for it
                  for( auto &e: list ) other = other || ( e.k == z.k );
                  c.check( found || other || [&] {
                     for( int m = 0; m < y.dim; m++ )
                        if( m != k && z.k[m] < 0 )
                           for( auto &e: list )
                              if( e.k[m] == z.k[m] ) return true;
                     return false;
                  }(),
                           "refused record ", keyStr( z.k ), " is not represented in the error list" );
               }
         for( auto &z: dup )
         {
            bool found {};
            for( auto &e: list ) found = found || ( e.k == z.k && sameVals( e.v, z.v, nv ) );
            c.check( found, "repeated record ", keyStr( z.k ), " is not in the error list" );
         }
      }
      std::set<int> el;
      for( auto &[k, v]: stored )
      {
         y.recs.push_back( { k, v } );
         if( y.dim == 1 && y.type == 0 ) el.insert( k[0] );
      }
      d.syms.push_back( y );
      elems.push_back( el );
      if( !store && y.dim == 1 && y.type == 0 ) unkept.insert( (int) d.syms.size() );
      g->gdxGetLastError();
   }
   g->gdxClose();
   openRead( c, *g, fn );
   checkMeta( c, *g, d );
   checkData( c, *g, d );
   closeOk( c, *g );
   c.nontrivial = inside && outside;
   c.label( "inside", inside );
   c.label( "outside", outside );
   c.label( "duplicates", dupes );
   c.label( "refused domains", refusedDom );
   c.desc = std::to_string( d.syms.size() ) + " symbols over " + std::to_string( N ) + " labels, inside " + std::to_string( inside ) + ", outside " + std::to_string( outside );
}
